"""Random Picotron carts and a fake picotron.dat"""
import random
from . import ref64, gen8
from .ref64 import UD

NAMES = ["main.lua", "src/a.lua", "src/b.lua", "src/deep/c.lua", "gfx/0.gfx", "gfx/1.gfx", "map/0.map", "sfx/0.sfx", "data.pod", "notes.txt",
         "readme", "a b.txt", "bin/x.bin", "bin/y.dat", "\u3042.txt", "src/x-1.lua", "lib/util.lua", ".hidden", "src/.info.pod", "data/table.pod", "z[1].txt"]

def pod_value(r, d=0):
    k = r.randrange(14 if d < 3 else 8)
    if k == 0: return r.randrange(-1000, 1000)
    if k == 1: return r.choice((0, 1, -1, 2**31, -2**31, 2**53, 2**62, -2**62, 65536, 2**63 - 1))
    if k == 2: return r.choice((0.5, -0.25, 1.0, 3.75, 1e10, 1e-5, 123456.789, -1e20, 0.1))
    if k == 3: return r.random() < 0.5
    if k == 4: return bytes(r.choice(b"abc \"\\'\n{}[]=,pxu") for _ in range(r.randrange(12)))
    if k == 5: return bytes(r.randrange(256) for _ in range(r.randrange(20)))
    if k == 6: return r.choice((b"", b"]]", b"--[[", b"b64:", b"lz4", b"pxu\0", b"\0", b"userdata()", b"nil", b"a]]b]]"))
    if k == 7: return r.choice((b"x", b"hello world", b"\xe3\x81\x82"))
    if k in (8, 9):
        t = r.choice((b"u8", b"u8", b"i16", b"f64", b"u8"))
        w = r.choice((1, 2, 8, 16, 33, 255, 256)); h = r.choice((0, 1, 4, 16))
        n = w * max(h, 1)
        if t == b"f64": return UD(t, w, h, b",".join(b"%d" % r.randrange(100) for _ in range(min(n, 8))))
        s = 2 if t == b"u8" else 4
        alpha = [r.getrandbits(4 * s) for _ in range(r.choice((1, 2, 5, 16, 40)))]
        data = []
        while len(data) < n: data += [r.choice(alpha)] * r.choice((1, 1, 1, 2, 3, 15, 16, 17, 30, 270, 600))
        return UD(t, w, h, b"".join(b"%0*x" % (s, v) for v in data[:n]))
    if k == 10: return {i + 1: x for i, x in enumerate(pod_value(r, d + 1) for _ in range(r.randrange(6))) if x is not None}
    out = {}
    for _ in range(r.randrange(6)):
        key = r.choice((lambda: r.choice((b"a", b"name", b"x1", b"end", b"a b", b"", b"9z", b"_q")), lambda: r.randrange(-2, 6), lambda: r.choice((b"w", b"h")),
                        lambda: r.choice((0.5, -1.25))))()
        out[key] = pod_value(r, d + 1)
    return out

def meta_bytes(r, extra=b""):
    out = b"pod"
    if r.random() < 0.5: out = b'pod_format="table"' if r.random() < 0.7 else b'pod_type="image"'
    for k in r.sample((b'created="2024-03-20 10:00:00"', b'modified="2024-05-05"', b"revision=3", b'icon=userdata("u8",2,2,"01020304")', b'author="me"', b"runtime=21", b'title="a]3b"'), r.randrange(4)):
        out += b"," + k
    return out + extra

def content(r, path, rich=True):
    """File contents fit for a path"""
    if path.endswith(".lua"): return gen8.lua(r).encode()
    k = r.randrange(8)
    if path.endswith((".pod", ".gfx", ".map", ".sfx")) or k == 0:
        v = pod_value(r)
        if not isinstance(v, (dict, UD, bytes)): v = {1: v}
        return b"--[[" + meta_bytes(r) + b"]]" + ref64.encode_pod(v, r)
    if k == 1: return b""
    if k == 2: return bytes(r.randrange(256) for _ in range(r.choice((1, 10, 254, 255, 256, 700))))
    if k == 3: return r.choice((b"b64$abc", b":: x\n", b"a\n:: b\nc", b"\n", b"a\r\nb\r\n", b"a\rb", b"x\n\n", b"\n\nx", b"[eoc]\n", b":: [eoc]\n", b"\x85\x0b\x0c", b"\x1c\x1d\x1e", b"caf\xc3\xa9",
                                b"--[[pod_format=\"raw\"]]raw text", b"--[[pod_format=\"raw\",a=1]]\n\x00\x01", b"b64$", b"version 3", b"picotron cartridge\n", b"pxu\0",
                                b"-- uses b64$ here\nx", b"b64$", b" b64$YQ==", b"x b64$YQ==\n", b"a\nb64$YQ==", b"b64$YQ==\n", b"B64$x", b"b64 $", b"see :: main.lua\n", b" :: a\n", b"::\n", b"::a\n", b":: \n", b"a\n:: [eoc]\nb", b"x [eoc]\n", b"-- --[[pod]]\n", b"a --[[pod_format=\"raw\"]]b", b"--[[po", b"lz4\0", b" \n", b"\t:: x\n"))
    if k == 4: return b"\n".join(r.choice((b"hello", b"", b"  indented", b"tab\there", b"x=1")) for _ in range(r.randrange(1, 8)))
    if k == 5: return bytes(r.choice(b"ab\n\r\t :$") for _ in range(r.randrange(30)))
    if k == 6: return (b"line\n" * r.choice((1, 50, 300)))
    return gen8.lua(r).encode()

def label_file(r, qoi=False):
    import PIL.Image, io
    im = PIL.Image.new("RGBA", (480, 270), (r.randrange(256), r.randrange(256), r.randrange(256), 255))
    im.paste((r.randrange(256), r.randrange(256), 7, 255), (r.randrange(200), r.randrange(100), 300, 250))
    b = io.BytesIO(); im.save(b, "PNG"); return b.getvalue()

def info_file(r, runtime=True, title=None):
    ex = b""
    if runtime: ex += b",runtime=%d" % r.choice((17, 20, 21, 27))
    if title or r.random() < 0.5: ex += b',title="' + (title or b"my cart") + b'",author="me",version="1.%d"' % r.randrange(9)
    if r.random() < 0.3: ex += b',icon=userdata("u8",16,16,"' + b"".join(b"%02x" % r.randrange(32) for _ in range(256)) + b'")'
    return b"--[[pod" + ex + b"]]" + (b"nil" if r.random() < 0.5 else ref64.encode_pod({b"x": 1}, r, "text"))

def order(cart):
    """Directories first, the way carts are stored"""
    return {p: cart[p] for p in sorted(cart, key=lambda p: (not p.endswith("/"), p))}

def cart(r, n=None, rich=True, label=None, info=None):
    out = {}
    names = ["main.lua"] + r.sample(NAMES[1:], n if n is not None else r.choice((0, 2, 4, 8, 12)))
    for p in names:
        for q in ref64.parents(p): out[q] = None
        out[p] = content(r, p, rich)
    if r.random() < 0.2: out["empty/"] = None
    if info if info is not None else r.random() < 0.6: out[".info.pod"] = info_file(r)
    if label if label is not None else r.random() < 0.1: out["label.png"] = label_file(r)
    return order(out)

def small(r):
    return cart(r, r.choice((0, 2, 4)), label=False)

EXT = {"p64": ".p64", "png": ".p64.png", "rom": ".rom", "dir": "", "tiny-rom": ".tiny", "lua": ".lua", "html": ".html", "dat": ".dat"}

def encode(c, fmt, r):
    if fmt == "p64": return ref64.write_p64(c, r)
    if fmt == "rom": return ref64.write_rom(c, r)
    if fmt == "png": return ref64.write_png(c, r)
    raise ValueError(fmt)

def put(files, c, fmt, path, r):
    """Place a cart on the simulated disk"""
    if fmt == "dir":
        files[path] = None
        for p, d in c.items(): files[path + "/" + p.rstrip("/")] = d
    else: files[path] = encode(c, fmt, r)

_dats = {}
def dat(seed=0):
    if seed not in _dats:
        r = random.Random("dat64/%s" % seed)
        rb = lambda n: bytes(r.randrange(256) for _ in range(n))
        sysc = {"lib/": None, "lib/head.lua": b"-- system\n", "main.lua": b"boot()\n"}
        html = {"shell.html": b"<html><title>##page_title##</title><img src='##label_file##'><script>\n// ##pcart##\n</script></html>\n",
                "picotron_player.js": b"// player\nvar x=%d;\n" % r.randrange(1000)}
        sdl = {"Resources/": None, "Resources/Info.plist": b"<plist>" + rb(20), "SDL2": rb(150), "_CodeSignature/": None, "_CodeSignature/CodeResources": rb(10), ".info.pod": b"--[[pod]]nil"}
        ents = [b"/home", ref64.write_rom({"boot.lua": b"-- low level\n"}, r), ref64.write_rom(sysc, r), ref64.write_rom(html, r), rb(300), gen8.make_exe(r) + rb(20), rb(200), rb(250), ref64.write_rom(sdl, r)]
        _dats[seed] = ref64.write_dat(ents), dict(entries=ents, sysc=sysc, html=html, sdl=sdl)
    return _dats[seed][0]
def dat_info(seed=0): dat(seed); return _dats[seed][1]
