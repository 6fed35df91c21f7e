"""Random Pico-8 carts, their encodings (made by the independent codecs of ref8) and a fake pico8.dat"""
import random, struct
from . import ref8

IDS = ["a", "b", "x", "y", "player", "score", "t", "n", "foo", "bar_2", "_z", "idx", "spd", "ents", "msg"]
BUILT = ["cls()", "spr(1,x,y)", "print(\"hi\",1,2,7)", "camera()", "pal()", "sfx(3)", "music(0)", "circfill(64,64,8,rnd(16))", "poke(0x5f2d,1)"]

def expr(r, d=0):
    k = r.randrange(12 if d < 3 else 6)
    if k == 0: return str(r.randrange(0, 300))
    if k == 1: return "%g" % (r.randrange(0, 4000) / 16)
    if k == 2: return "0x%x" % r.randrange(0, 0x8000)
    if k == 3: return r.choice(IDS)
    if k == 4: return '"%s"' % "".join(r.choice("abc xyz!?<>-") for _ in range(r.randrange(8)))
    if k == 5: return r.choice(("true", "false", "nil", "t"))
    if k == 6: return "%s%s%s" % (expr(r, d + 1), r.choice(("+", "-", "*", " and ", " or ", "==", " .. ", "<", "\\", "%")), expr(r, d + 1))
    if k == 7: return "(%s)" % expr(r, d + 1)
    if k == 8: return "%s(%s)" % (r.choice(("flr", "sin", "abs", "rnd", "btn", "tostr", "foo")), expr(r, d + 1))
    if k == 9: return "{%s}" % ",".join("%s=%s" % (r.choice(IDS), expr(r, d + 1)) if r.random() < 0.5 else expr(r, d + 1) for _ in range(r.randrange(4)))
    if k == 10: return "ents[%s]" % expr(r, d + 1)
    return "#ents" if r.random() < 0.5 else "-" + r.choice(IDS)

def stat(r, d=0):
    k = r.randrange(13 if d < 3 else 6)
    if k == 0: return ["%s=%s" % (r.choice(IDS), expr(r))]
    if k == 1: return ["local %s=%s" % (r.choice(IDS), expr(r))]
    if k == 2: return [r.choice(BUILT)]
    if k == 3: return ["%s%s%s" % (r.choice(IDS), r.choice(("+=", "-=", "*=", "..=")), expr(r))]
    if k == 4: return ["-- " + "".join(r.choice("abcdef ghi 123 !*") for _ in range(r.randrange(30)))]
    if k == 5: return ["ents.%s=%s" % (r.choice(IDS), expr(r))]
    body = [l for _ in range(r.randint(1, 4)) for l in stat(r, d + 1)]
    body = [" " + l for l in body]
    if k == 6: return ["if %s then" % expr(r)] + body + (["else"] + [" " + l for l in stat(r, d + 1)] if r.random() < 0.4 else []) + ["end"]
    if k == 7: return ["for %s=1,%s do" % (r.choice(IDS), expr(r))] + body + ["end"]
    if k == 8: return ["function %s(%s)" % (r.choice(IDS + ["_update", "_draw", "_init"]), ",".join(r.sample(IDS, r.randrange(3))))] + body + ["end"]
    if k == 9: return ["while %s do" % expr(r)] + body + ["end"]
    if k == 10: return ["foreach(ents,function(%s)" % r.choice(IDS)] + body + ["end)"]
    if k == 11: return ["if (%s) %s" % (expr(r), r.choice(BUILT))]
    return ["do"] + body + ["end"]

def lua(r, n=None):
    """Valid Lua source (ascii)"""
    n = r.choice((1, 3, 8, 20, 40)) if n is None else n
    out = []
    while len(out) < n: out += stat(r)
    return "\n".join(out)

def safe_lines(s):
    """No line that a p8 file or the preprocessor would take as something else"""
    out = []
    for l in s.split("\n"):
        if l.startswith("__") or l.lstrip().startswith("#"): l = "x" + l
        out.append(l)
    return "\n".join(out)

ALLCH = [chr(i) for i in range(1, 256) if i != 13]
def noise(r, n=None):
    n = r.choice((1, 5, 60, 400, 2000)) if n is None else n
    alpha = r.choice((ALLCH, ALLCH[-130:], [chr(i) for i in range(32, 127)], list("ab\n"), [chr(i) for i in range(1, 32) if i != 13] + list("ab")))
    return safe_lines("".join(r.choice(alpha) for _ in range(n)))

def repetitive(r, n=None):
    n = r.choice((50, 700, 5000)) if n is None else n
    words = [noise(r, r.choice((1, 2, 3, 4, 10, 40, 100))) for _ in range(r.randint(1, 6))]
    out = ""
    while len(out) < n:
        out += r.choice(words)
        if r.random() < 0.1: out += r.choice(ALLCH)
        if r.random() < 0.05 and out:
            a = r.randrange(len(out)); out += out[a:a + r.choice((3, 8, 17, 60, 400))]
    return safe_lines(out[:n])

def blocks(r):
    """Incompressible stretches among and inside repeated ones (literal blocks and matches meeting in every way)"""
    al = r.choice((ALLCH, ALLCH[-130:], [chr(i) for i in range(33, 127)]))
    pieces = ["".join(r.choice(al) for _ in range(r.choice((20, 33, 40, 64, 100, 300)))) for _ in range(r.randint(1, 4))]
    pieces += [lua(r, 3) for _ in range(2)] + ["".join(r.choice("ab \n") for _ in range(r.choice((5, 30)))) for _ in range(2)]
    out = ""
    for _ in range(r.choice((6, 15, 40))):
        k = r.randrange(4)
        if k == 0 and out:
            a = r.randrange(len(out)); out += out[a:a + r.choice((10, 40, 80, 200, 1000))]
        elif k == 1: out += "".join(r.choice(al) for _ in range(r.choice((1, 5, 32, 35, 70))))
        else: out += r.choice(pieces)
        if len(out) > 12000: break
    return safe_lines(out)

def code(r, kind=None):
    kind = kind or r.choice(("lua", "lua", "lua", "noise", "rep", "rep", "empty", "long", "blocks", "blocks"))
    if kind == "blocks": return blocks(r)
    if kind == "lua": return lua(r)
    if kind == "noise": return noise(r)
    if kind == "rep": return repetitive(r)
    if kind == "empty": return ""
    if kind == "long":   # near the limits of raw storage
        n = r.choice((0x3cfe, 0x3cff, 0x3d00, 0x3d01, 0x3f00, 0x4800, 20000))
        s = lua(r, 60)
        while len(s) < n: s += "\n" + "\n".join(stat(r))
        return safe_lines(s[:n])
    raise ValueError(kind)

def rom(r):
    d = ref8.empty_rom()
    for n, (a, b) in ref8.Cart.SECT.items():
        k = r.randrange(6)
        if k <= 1: continue
        if k == 2:
            for _ in range(r.choice((1, 3, 20))): d[r.randrange(a, b)] = r.randrange(256)
        elif k == 3: d[a:b] = bytes(r.getrandbits(8) for _ in range(b - a))
        elif k == 4: d[b - 1] = r.randrange(256); d[a] = r.randrange(256)
        else:
            p = bytes(r.getrandbits(8) for _ in range(r.choice((1, 2, 64, 68)))); n2 = r.randrange(1, b - a)
            d[a:a + n2] = (p * (n2 // len(p) + 1))[:n2]
    return d

def label(r):
    k = r.randrange(5)
    if k <= 1: return None
    l = bytearray(128 * 128)
    if k == 2:
        for _ in range(r.choice((1, 5, 100))): l[r.randrange(len(l))] = r.randrange(32)
    elif k == 3: l[:] = bytes(r.randrange(32) for _ in range(len(l)))
    else: l[:] = bytes((i // 128 // 8 + i % 128 // 8) % 32 for i in range(len(l)))
    return l if any(l) else None

def meta(r):
    out = {}
    for _ in range(r.choice((0, 0, 0, 1, 2))):
        out[r.choice(("author", "notes", "a.b", "x y", "v2"))] = [
            "".join(r.choice("abc =:0123 \u00e9\u2026") for _ in range(r.randrange(1, 30))) for _ in range(r.randint(1, 4))]
    return out

VERSIONS = sorted(ref8.TUPLES)
def cart(r, kind=None, rich=True):
    return ref8.Cart(code(r, kind), rom(r) if rich else None, label(r) if rich else None, meta(r) if rich else None, r.choice(VERSIONS))

def small(r, kind="lua"):
    """A small valid cart for scenarios that are not about cart contents"""
    c = ref8.Cart(lua(r, r.choice((2, 5, 10))) if kind == "lua" else code(r, kind), None, None, None, 42)
    for _ in range(3): c.rom[r.randrange(0x4300)] = r.randrange(256)
    if r.random() < 0.3: c.label = label(r)
    return c

EXT = {"p8": ".p8", "png": ".p8.png", "rom": ".rom", "lua": ".lua", "clip": ".clip", "url": ".url", "js": ".js", "pod": ".pod", "tiny-rom": ".tiny", "code": ".code"}
NEEDS_F = {"tiny-rom", "code"}

def encode(c, fmt, r, name="cart.p8", others=()):
    """-> bytes, or None if the cart does not fit"""
    if fmt == "p8": return ref8.write_p8(c)
    if fmt == "lua": return (ref8.to_unicode(c.code)).encode("utf-8", "surrogateescape")
    if fmt == "png": return ref8.encode_png(c, r)
    if fmt == "clip":
        d = ref8.encode_png(c, r); return d and b"[cart]" + d.hex().encode() + b"[/cart]"
    if fmt == "rom": return ref8.encode_rom(c, r)
    if fmt == "tiny-rom": return ref8.encode_code(c.code, r)
    if fmt == "url": return ref8.encode_url(c, r)
    if fmt in ("js", "pod"):
        carts = [(name, c)] + list(others)
        enc = [(n, ref8.encode_rom(x, r)) for n, x in carts]
        if any(e is None for _, e in enc): return None
        if fmt == "js": return ref8.encode_js(enc, pre=r.choice(("", "// page\n")), post="var p8_other = [1,2,3];\nfileData0.push.apply(fileData0, [%s]);\n" % ",".join(map(str, ref8.pod_pack([]))))
        ents = [ref8.pod_file("", ref8.write_p8(ref8.Cart("-- boot"))), ref8.pod_file("", ref8.pod_pack([ref8.pod_bmp(8, 8, 8, bytes(64))])), ref8.pod_file("", ref8.pod_pack([]))]
        ents += [ref8.pod_file(n, e, compress=r.random() < 0.3) for n, e in enc]
        return ref8.pod_pack(ents)
    raise ValueError(fmt)

_dats = {}
def dat_entries(seed=0):
    """(name, bytes) of everything an export copies out of pico8.dat"""
    dat(seed); return _dats[seed][1]

def dat(seed=0):
    if seed in _dats: return _dats[seed][0]
    r = random.Random("dat/%s" % seed)
    rb = lambda n: bytes(r.randrange(256) for _ in range(n))
    gfx1 = ref8.pod_pack([ref8.pod_pal(r)] + [ref8.pod_bmp(16, 16, 8, rb(256), i % 2 == 0) for i in range(3)] +
                         [ref8.pod_bmp(128, 128, 8, rb(128) * 128, True), ref8.pod_bmp(8, 8, 32, rb(256)), ref8.pod_bmp(128, 128, 32, bytes(128 * 128 * 4), True)], "gfx1")
    fp8 = ref8.pod_pack([ref8.pod_bmp(64, 32, 8, rb(64 * 32), True)], "f_pico8")
    js = "// pico8 player\nvar Module;\n" + "".join("function f%d(a){return a+%d;}\n" % (i, r.randrange(1000)) for i in range(10)) + \
        "fileData0.push.apply(fileData0, [%s]);\n" % ",".join(map(str, ref8.pod_pack([ref8.pod_file("", b"-- b"), ref8.pod_file("", ref8.pod_pack([])), ref8.pod_file("", ref8.pod_pack([]))])))
    html = [("src/pico8.js", js.encode()), ("src/pico8_wasm.js", (js + "load('pico8_wasm.wasm');\n" * 2).encode()), ("src/pico8_wasm.wasm", b"\0asm" + rb(400)),
            ("src/shell.html", b"<html><head></head><body>##js_file## ##label_file##</body>##js_file##</html>\n")]
    plist = b"<?xml version=\"1.0\"?><plist><key>CFBundleExecutable</key><string>%s</string><key>id</key><string>%s.%s</string></plist>"
    fw = ref8.pod_pack([ref8.pod_file("./Resources", b""), ref8.pod_file("./Resources/Info.plist", b"<plist>" + rb(30)), ref8.pod_file("./SDL2", rb(200), True, r),
                        ref8.pod_file("./_CodeSignature", b""), ref8.pod_file("./_CodeSignature/CodeResources", rb(20)), ref8.pod_file("", b"junk")])
    exe = make_exe(r) + rb(64) + b"\0" + plist + b"\0" + rb(64)
    bins = [("bin/pico8.exe", exe), ("bin/SDL2.dll", rb(300)), ("bin/pico8_dyn.amd64", rb(500)), ("builds/pi_builds/pico8_player", rb(100)),
            ("builds/pi_builds/pico8_player_64", rb(120)), ("builds/osx_builds/pico8.icns", b"icns" + rb(50)), ("builds/osx_builds/pico8_player", rb(150)),
            ("builds/osx_builds/sdl2_framework.pod", fw)]
    boot = ref8.Cart("-- boot cart\nfunction _init() load_cart() end", None, None, None, 41)
    ent = lambda l: [ref8.pod_file(n, b, i % 3 == 1, r) for i, (n, b) in enumerate(l)]
    d = ref8.pod_pack([ref8.pod_file("pod/pico8_boot.p8", ref8.write_p8(boot)), ref8.pod_file("pod/gfx1.pod", gfx1), ref8.pod_file("pod/f_pico8.pod", fp8, True, r),
                       ref8.pod_file("pod/f_html5.pod", ref8.pod_pack(ent(html))), ref8.pod_file("pod/f_bin.pod", ref8.pod_pack(ent(bins)))], "main")
    _dats[seed] = d, dict(html=html, bins=bins, js=js, exe=exe, fw=fw, boot=boot, gfx1=gfx1, fp8=fp8, plist=plist)
    return d

def make_exe(r):
    """A PE skeleton with one icon, the way the exporter expects it"""
    base = 0x80; opt = 0xf0
    exe = bytearray(0x400)
    exe[0:2] = b"MZ"; exe[0x3c:0x40] = struct.pack("<I", base)
    exe[base:base + 4] = b"PE\0\0"
    exe[base + 4:base + 24] = struct.pack("<HHIIIHH", 0x8664, 1, 0, 0, 0, opt, 0)
    o = base + 24
    exe[o:o + 2] = struct.pack("<H", 0x20b)
    exe[o + 128:o + 132] = struct.pack("<I", 0x3000)
    s = o + opt
    exe[s:s + 8] = b".rsrc\0\0\0"; exe[s + 8:s + 24] = struct.pack("<IIII", 0x11000, 0x3000, 0x11000, 0x400)
    rs = bytearray(0x100)
    def d(at, idx, off): rs[at:at + 16] = struct.pack("<IIIHH", 0, 0, 0, 0, 1); rs[at + 16:at + 24] = struct.pack("<II", idx, off)
    d(0, 3, 0x80000020); d(0x20, 1, 0x80000040); d(0x40, 0x409, 0x60)
    rs[0x60:0x68] = struct.pack("<II", 0x3100, 0x10828)
    return bytes(exe + rs + bytes(0x10828) + bytes(0x10))
