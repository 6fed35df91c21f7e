"""C13: damaged input always ends in bounded work"""
import re, struct
from .. import frame, gen8, gen64, genc, plan, ref8, ref64
from ..frame import Viol, argv_of
from . import common

W = genc.W
# work is counted in backward jumps and calls of Python code; what a run may use grows with the size of what it reads
import os
BASE, PER_BYTE = int(os.environ.get("C13B", 6_000_000)), int(os.environ.get("C13P", 1500))
MEM = 800 << 20

def limit(size): return BASE + PER_BYTE * size

# ---- damage ----
NASTY = [b"[[", b"--[[", b"]]", b"[=[", b"\"", b"'", b"\\", b"(", b")", b"{", b"}", b"(((((((((((((((", b"function", b"end", b"if", b"then", b"else", b"elseif", b"repeat", b"until", b"for", b"in", b"while", b"do", b"goto", b"::", b"local", b"return",
         b"break", b"=", b"+=", b"..", b"...", b".", b":", b",", b";", b"#", b"~", b"^", b"^^", b">>>", b"<<>", b">><", b"!=", b"\\", b"%", b"@", b"$", b"?", b"-", b"--", b"//", b"not", b"and", b"or", b"nil", b"0x", b"0b", b"1e", b"0x.", b"1..2", b"9" * 40, b"0x" + b"f" * 30,
         b"\n", b"\r\n", b"\r", b"\0", b"\x01", b"\xff", b"\xc3", b"\xe2\x80\xa6", b"\n#include in.p8\n", b"\n#include in.lua\n", b"\n__gfx__\n", b"\n__lua__\n", b"\n__meta:x__\n", b"\n__label__\n", b"\n__map__\n", b"\n__sfx__\n", b"pico-8 cartridge", b"version -1", b"version 99999999999",
         b"\n:: ", b"\n:: main.lua\n", b"\n:: [eoc]\n", b"b64$", b"--[[pod]]", b"--[[pod_format=\"raw\"]]", b"userdata(\"u8\",99999999,99999999,\"00\")", b"userdata(\"f64\",3,1,\"1e999,0x,nan\")", b"userdata()", b"pxu\0", b"lz4\0", b"b64:", b"unpod(\"b64:\")", b"1e999999", b"-", b"1e-999999", b"\\x", b"\\z", b"\\u{110000}",
         b"\\999", b"x=\"ab\\z", b"x='\\z\n", b"\"\\x", b"'\\", b"\"\\\n", b"\"\\u{", b"'\\12", b"x=[[", b"x=[===[", b"--[==[", b"--[[$", b"?\"", b"--lint:", b"--preserve:", b"--[[const]]", b"--[[global]]", b"--keep:", b"--$", b"?c=", b"&g=", b"[cart]", b"[/cart]", b"[gfx]", b"fileData0", b"var _cartdat=[", b"`", b"<", b"p64cart_str=\"", b"0,", b"[", b"-1,", b"99999999999999999999,", b"\x00pxa", b":c:\x00", b"\xff" * 12, b"\0" * 12]
INTS = (0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0x01000000, 0x00ffffff)

def damage(r, d, others):
    """One change to the bytes"""
    k = r.choice((r.randrange(22), r.randrange(22), 7 if len(d) < 40000 and d[:1].isalnum() else 1)); n = len(d)
    at = lambda: r.choice((r.randrange(n + 1), r.randrange(min(n, 64) + 1), n - r.randrange(min(n, 64) + 1)))
    if n == 0 or k == 0:
        return r.choice((b"", bytes(r.randrange(256) for _ in range(r.choice((1, 4, 8, 60, 500)))), r.choice(NASTY), b"\0" * 100, b"\xff" * 300, r.choice(others)))
    a = at()
    if k in (1, 2):
        b = bytearray(d)
        for _ in range(r.choice((1, 1, 2, 5, 40))): b[r.randrange(n)] ^= 1 << r.randrange(8)
        return bytes(b)
    if k == 3: return d[:a]
    if k == 4: return d[a:]
    if k == 5:
        w = r.choice((1, 2, 4, 20, 300)); b = min(n, a + w); return d[:a] + d[b:]
    if k == 6:
        w = r.choice((1, 2, 4, 20, 300, 3000)); return d[:a] + d[a:a + w] * r.choice((2, 3, 20)) + d[a + w:]
    if k in (7, 8, 9, 10):
        if b"\n" in d and r.random() < 0.6:      # between tokens or lines
            a = r.choice([m.start() for m in re.finditer(rb"\n|\b", d[:40000])])
        if r.random() < 0.3: return d[:a] + r.choice(NASTY)     # ... and nothing after it
        return d[:a] + r.choice(NASTY) + d[a:]
    if k == 11:
        x = r.choice(NASTY); return d[:a] + x + d[a + len(x):]
    if k in (12, 13):
        w, v = r.choice((("<H", 2), ("<I", 4), (">I", 4), ("<I", 4))); v2 = r.choice(INTS); b = struct.pack(w, v2 & (1 << 8 * v) - 1)
        if r.random() < 0.5:    # where a length probably is
            m = list(re.finditer(rb"pxa|:c:\0|lz4\0|pxu\0|CPOD|CFIL|CBMP|CPAL|MZ|PE\0\0|\0\0\0", d[:200000]))
            if m: a = r.choice(m).end() + r.choice((0, 0, 0, 2, 4, 8))
        return d[:a] + b + d[a + v:]
    if k == 14: return d[:a] + r.choice(NASTY) * r.choice((30, 300, 3000)) + (d[a:] if r.random() < 0.7 else b"")
    if k == 15:
        o = r.choice(others) or b"x"; i = r.randrange(len(o)); w = r.choice((10, 300, 20000)); return d[:a] + o[i:i + w] + d[a:]
    if k == 16: return d[:a] + r.choice(others)
    if k == 17:
        lines = d.split(b"\n"); i = r.randrange(len(lines)); j = r.randrange(len(lines)); lines[i], lines[j] = lines[j], lines[i]; return b"\n".join(lines)
    if k == 18:
        lines = d.split(b"\n"); del lines[r.randrange(len(lines))]; return b"\n".join(lines)
    if k == 19:     # numbers written out
        ms = list(re.finditer(rb"\d+", d[:300000]))
        if not ms: return d + b"9"
        m = r.choice(ms); return d[:m.start()] + r.choice((b"-1", b"0", b"256", b"65536", b"99999999999999999999", b"1e400", b"", b"0x", b"1_0", b"4294967295")) + d[m.end():]
    if k == 20:
        w = r.choice((4, 30, 400)); return d[:a] + bytes((r.choice((0, 0xff, 0x55, 0x20, 0x0a, 0x28, 0x5b)),)) * w + d[a + w:]
    toks = re.findall(rb"\w+|\s+|.", d[:60000], re.S); i = r.randrange(len(toks)); j = min(len(toks), i + r.randrange(1, 30))
    return b"".join(toks[:i] + toks[i:j] * r.choice((0, 2, 5)) + toks[j:]) + d[60000:]

def crafted(r, name):
    """Files that are wrong on purpose"""
    k = r.randrange(14)
    bits = lambda n: bytes(r.choice((lambda: r.randrange(256), lambda: 255, lambda: 0))() for _ in range(n))
    body = r.choice((lambda: bits(r.choice((10, 300, 15000))), lambda: b"\xff" * r.choice((10, 3000, 15000)), lambda: b"\0" * 3000, lambda: bytes(r.choice((255, 254, 127, 0)) for _ in range(4000))))()
    h = r.choice((b"\0pxa", b"\0pxa", b":c:\0")); code = h + struct.pack(">HH", r.choice((0, 1, 100, 0x7fff, 0xffff)), r.choice((0, 8, len(body) + 8 & 0xffff, 0xffff))) + body
    if k == 0: return code
    if k == 1: return bytes(0x4300) + code[:0x3d00].ljust(0x3d00, b"\0")
    if k == 2:
        return b"--[[pod]]" + r.choice((b"lz4\0" + struct.pack("<II", r.choice(INTS), r.choice(INTS)) + body[:r.choice((0, 3, 50, 4000))],
                                        b"pxu\0" + struct.pack("<H", r.choice((0x1043, 0x2043, 0x2843, 0x8843, 0x804c, 0x884c, 0x203, 0xf3, r.randrange(65536)))) + r.choice((b"\x10\x10", struct.pack("<II", r.choice(INTS), r.choice(INTS)))) + bytes((r.choice((0, 4, 7, 8, 9, 20, 31, 63, 200, 255)),)) + body[:r.choice((2, 50, 4000))],
                                        b"{" * r.choice((10, 900, 5000)), b"{" + b"1," * 3000, b"\"" + b"\\" * 3001, b"{[{[{[", b"-" * 3000, b"[[" * 300, b"b64:" + b"A" * 300, b"{a=" * 200 + b"1" + b"}" * 200))
    if k == 3: return b"pico-8 cartridge // http://www.pico-8.com\nversion 41\n__lua__\n" + nest(r)
    if k == 4: return nest(r)
    if k == 5: return b"pico-8 cartridge // http://www.pico-8.com\nversion 41\n" + b"".join(r.choice((b"__gfx__\n", b"__lua__\n", b"__map__\n", b"__label__\n", b"__sfx__\n", b"__music__\n", b"__gff__\n", b"__meta:a__\n", b"__zzz__\n")) + bytes(r.choice(b"0123456789abcdefg\n ") for _ in range(r.choice((0, 5, 3000)))) + b"\n" for _ in range(r.choice((1, 3, 30))))
    if k == 6: return ref8.pod_pack([ref8.pod_file("a" * r.choice((0, 1, 300)), body, r.random() < 0.5, r) for _ in range(r.choice((1, 3, 30)))])[:r.choice((10, 100, 10000, 100000))]
    if k == 7: return b"picotron cartridge\nversion 2\n\n" + b"".join(b":: %s\n%s\n" % (r.choice((b"main.lua", b"a/", b"a/b", b"../x", b"", b"main.lua/x", b"[eoc]", b"/", b"a//b")), r.choice((nest(r)[:3000], b"b64$" + b"A" * 50, b"--[[pod]]{1,", b""))) for _ in range(r.choice((1, 4, 40))))
    if k == 8:
        o = r.choice(INTS); return b"p64" + bits(4) + struct.pack("<III", o, r.choice(INTS), r.choice(INTS)) + body
    if k == 9: return b"https://www.pico-8-edu.com/?c=" + bytes(r.choice(b"ABCDwxyz0189-_=&") for _ in range(r.choice((3, 100, 20000)))) + b"&g=" + bytes(r.choice(b"0123abw#z") for _ in range(r.choice((0, 8, 3000))))
    if k in (12, 13): return opened(r)
    if k == 10: return r.choice((b"[cart]", b"[gfx]8080")) + (b"%02x" % r.randrange(256)) * r.choice((1, 100, 20000)) + r.choice((b"[/cart]", b"[/gfx]", b""))
    return b"\n".join((b"#include " + r.choice((name, b"in.p8", b"in.lua", b".", b"..", b"/", b"nothere", b"in.p8:1", b"in.p8:99999", name + b":0"))) for _ in range(r.choice((1, 2, 5))))

OPEN = (b"x=\"ab", b"x='", b"'\\n", b"f\"", b"x=[[", b"[==[", b"[=", b"--[[", b"--[=[", b"--", b"//", b"--[[$", b"--$", b"--lint:", b"--preserve:", b"?\"", b"0x", b"0b", b"1.", b"1e", b"#", b"#include", b"::", b"goto", b"{", b"a[", b"f(", b"if a then", b"if (a)", b"while (a)", b"function f(", b"local", b"for i", b"\"a\"..", b"-", b"a.", b"a:")
ENDS = (b"", b"\\", b"\\z", b"\\z ", b"\\z\n\n", b"\\x", b"\\x1", b"\\1", b"\\u", b"\\u{", b"\\u{1", b"\\\n", b"\n", b" ", b"\t", b"\0", b"]", b"]=", b"=", b"[", b"-", b".", b"\xff", b"'", b"1", b"a")
def opened(r):
    """Code that ends in the middle of something"""
    return r.choice((b"", b"pico-8 cartridge // http://www.pico-8.com\nversion 41\n__lua__\n", b"picotron cartridge\nversion 2\n\n:: main.lua\n", b"")) + (gen8.lua(r, 1).encode() + b"\n" if r.random() < 0.5 else b"") + r.choice(OPEN) + r.choice(ENDS) + r.choice(ENDS) + r.choice((b"", b"", b"", b"\n:: [eoc]\n"))

def nest(r):
    if r.random() < 0.25: return opened(r)
    o = r.choice((b"(", b"{", b"x=(", b"f(", b"if a then ", b"do ", b"function() ", b"while a do ", b"repeat ", b"x=function() return ", b"a[", b"not ", b"- ", b"#", b"a..", b"a^", b"1+(", b"a.", b"a:b(", b"::a::", b"goto a ", b"local a=", b"for a=1,2 do ", b"if (a) ", b"if(a)if(b)", b"{{},", b"\"a\"..", b"a and ", b"?", b"a={a=", b"elseif a then ", b"[[a", b"--[[", b"[=[", b"a,"))
    n = r.choice((3, 60, 400, 3000)); c = r.choice((b"", b")", b"}", b" end", b"]", b" until a", b"a"))
    return gen8.lua(r, 2).encode() + b"\n" + o * n + r.choice((b"", b"1", b"a")) + c * r.choice((0, n, n, n - 1, n + 1)) + b"\n" + gen8.lua(r, 2).encode()

def rom_of(d, path):
    """The 32k of a stored cart, or None"""
    try:
        if d[:8] == b"\x89PNG\r\n\x1a\n":
            w, h, px = ref8.png_pixels(d)
            if (w, h) == (160, 205): return bytes((px[4 * i] & 3) << 4 | (px[4 * i + 1] & 3) << 2 | px[4 * i + 2] & 3 | (px[4 * i + 3] & 3) << 6 for i in range(0x8000))
        if path.endswith(".rom") and len(d) >= 0x8000: return d[:0x8000]
        if path.endswith(".clip"): return rom_of(bytes.fromhex(d.decode()[6:-7]), "x.png")
    except (ref8.Bad, ValueError): pass
    return None

def png_of(rom):
    c = ref8.Cart(""); c.version = 42
    data = bytearray(rom + ref8.trailer(c, rom)).ljust(160 * 205, b"\0"); px = bytearray((0x80, 0x60, 0x40, 0xff) * (160 * 205))
    for i, b in enumerate(data):
        px[4 * i] |= b >> 4 & 3; px[4 * i + 1] |= b >> 2 & 3; px[4 * i + 2] |= b & 3; px[4 * i + 3] |= b >> 6 & 3
    return ref8.png_write(160, 205, bytes(px))

def inside(r, d, path, pool):
    """Damage inside an otherwise intact container (hashes, compression and checksums fit) -> bytes or None"""
    ext = path.rsplit(".", 1)[-1]
    def code(old):
        x = r.random()
        if x < 0.4:
            c = crafted(r, b"x") if r.random() < 0.3 else b""
            if c[:4] in (b"\0pxa", b":c:\0"): return c
            body = bytes(r.choice((255, 254, 127, 0, r.randrange(256))) for _ in range(r.choice((10, 300, 12000)))); h = r.choice((b"\0pxa", b":c:\0"))
            return h + struct.pack("<HH" if h[0] == 58 else ">HH", r.choice((1, 100, 0x7fff, 0xffff)), r.choice((0, 8, len(body) + 8))) + body
        if x < 0.7: return nest(r)
        return damage(r, old.rstrip(b"\0"), pool)
    if path.endswith((".p64", ".p64.png")) or d[:3] == b"p64" and path.endswith(".rom"):
        try: c = ref64.read_png(d) if d[:4] == b"\x89PNG" else ref64.read_rom(d, False) if d[:3] == b"p64" else ref64.read_p64(d)
        except (ref8.Bad, ValueError, IndexError, KeyError, TypeError, struct.error): return None
        for _ in range(r.choice((1, 1, 2))):
            q = r.choice([p for p in c if not p.endswith("/")] + ["new.pod", ".info.pod", "main.lua", "label.png"]); old = c.get(q) or b""
            x = r.random(); c = dict(c)
            if q.endswith(".lua") and x < 0.6: c[q] = nest(r)
            elif x < 0.75: c[q] = podlike(r)
            else: c[q] = damage(r, old, pool)[:60000]
        if r.random() < 0.2: c[r.choice(("a" * 300, "x//y", "/", "../z", "main.lua/sub", "\x01"))] = b"1"
        return gen64.encode(c, "png" if d[:4] == b"\x89PNG" else "rom" if d[:3] == b"p64" else "p64", r)
    rom = rom_of(d, path)
    if rom:
        n = bytearray(rom)
        if r.random() < 0.15: n[:0x4300] = damage(r, rom[:0x4300], pool)[:0x4300].ljust(0x4300, b"\0")
        else: n[0x4300:] = code(rom[0x4300:])[:0x3d00].ljust(0x3d00, b"\0")
        n = bytes(n)
        return n if ext == "rom" else b"[cart]" + png_of(n).hex().encode() + b"[/cart]" if ext == "clip" else png_of(n)
    if ext == "url" and b"?c=" in d:
        import base64
        return b"https://www.pico-8-edu.com/?c=" + base64.b64encode(code(b"x=1\ny=2"), b"_-") + r.choice((b"", b"&g=" + b"w" * 300))
    if ext == "tiny": return code(d)
    if ext == "js" and b"_cartdat" in d:
        try: cs = ref8.decode_js(d)
        except (ref8.Bad, ValueError, AttributeError): return None
        return ref8.encode_js([(m, x[:0x4300] + code(x[0x4300:])[:0x3d00].ljust(0x3d00, b"\0")) for m, x in cs])
    if ext == "pod":
        return ref8.pod_pack([ref8.pod_file("", b"x"), ref8.pod_file(r.choice(("one.p8", "", "a" * 63)), bytes(0x4300) + code(b"x=1")[:0x3d00].ljust(0x3d00, b"\0"), r.random() < 0.5, r), r.choice((lambda: ref8.pod_bmp(r.choice(INTS) & 0xffff, 8, r.choice((8, 32, 7)), bytes(64)), lambda: ref8.pod_file("x", bytes(3000), True, r)))()])
    return None

def podlike(r):
    body = bytes(r.choice((255, 254, 127, 0, 0x30, 0x31, r.randrange(256))) for _ in range(r.choice((2, 50, 400, 4000))))
    lz = lambda d: (lambda c: b"lz4\0" + struct.pack("<II", r.choice((len(c), len(c), len(c) + 5, r.choice(INTS))), r.choice((len(d), len(d), r.choice(INTS)))) + c)(ref8.lz4_encode(d, r))
    pxu = lambda: b"pxu\0" + struct.pack("<H", r.choice((0x1043, 0x2043, 0x2843, 0x8843, 0x804c, 0x884c, 0x203, 0xf3, 0x2003, 0x8003, r.randrange(65536)))) + r.choice((b"\x10\x10", b"\x10", struct.pack("<II", r.choice(INTS), r.choice(INTS)))) + bytes((r.choice((0, 4, 4, 7, 8, 9, 20, 24, 31, 63, 200, 255)),)) + body
    x = r.choice((pxu, pxu, lambda: b"lz4\0" + struct.pack("<II", r.choice(INTS), r.choice(INTS)) + body, lambda: lz(pxu()), lambda: lz(ref64.encode_pod(gen64.pod_value(r), r, "text") + body[:50]), lambda: lz(b"{" * r.choice((3, 900)) + b"}"),
                  lambda: b"{" * r.choice((10, 900, 5000)), lambda: b"{" + b"1," * 3000, lambda: b"\"" + b"\\" * 3001, lambda: b"-" * 3000, lambda: b"{a=" * 200 + b"1" + b"}" * 200, lambda: ref64.encode_pod(gen64.pod_value(r), r),
                  lambda: b"userdata(\"%s\",%d,%d,\"%s\")" % (r.choice((b"u8", b"i16", b"i32", b"f64", b"u9", b"i64")), r.choice(INTS), r.choice(INTS), r.choice((b"00", b"", b"zz", b"1,2", b"ff" * 300))), lambda: b"1" + b"0" * r.choice((5, 400, 5000)), lambda: b"1e%d" % r.choice((3, 400, 99999)), lambda: b"0x" + b"f" * 5000))()
    if r.random() < 0.2:
        import base64
        x = b"b64:" + base64.b64encode(x)
    m = r.choice((b"--[[pod]]", b"--[[pod]]", b"--[[pod_format=\"table\"]]", b"--[[pod,created=\"x\",runtime=%d]]" % r.choice((5, 21)), b"", b"--[[pod_type=\"image\"]]", b"--[[pod," + podlike(r)[:60] + b"]]" if r.random() < 0.5 else b"--[[pod,icon=userdata(\"u8\",16,16,\"00\")]]"))
    return (m + x)[:20000]

OPTS8 = (["-m"], ["-m"], ["-M"], ["-U"], ["-l"], ["-c"], ["-c", "-m"], ["-m", "-oc"], ["-m", "-ob"], ["--input-count"], ["--keep-compression"], ["-m", "--rename-map", "map.txt"], ["--list-includes"], ["--no-preprocess"], ["--bypass-errors"] )
OPTS64 = (["-m"], ["-M"], ["-U"], ["-l"], ["-c"], ["-u"], ["--keep-pod-compression"], ["--list"], ["--delete-meta", "*"])

def code_spec(r):
    """Code that ends in the middle of something, in any place code comes from, going through everything that reads it"""
    tool = r.choice(("shrinko8", "shrinko8", "shrinkotron")); p64 = tool == "shrinkotron"
    d = opened(r); ext = ".p64" if d[:9] == b"picotron " else r.choice((".p8", ".lua", ".lua"))
    files = {W + "in" + ext: d}; opts = [["in" + ext], [r.choice(("res.p64", "res.rom")) if p64 else r.choice(("res.p8", "res.rom", "res.lua"))]]
    if not p64 and ext == ".lua" and r.random() < 0.3: files[W + "main.p8"] = b"x=1\n#include in.lua\ny=2"; opts[0] = ["main.p8"]
    if p64 and r.random() < 0.2:
        files = {W + "cart/main.lua": b"x=1", W + "cart/a.pod": r.choice((b"--[[pod", b"--[[pod]]", b"--[[pod,a=", b"")) + opened(r)}; opts[0] = ["cart"]
    opts.append(list(r.choice(([ "-m"], ["-M"], ["-U"], ["-l"], ["-c"], ["-m", "-U"], ["-m", "-oc"], ["--minify-consts-only"]))))
    c = genc.Cmd(); c.files, c.tool, c.opts, c.kind, c.inputs = files, tool, opts, "code", sorted(files)
    return dict(c.spec(), sub={})

def gen(r, ctx, i):
    if r.random() < 0.12: return code_spec(r)
    c = genc.command(r, p64=0.4)
    if c.kind == "url" or not c.inputs and not c.stdin: c = genc.pico8(r, ("convert", "multi", "merge", "label", "edit", "dump"))
    if r.random() < 0.4:
        o = list(r.choice(OPTS8 if c.tool == "shrinko8" else OPTS64))
        if o[0] not in sum(c.opts, []): c.opts.append(o)
    s = c.spec()
    names = sorted(p for p in c.files if isinstance(c.files[p], bytes) and (p in c.inputs or not p.startswith(tuple(c.outs)) if c.outs else True))
    names = [p for p in names if p in c.inputs or any(frame.under(p, q) for q in c.inputs)] or names
    if r.random() < 0.7: names = [p for p in names if not p.endswith("pico8.dat")] or names
    pool = [c.files[p] for p in names] + [c.stdin] + [gen8.dat(0)[:5000], gen64.dat(0)[:5000]]
    n = r.choice((1, 1, 1, 2))
    if c.stdin and (not names or r.random() < 0.8):
        d = c.stdin
        if r.random() < 0.2: d = crafted(r, b"-")
        for _ in range(r.choice((0, 1, 1, 2, 4))): d = damage(r, d, pool)
        s["cmd"]["stdin"] = d[:300000]
    else:
        for p in r.sample(names, min(len(names), n)):
            d = s["files"][p]
            x = r.random(); e = inside(r, d, p, pool) if x < 0.4 else podlike(r) if x < 0.6 and c.tool == "shrinkotron" and "/" in p[len(W):] else None
            if e is not None:
                s["files"] = dict(s["files"], **{p: e[:400000]}); continue
            if r.random() < 0.25 and len(d) < 200000: d = crafted(r, p.rsplit("/", 1)[1].encode())
            for _ in range(r.choice((0, 1, 1, 1, 2, 4)) if d is not s["files"][p] else r.choice((1, 1, 2, 4))): d = damage(r, d, pool)
            if d[:8] == b"\x89PNG\r\n\x1a\n" and r.random() < 0.7:  d = repng(r, s["files"][p])
            s["files"] = dict(s["files"], **{p: d[:400000]})
    s["sub"] = {}
    if r.random() < 0.15: s["sub"] = {"eof": r.randrange(60)}
    elif r.random() < 0.2: s["sub"] = {"knobs": {"read_chunk": "random"}}
    return s

def repng(r, d):
    """A png whose picture is fine, but whose contents are not"""
    try: w, h, px = ref8.png_pixels(d)
    except ref8.Bad: return d
    px = bytearray(px); k = r.randrange(5)
    if k == 0:
        for _ in range(r.choice((1, 10, 1000))): px[r.randrange(len(px))] ^= r.choice((1, 2, 3))
    if k == 1:
        a = r.randrange(len(px)); n = r.choice((4, 400, 40000)); px[a:a + n] = bytes((r.choice((0, 255, 3, 0x54)),)) * len(px[a:a + n])
    if k == 2:
        w2, h2 = r.choice(((1, 1), (160, 205), (128, 128), (480, 270), (205, 160), (1, 4000), (3000, 1), (w, h - 1), (w + 1, h), (512, 384))); px = (px * (w2 * h2 * 4 // len(px) + 1))[:w2 * h2 * 4]; w, h = w2, h2
    if k == 3: px = bytearray(bytes(px[i:i + 3]) + b"\0" for i in range(0)) or px
    if k == 4:
        hid = bytes(r.randrange(256) for _ in range(r.choice((30, 3000)))); o = r.choice((0, 0x4300, 0x8000))
        for i, b in enumerate(hid):
            j = 4 * (o + i)
            if j + 4 <= len(px): px[j] = px[j] & ~3 | b >> 4 & 3; px[j + 1] = px[j + 1] & ~3 | b >> 2 & 3; px[j + 2] = px[j + 2] & ~3 | b & 3; px[j + 3] = px[j + 3] & ~3 | b >> 6 & 3
    return ref8.png_write(w, h, bytes(px))

def execute(spec, ctx):
    k = ctx.kernel(spec)
    size = sum(len(d) for d in spec["files"].values() if isinstance(d, bytes)) + len(spec["cmd"].get("stdin") or b"")
    if spec["cmd"].get("env") is None and spec["dirs"] and "bin" in spec["dirs"].values(): pass
    sub = spec["sub"]; faults = ()
    if "eof" in sub: faults = [{"at": sub["eof"], "f": "eof"}]
    lim = limit(size)
    r = ctx.step(k, spec["cmd"], faults=faults, knobs=sub.get("knobs"), step_limit=lim, mem=MEM)
    steps = r.last.steps or 0
    ctx.probes["succeeds" if r.status == 0 else "fails"] += 1
    q = 100 * steps // lim
    ctx.probes["work_%s" % ("under_1%" if q < 1 else "1-10%" if q < 10 else "10-50%" if q < 50 else "over_50%")] += 1
    if TOP is not None: TOP.append((q, steps, size, spec["kind"], argv_of(spec["cmd"]), spec))
    if r.status == "hang": return Viol("hang", "the run of %s does not end within %d steps for %d bytes of input (%d system calls made)" % (argv_of(spec["cmd"]), lim, size, len(r.log)), spec)
    if isinstance(r.status, str): return Viol("crash", "the run of %s ends by %s" % (argv_of(spec["cmd"]), r.status), spec)
    if r.exc == "MemoryError": return Viol("memory", "the run of %s takes more than %d MB for %d bytes of input: %s" % (argv_of(spec["cmd"]), MEM >> 20, size, r.err[-300:].decode("utf-8", "replace")), spec)
    return None
TOP = None

def key(spec): return "%s/%s/%s" % (spec["tool"], spec["kind"], sorted(x for o in spec["cmd"]["opts"] for x in o if x.startswith("-")))
def shrink(spec):
    if spec["sub"]: yield dict(spec, sub={})
    yield from frame.shrink_generic(spec)
    for p, d in spec["files"].items():
        if isinstance(d, bytes) and 0 < len(d) < 100000:
            if b"\n" in d:
                for t in frame.shrink_lines(d): yield dict(spec, files=dict(spec["files"], **{p: t}))
            n = len(d); w = n // 2
            while w >= max(1, n // 32):
                for a in range(0, n, w): yield dict(spec, files=dict(spec["files"], **{p: d[:a] + d[a + w:]}))
                w //= 2
def describe(spec): return dict(common.describe_cmd(spec), sub=spec["sub"])
