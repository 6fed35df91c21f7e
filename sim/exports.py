"""What exports and cart images must hold, given what they were made from (written from the formats, not from the tool):
the carts, and every program file of pico8.dat/picotron.dat as it is, but for the places kept for name, label and icon."""
import base64, io, re, struct, zipfile
from . import gen8, ref8, ref64
from .ref8 import Bad

PAL64 = ref8.PAL[:16] + [0x2463b0, 0x00a5a1, 0x654688, 0x125359, 0x742f29, 0x452d32, 0xa28879, 0xffacc5, 0xb9003e, 0xe26b02, 0x95f042, 0x00b251, 0x64dff6, 0xbd9adf, 0xe40dab, 0xff8557]
ICON = 0x528       # where make_exe has the pixels of its icon

def first(a, b, what):
    """-> description of the difference of two byte strings, or None"""
    if a == b: return None
    i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    return "%s differs at %d of %d (should be %d long): %r instead of %r" % (what, i, len(b), len(a), b[i:i + 24], a[i:i + 24])

def bgra(rgba):
    out = bytearray(rgba); out[0::4], out[2::4] = rgba[2::4], rgba[0::4]; return bytes(out)
def flip(px, w): return b"".join(px[y * w * 4:(y + 1) * w * 4] for y in reversed(range(len(px) // (w * 4))))

def icns(data):
    """-> rgba of an icns file with a 128x128 icon"""
    if data[:4] != b"icns" or struct.unpack(">I", data[4:8])[0] != len(data): raise Bad("icns header")
    i = 8; ch = {}
    while i < len(data):
        t = data[i:i + 4]; n, = struct.unpack(">I", data[i + 4:i + 8])
        if n < 8 or i + n > len(data): raise Bad("icns chunk")
        ch[t] = data[i + 8:i + n]; i += n
    d = ch[b"it32"][4:]; out = bytearray(); i = 0
    if any(ch[b"it32"][:4]): raise Bad("it32 start")
    while i < len(d):
        c = d[i]; i += 1
        if c < 128: out += d[i:i + c + 1]; i += c + 1
        else: out += d[i:i + 1] * (c - 125); i += 1
    n = 128 * 128
    if len(out) != 3 * n or len(ch[b"t8mk"]) != n: raise Bad("icns size")
    return b"".join(bytes((out[i], out[n + i], out[2 * n + i], ch[b"t8mk"][i])) for i in range(n))

def png(rgba, data, what, w=128):
    if data is None: return what + " is missing"
    ww, h, px = ref8.png_pixels(data)
    if ww != w: return "%s is %d wide" % (what, ww)
    return first(rgba, px, "the picture of " + what)

def zipped(data, want, what):
    """want: {member: bytes, None for a directory, or a function of the bytes giving a complaint}; names in `want` ending with * have an executable file"""
    with zipfile.ZipFile(io.BytesIO(data)) as z:
        bad = z.testzip()
        if bad: return "%s: %s is damaged" % (what, bad)
        names = [i.filename for i in z.infolist()]; exp = [n.rstrip("*") for n in want]
        if sorted(names) != sorted(exp): return "%s: holds too much %r, lacks %r" % (what, sorted(set(names) - set(exp)) or sorted(n for n in names if names.count(n) > 1), sorted(set(exp) - set(names)))
        for n, w in want.items():
            i = z.getinfo(n.rstrip("*")); d = z.read(i); nm = "%s: %s" % (what, i.filename)
            if w is None:
                if d or not i.is_dir(): return nm + " is not a directory"
                if i.external_attr >> 16 & 0o111 != 0o111: return nm + " is a directory that cannot be entered"
                continue
            if n.endswith("*") and not i.external_attr >> 16 & 0o100: return nm + " is not executable"
            p = w(d) if callable(w) else first(w, d, "content")
            if p: return "%s: %s" % (nm, p)
    return None

def same_carts(want, got):
    if [n for n, _ in want] != [n for n, _ in got]: return "holds carts %r instead of %r" % ([n for n, _ in got], [n for n, _ in want])
    for (n, a), (_, b) in zip(want, got):
        d = a.diff(ref8.decode_rom(b), label=False, meta=False, version=False)
        if d: return "cart %r differs in %s" % (n, d)

def js(text, want, program):
    t = text.decode("utf-8")
    p = same_carts(want, ref8.decode_js(text))
    if p: return p
    m = re.search(r"_cartdat\s*=\s*\[[\s\d,]*\];?\n*", t)
    if not m: return "has no cart data"
    head = t[:t.index("_cartname")]
    if head.strip() != "var": return "begins with %r" % head
    return first(program, t[m.end():].encode(), "the player")

def pod(data, want, info, name, cart):
    ents = ref8.pod_parse(data)
    if [(k, n) for k, n, _ in ents] != [("file", "")] * 3 + [("file", n) for n, _ in want]: return "has entries %r" % [n for _, n, _ in ents]
    boot = ref8.parse_p8(ents[0][2]); d = info["boot"].diff(boot, label=False, meta=False, version=False)
    if d: return "the boot cart differs in %s" % d
    if cart.version is not None and boot.version != cart.version: return "the boot cart has version %s instead of %s" % (boot.version, cart.version)
    for i, src in ((1, info["gfx1"]), (2, info["fp8"])):
        b = ents[i][2]; a = [list(x) for x in ref8.pod_parse(src)]; g = ref8.pod_parse(b); what = "pod %d of data.pod" % i
        if b[12:44] != src[12:44]: return "%s is called %r" % (what, b[12:44])
        if i == 1:
            w, h, bpp, px = a[4][2]; t = name.encode("latin-1") + b"\0"
            a[4][2] = (w, h, bpp, t + px[len(t):])
            if cart.label is not None: w, h, bpp, px = a[6][2]; a[6][2] = (w, h, bpp, bgra(ref8.label_rgba(cart.label)))
        if len(a) != len(g): return "%s has %d entries instead of %d" % (what, len(g), len(a))
        for j, (x, y) in enumerate(zip(a, g)):
            if tuple(x) != tuple(y):
                if x[0] == y[0] == "bmp" and x[2][:3] == y[2][:3]: return first(x[2][3], y[2][3], "picture %d of %s" % (j, what))
                return "entry %d of %s differs" % (j, what)
    return same_carts(want, [(n, b) for _, n, b in ents[3:]])


def bundle8(tree, info, want, name, cart):
    """tree: {relative path: bytes or None} of an exported directory"""
    lab = ref8.label_rgba(cart.label) if cart.label is not None else None; bins = dict(info["bins"]); html = dict(info["html"])
    exp = {name + "_html", name + "_wasm", "%s_html/%s.html" % (name, name), "%s_html/%s.js" % (name, name)} | {"%s_wasm/%s.%s" % (name, name, x) for x in ("html", "js", "wasm")} | {name + s + ".zip" for s in ("_windows", "_linux", "_raspi", "_osx")}
    if set(tree) != exp: return "the directory holds too much %r, lacks %r" % (sorted(set(tree) - exp), sorted(exp - set(tree)))
    for d in (name + "_html", name + "_wasm"):
        t = tree["%s/%s.html" % (d, name)].decode(); a, b = html["src/shell.html"].decode().replace("##js_file##", name + ".js").split("##label_file##")
        if not t.startswith(a) or not t.endswith(b): return "%s: the page differs from the shell: %r" % (d, t[:100])
        m = t[len(a):len(t) - len(b)]
        if lab is None:
            if m: return "%s: the page has a label, but the cart has none" % d
        else:
            if not m.startswith("data:image/png;base64,"): return "%s: the page has no label" % d
            p = png(lab, base64.b64decode(m.split(",")[1]), d + ": the page's label")
            if p: return p
    p = js(tree["%s_html/%s.js" % (name, name)], want, html["src/pico8.js"])
    if p: return "html player: " + p
    p = js(tree["%s_wasm/%s.js" % (name, name)], want, html["src/pico8_wasm.js"].replace(b"pico8_wasm.wasm", name.encode() + b".wasm")) or first(html["src/pico8_wasm.wasm"], tree["%s_wasm/%s.wasm" % (name, name)], "program")
    if p: return "wasm player: " + p
    data = lambda d: pod(d, want, info, name, cart)
    exe = info["exe"]
    if lab is not None: exe = exe[:ICON] + flip(bgra(lab), 128) + exe[ICON + 0x10000:]
    pic = {} if lab is None else {"%s_linux/%s.png" % (name, name): lambda d: png(lab, d, "label")}
    pic2 = {} if lab is None else {"%s_raspi/%s.png" % (name, name): lambda d: png(lab, d, "label")}
    plist = info["plist"].replace(b"%s.%s", b"pico8_author." + name.encode()).replace(b"%s", name.encode())
    app = name + ".app/"; c = app + "Contents/"; sdl = c + "Frameworks/SDL2.framework/"
    mac = {c: None, c + "MacOS/": None, c + "Resources/": None, c + "MacOS/data.pod": data, c + "MacOS/" + name + "*": bins["builds/osx_builds/pico8_player"],
           c + "Resources/%s.icns" % name: bins["builds/osx_builds/pico8.icns"] if lab is None else lambda d: first(lab, icns(d), "icon"), c + "Info.plist": plist,
           c + "Frameworks/": None, sdl: None, sdl + "Versions/": None, sdl + "Versions/Current/": None, sdl + "Versions/A/": None}
    for k, n, b in ref8.pod_parse(info["fw"]):
        if k == "file" and n.startswith("./"):
            for d in ("", "Versions/Current/", "Versions/A/"):
                if d or "_CodeSignature" not in n: mac[sdl + d + n[2:] + ("" if b else "/")] = b or None
    z = lambda s, w: zipped(tree[name + s + ".zip"], w, name + s + ".zip")
    return z("_windows", {"%s_windows/%s.exe" % (name, name): exe, name + "_windows/data.pod": data, name + "_windows/SDL2.dll": bins["bin/SDL2.dll"]}) or \
        z("_linux", dict({name + "_linux/data.pod": data, "%s_linux/%s*" % (name, name): bins["bin/pico8_dyn.amd64"]}, **pic)) or \
        z("_raspi", dict({name + "_raspi/data.pod": data, "%s_raspi/%s*" % (name, name): bins["builds/pi_builds/pico8_player"], "%s_raspi/%s_64*" % (name, name): bins["builds/pi_builds/pico8_player_64"]}, **pic2)) or \
        z("_osx", mac)

# ---- Picotron ----
def meta64(cart, key):
    d = cart.get(".info.pod") or b""; m = re.match(rb"--\[\[pod(.*?)\]\]", d, re.S)
    m = m and re.search(rb"[,\s]" + key + rb'="([^"]*)"', m[1])
    return m[1].decode() if m else None

def icon64(cart):
    """-> rgba of the 128x128 icon, or None"""
    m = re.search(rb',icon=userdata\("u8",(\d+),(\d+),"([0-9a-f]*)"\)', cart.get(".info.pod") or b"")
    if not m: return None
    w, h = int(m[1]), int(m[2]); d = bytes.fromhex(m[3].decode()); out = bytearray()
    for y in range(128):
        for x in range(128):
            c = d[y * h // 128 * w + x * w // 128]; c = 0 if c >= len(PAL64) else c
            out += bytes((PAL64[c] >> 16, PAL64[c] >> 8 & 255, PAL64[c] & 255, 255)) if c else bytes(4)
    return bytes(out)

def label64(cart):
    for n in ("label.qoi", "label.png"):
        if cart.get(n) is not None: return ref64.label_rgb(n, cart[n])

def carts64(a, b): return ref64.cart_eq(a, b)

def sysrom(data, info, cart):
    ents = ref64.read_dat(data)
    if len(ents) != 3: return "has %d entries" % len(ents)
    if ents[0] != (meta64(cart, b"export_home") or "").encode(): return "names home %r" % ents[0]
    return first(info["entries"][2], ents[1], "the system") or carts64(cart, ref64.read_rom(ents[2]))

def page64(data, info, cart, title=None):
    t = data.decode("utf-8"); m = re.search(r'\np64cart_str="([0-9a-fA-F]*)";\nexport_home_str = "([^"]*)";\n', t)
    if not m: return "has no cart"
    p = carts64(cart, ref64.read_rom(bytes.fromhex(m[1])))
    if p: return "cart: " + p
    if m[2] != (meta64(cart, b"export_home") or ""): return "names home %r" % m[2]
    t = t[:m.start()] + t[m.end():]; html = info["html"]["shell.html"].decode()
    i = re.search(r"// ##pcart##\s+", html).end()
    want = html[:i] + info["html"]["picotron_player.js"].decode() + html[i:]
    want = want.replace("##page_title##", title or meta64(cart, b"title") or "Picotron Cartridge")
    lab = label64(cart)
    if lab is not None:
        m = re.search(r"data:image/png;base64,([A-Za-z0-9+/=]*)", t)
        if not m: return "has no label"
        w, h, px = ref8.png_pixels(base64.b64decode(m[1]))
        got = bytearray(px); del got[3::4]
        if (w, h) != (480, 270): return "has a label of %dx%d" % (w, h)
        p = first(lab, bytes(got), "label")
        if p: return p
        t = t[:m.start()] + "##label_file##" + t[m.end():]
    return first(want.encode(), t.encode(), "page")

def bundle64(tree, info, cart, name, plist, title=None):
    exp = {name + ".html"} | {name + s + ".zip" for s in ("_windows", "_linux", "_mac")}
    if set(tree) != exp: return "the directory holds too much %r, lacks %r" % (sorted(set(tree) - exp), sorted(exp - set(tree)))
    p = page64(tree[name + ".html"], info, cart, title)
    if p: return "page: " + p
    ents = info["entries"]; icon = icon64(cart); data = lambda d: sysrom(d, info, cart); exe = ents[5]
    if icon is not None: exe = exe[:ICON] + flip(bgra(icon), 128) + exe[ICON + 0x10000:]
    return None or z64(tree, name, exe, ents, data, icon, plist, info)

def z64(tree, name, exe, ents, data, icon, plist, info):
    z = lambda s, w: zipped(tree[name + s + ".zip"], w, name + s + ".zip")
    c = "%s_mac/%s.app/Contents/" % (name, name); sdl = c + "Frameworks/SDL2.framework/"
    mac = {c: None, c + "MacOS/": None, c + "Resources/": None, c + "MacOS/sysrom.dat": data, c + "MacOS/" + name + "*": ents[7], c + "Frameworks/": None, sdl: None,
           sdl + "Versions/": None, sdl + "Versions/Current/": None, sdl + "Versions/A/": None,
           c + "Info.plist": plist.replace(b"%s.%s", b"picotron_author." + name.encode()).replace(b"%s", name.encode())}
    if icon is not None: mac[c + "Resources/%s.icns" % name] = lambda d: first(icon, icns(d), "icon")
    for n, b in info["sdl"].items():
        if n.endswith(".info.pod"): continue
        for d in ("", "Versions/Current/", "Versions/A/"):
            if d or not n.startswith("_CodeSignature"): mac[sdl + d + n] = b
    pic = {} if icon is None else {"%s_linux/%s.png" % (name, name): lambda d: png(icon, d, "icon")}
    return z("_windows", {"%s_windows/%s.exe" % (name, name): exe, name + "_windows/sysrom.dat": data, name + "_windows/SDL2.dll": ents[6]}) or \
        z("_linux", dict({name + "_linux/sysrom.dat": data, "%s_linux/%s*" % (name, name): ents[4]}, **pic)) or z("_mac", mac)

# ---- Cart images: what is to be seen of them ----
_fonts = {}
def font(repo, name):
    if name not in _fonts: _fonts[name] = ref8.png_pixels(open("%s/%s.png" % (repo, name), "rb").read())
    return _fonts[name]

def title8(cart):
    out = ""
    for l in cart.code.split("\n", 2)[:2]:
        m = re.match(r"-- ?(.*)$", l)
        out += (m[1] if m else "") + "\n"
    return out.rstrip("\n")

def seen8(repo, base, cart, title):
    """base: rgba of the template; title: text or None to leave out label and title -> rgba, the lowest bits of no meaning"""
    out = bytearray(base); w = 160
    if title is None: return out
    if cart.label is not None:
        for y in range(128):
            for x in range(128):
                c = cart.label[y * 128 + x]; i = 4 * ((24 + y) * w + 16 + x)
                if c: out[i:i + 4] = bytes((PALRGB[c] >> 16, PALRGB[c] >> 8 & 255, PALRGB[c] & 255, 255))
    fw, _, f = font(repo, "font"); x = y = 0
    for ch in title:
        c = ord(ch)
        if ch == "\n":
            x = 0; y += 8
            if y >= 16: break
            continue
        n = 8 if c >= 128 else 4
        if x + n <= 124:
            for gy in range(6):
                for gx in range(n):
                    p = f[4 * ((c // 16 * 6 + gy) * fw + c % 16 * 8 + gx):][:4]
                    i = 4 * ((167 + y + gy) * w + 18 + x + gx)
                    if p[3]: out[i:i + 4] = p[:3] + b"\xff"
        x += n
    return out
PALRGB = ref8.PAL

def seen64(repo, base, cart, title):
    """title: (first line, second line) or None"""
    out = bytearray(base); w = 512
    if title is None: return out
    lab = label64(cart)
    if lab is not None:
        for y in range(270):
            for x in range(480): i = 4 * ((38 + y) * w + 16 + x); j = 3 * (y * 480 + x); out[i:i + 4] = lab[j:j + 3] + b"\xff"
    fw, fh, f = font(repo, "font64"); ink = lambda x, y: y < fh and f[4 * (y * fw + x) + 3]
    for text, oy, k in ((title[0], 330, 2), (title[1], 356, 1)):
        x = 0
        for ch in text:
            c = ord(ch); cx, cy = c % 16 * 10, c // 16 * 11; n = 0
            while ink(cx + n, cy + 9): n += 1
            if x + n * k <= 352:
                for gy in range(9 * k):
                    for gx in range(n * k):
                        if ink(cx + gx // k, cy + gy // k):
                            v = 0x90 if k == 1 else 0x80 if gy % 2 else 0xd0
                            i = 4 * ((oy + gy) * w + 80 + x + gx); out[i:i + 4] = bytes((v, v, v, 255))
            x += n * k
    return out

def looks(want, data, w, low):
    """Compare all but the lowest bits (of red, green, blue; two of alpha); blending may round by one step"""
    ww, h, px = ref8.png_pixels(data) if data[:4] == b"\x89PNG" else (0, 0, b"")
    if ww != w or len(px) != len(want): return "it is %d wide" % ww
    a = bytes(want).translate(bytes(b & ~low & 255 for b in range(256))); b = bytes(px).translate(bytes(b & ~low & 255 for b in range(256)))
    if a == b: return None
    for i in range(0, len(a), 4):
        if a[i:i + 3] != b[i:i + 3] or (want[i + 3] ^ px[i + 3]) & ~3:
            if all(abs(p - q) <= low + 1 for p, q in zip(a[i:i + 4], b[i:i + 4])) and want[i + 3] == 255: continue
            return "at %d,%d it shows %r instead of %r" % (i // 4 % w, i // 4 // w, tuple(px[i:i + 4]), tuple(want[i:i + 4]))
    return None

# ---- Dumps ----
def fixup(n):
    n = "".join("_" if c in "\\/:*?<>|" else c for c in n)
    return n + "_" if not n or n.endswith(".") else n

def dump8(data, at=""):
    """-> {path: bytes, None for a directory, or ("png", width, rgba)} that a dump of a pod of pods gives"""
    out = {}; pal = None
    for i, (k, n, b) in enumerate(ref8.pod_parse(data)):
        if k == "file" and n.lower().endswith(".pod"): d = at + fixup(n[:-4]); out[d] = None; out.update(dump8(b, d + "/"))
        elif k == "file": out[at + fixup(n)] = b
        elif k == "pal": pal = [b[j:j + 3] + b"\xff" for j in range(0, 768, 3)]; out["%s%d.pal.png" % (at, i)] = "png", 256, b"".join(pal)
        else:
            w, h, bpp, px = b
            if bpp == 8: px = b"".join((pal or [bytes((j, j, j, 255)) for j in range(256)])[c] for c in px)
            else: px = bgra(px)
            out["%s%d.png" % (at, i)] = "png", w, px
    return out

def same_tree(want, got):
    if set(want) != set(got): return "the dump holds too much %r, lacks %r" % (sorted(set(got) - set(want)), sorted(set(want) - set(got)))
    for p, w in want.items():
        g = got[p]
        if w is None or g is None: r = None if w is g else "%s is %s a directory" % (p, "not" if w is None else "only")
        elif isinstance(w, tuple): r = png(w[2], g, p, w[1])
        elif isinstance(w, ref8.Cart): r = w.diff(ref8.parse_p8(g), label=False, meta=False, version=False); r = r and "%s differs in %s" % (p, r)
        else: r = first(w, g, p)
        if r: return r

NAMES64 = ("info", "system", "cart", "html_info", "linux_exe", "win_exe", "win_sdl", "mac_exe", "mac_sdl")
def dump64(data, tree, fmt):
    left = dict(tree)
    for i, b in enumerate(ref64.read_dat(data)):
        n = NAMES64[i] if i < len(NAMES64) else "unk%d" % i
        if not b.startswith(b"p64"):
            if n not in left: return "the dump lacks %s" % n
            p = first(b, left.pop(n), n)
        else:
            cart = ref64.read_rom(b)
            if fmt == "dir":
                got = {q[len(n) + 1:] + ("/" if d is None else ""): d for q, d in left.items() if q.startswith(n + "/")}
                left = {q: d for q, d in left.items() if q != n and not q.startswith(n + "/")}
            else:
                f = n + "." + fmt
                if left.get(f) is None: return "the dump lacks %s" % f
                d = left.pop(f); got = ref64.read_rom(d) if fmt == "rom" else ref64.read_p64(d)
            p = ref64.cart_eq(cart, got, (".info.pod",) if ".info.pod" not in cart else ()); p = p and n + ": " + p
        if p: return p
    return "the dump holds too much: %r" % sorted(left) if left else None
