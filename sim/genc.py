"""Random commands of both tools, with their inputs and what they are meant to write"""
import random
from . import gen8, gen64, ref8, ref64

W = "/sim/work/"
SRC8 = ("p8", "png", "rom", "lua", "clip", "url", "tiny-rom", "js", "pod")
OUT8 = ("p8", "png", "rom", "lua", "clip", "url", "tiny-rom", "code")
MIN8 = [["-m"], ["-M"], ["-m", "-oc"], ["-m", "-ob"], ["-m", "-ot"], ["-M", "--no-minify-rename"], ["--minify-consts-only"], ["-U"], ["-U", "--unminify-indent", "tabs"], ["-l"], ["-c"], ["-m", "-c"],
        ["-m", "--no-minify-lines"], ["-c", "--no-count-compress"], ["-m", "--rename-safe-only"], ["--input-count"], ["-c", "--parsable-count"], ["-u"]]

class Cmd:
    def __init__(m):
        m.files = {}; m.net = {}; m.opts = []; m.tool = "shrinko8"; m.stdin = b""; m.env = None
        m.outs = {}; m.dirs = {}; m.stdout = None; m.kind = ""; m.inputs = []; m.main = None
    def step(m, **kw):
        return dict(dict(tool=m.tool, opts=[list(g) for g in m.opts], stdin=m.stdin, env=m.env), **kw)
    def spec(m): return dict(files=m.files, net=m.net, cmd=m.step(), outs=m.outs, dirs=m.dirs, stdout=m.stdout, kind=m.kind, tool=m.tool)

def put8(c, r, fmt, base, cart=None, lua=True):
    """Place a Pico-8 cart on the disk; -> (path, cart)"""
    cart = cart or gen8.small(r, "lua" if lua else None)
    d = gen8.encode(cart, fmt, r, name=base + ".p8")
    while d is None:
        cart = gen8.small(r); d = gen8.encode(cart, fmt, r, name=base + ".p8")
    p = base + gen8.EXT[fmt]
    c.files[W + p] = d; c.inputs.append(W + p)
    return p, cart

FMTOPT = {"tiny-rom": ["-F", "tiny-rom"]}

def outname(r, base, fmt):
    d = r.choice(("", "", "", "out/", "./"))
    return d + base + (gen8.EXT[fmt] if fmt in gen8.EXT else "." + fmt)

def out_dirs(c, path):
    if "/" in path and not path.startswith("./"): c.files.setdefault(W + path.rsplit("/", 1)[0], None)

def at(path): return W + (path[2:] if path.startswith('./') else path)

def prior(c, r, path, chance=0.5):
    """An older file may be where the output goes"""
    if r.random() < chance: c.files[at(path)] = r.choice((b"old contents\n", b"", b"x" * 5000, bytes(range(256))))

def pico8(r, kinds=None):
    c = Cmd()
    c.kind = r.choice(kinds or ("convert", "convert", "convert", "inplace", "multi", "merge", "export", "edit", "edit", "dump", "stdout", "stdin", "url", "map", "include", "label", "nothing", "png"))
    k = c.kind
    small_fmts = ("p8", "p8", "rom", "lua", "url", "tiny-rom", "js", "pod") if k != "png" else ("png", "clip")
    src = r.choice(small_fmts)
    if k in ("include",): src = r.choice(("p8", "lua"))
    if k == "inplace": src = r.choice(("p8", "rom", "lua", "p8", "url"))
    if k == "edit": src = r.choice(("p8", "rom"))
    if k in ("stdin",): src = r.choice(("p8", "rom", "lua", "url", "tiny-rom"))
    if k == "url": src = r.choice(("p8", "rom", "png"))
    inp, cart = put8(c, r, src, "in")
    c.main = cart
    pre = [list(FMTOPT[src])] if src in FMTOPT else []
    out = None
    proc = [r.choice(MIN8)] if r.random() < 0.5 else []
    lua_opts = proc
    fmts = ("p8", "p8", "rom", "lua", "url", "tiny-rom", "code") if k != "png" else ("png", "clip", "p8", "rom")
    fmt = r.choice(fmts)
    if k in ("convert", "png", "include", "map", "multi", "merge", "label", "url", "stdin"):
        out = outname(r, "res", fmt); out_dirs(c, out); prior(c, r, out)
        c.outs[at(out)] = fmt
        pos = [[inp], [out]]
        fo = [["-f", fmt]] if fmt in ("tiny-rom", "code") or r.random() < 0.2 else []
        c.opts = pos + pre + fo + proc
    if k == "inplace":
        c.opts = [[inp], [r.choice(("-i", "--in-place"))]] + pre + proc
        c.outs[W + inp] = src; fmt = src
    if k == "multi":
        for i in range(r.randint(1, 3)):
            f = r.choice(("p8", "rom", "lua", "tiny-rom", "label", "spritesheet") if r.random() < 0.8 else ("url", "clip"))
            if f == "label" and not cart.label or src != "p8" and f == "label": f = "rom"
            o = "extra%d%s" % (i, gen8.EXT.get(f, "." + f)); prior(c, r, o)
            c.opts.append(["--extra-output", o] + ([f.replace("-", "_")] if f in ("tiny-rom", "label", "spritesheet") or r.random() < 0.2 else []))
            c.outs[W + o] = f
    if k == "merge":
        for i in range(r.randint(1, 2)):
            p, _ = put8(c, r, r.choice(("p8", "rom")), "m%d" % i)
            c.opts.append(["--merge", p, ",".join(r.sample(("gfx", "map", "sfx", "music", "gff", "lua"), r.randint(1, 3)))])
    if k == "label":
        lab = ref8.png_write(128, 128, ref8.label_rgba(gen8.label(r) or bytearray([5] * 16384)))
        c.files[W + "label.png"] = lab; c.inputs.append(W + "label.png")
        c.opts += [["--label", "label.png"]]
        if r.random() < 0.3: c.opts += [["--title", "hello"]]
    if k == "include":
        n = r.randint(1, 3)
        incs = []
        for i in range(n):
            f = r.choice(("lua", "p8"))
            body = gen8.lua(r, 5)
            p = r.choice(("inc%d" % i, "sub/inc%d" % i)) + "." + f
            c.files[W + p] = (body + "\n").encode() if f == "lua" else ref8.write_p8(ref8.Cart(body))
            c.inputs.append(W + p); incs.append("#include " + p)
        code = "\n".join([gen8.lua(r, 3)] + incs + [gen8.lua(r, 3)])
        c.files[W + inp] = ref8.write_p8(ref8.Cart(code)) if src == "p8" else code.encode()
        if r.random() < 0.2: c.opts.append(["--list-includes"])
    if k == "map":
        c.opts += [["-m"], ["--rename-map", "map.txt"]]; prior(c, r, "map.txt"); c.outs[W + "map.txt"] = "text"
        if r.random() < 0.3 and fmt in ("rom", "url"): c.opts += [["--trace-compression", "trace.csv"]]; c.outs[W + "trace.csv"] = "text"
        c.opts = [o for i, o in enumerate(c.opts) if o != ["-U"]]
    if k == "export":
        c.files[W + "pico8.dat"] = gen8.dat(r.randrange(2)); c.inputs.append(W + "pico8.dat")
        f = r.choice(("js", "pod", "js", "pod", "bin"))
        out = "exp." + f; c.opts = [[inp], [out], ["--pico8-dat", "pico8.dat"]] + pre + proc
        if f == "bin":
            c.dirs[at(out)] = "bin"; c.env = {}
            if r.random() < 0.3: c.files[W + out + "/stale.txt"] = b"stale"
            if r.random() < 0.4: c.opts.append(["--clean-output-dir"])
        else: prior(c, r, out); c.outs[at(out)] = f
        for i in range(r.choice((0, 1, 2))):
            p, _ = put8(c, r, r.choice(("p8", "rom")), "x%d" % i)
            c.opts.append(["--extra-input", p] + ([p.rsplit(".", 1)[1], "name%d.p8" % i] if r.random() < 0.5 else []))
        if r.random() < 0.3: c.opts.append(["--output-cart", "main_%d.p8" % r.randrange(9)])
        fmt = f
    if k == "edit":
        f = r.choice(("js", "pod")); names = ["one.p8", "two.p8", "three.p8"][:r.randint(1, 3)]
        others = [(n, gen8.small(r)) for n in names[1:]]
        c.files[W + "exp." + f] = gen8.encode(gen8.small(r), f, r, name=names[0], others=others); out = "exp." + f
        c.inputs.append(W + out); c.outs[at(out)] = f
        op = r.choice(("insert", "replace", "delete", "rename"))
        if op == "insert": c.opts = [[inp], [out], ["--insert-cart", "new.p8"] + ([r.choice(names)] if r.random() < 0.5 else [])]
        elif op == "replace": c.opts = [[inp], [out], ["--replace-cart", r.choice(names)]]
        elif op == "delete": c.opts = [[out], ["--delete-cart", r.choice(names)]]
        else: c.opts = [[out], ["--rename-cart", r.choice(names), "renamed.p8"]]
        if r.random() < 0.4 and op in ("insert", "replace"): c.opts += proc
        fmt = f
    if k == "dump":
        f = r.choice(("js", "pod", "dat"))
        src2 = "ex." + f
        c.files[W + src2] = gen8.dat(0) if f == "dat" else gen8.encode(cart, f, r, name="cart.p8", others=[("two.p8", gen8.small(r)), ("sub/3.p8", gen8.small(r))])
        c.opts = [[src2], ["--dump", "dumped"]]; c.inputs = [W + src2]
        if f == "dat" or r.random() < 0.3: c.opts.append(["--dump-misc-too"])
        if r.random() < 0.3: c.opts.append(["-f", r.choice(("rom", "p8", "lua"))])
        if r.random() < 0.4:
            c.files[W + "dumped/stale.txt"] = b"stale"; c.files[W + "dumped/sub/old"] = b"stale"
            if r.random() < 0.6: c.opts.append(["--clean-output-dir"])
        c.dirs[W + "dumped"] = "dump"
    if k == "stdout":
        fmt = r.choice(("p8", "rom", "lua", "url", "tiny-rom"))
        c.opts = [[inp], ["-"], ["-f", fmt]] + pre + [p for p in proc if "-c" not in p and "-l" not in p and "--input-count" not in p]
        c.stdout = fmt
    if k == "stdin":
        c.stdin = c.files.pop(W + inp); c.opts[0] = ["-"]; c.inputs.remove(W + inp)
        if not pre: c.opts.append(["-F", src])
    if k == "url":
        u = "http://carts.test/dl/in" + gen8.EXT[src]
        c.net[u] = {"body": c.files.pop(W + inp), "chunked": r.random() < 0.5, "seed": r.randrange(99)}; c.inputs.remove(W + inp)
        c.opts[0] = [u]; c.opts += [["--url"]] + ([["-F", src]] if not pre else [])
    if k == "nothing":
        c.opts = [[inp]] + pre + r.choice(([["-l"]], [["-c"]], [["--version"]], [["-c", "-m"]], [["--input-count"]], [["-c"], ["-l"]]))
    r2 = r.random()
    if r2 < 0.1 and c.outs and fmt in ("p8", "rom", "png"): c.opts.append(["--output-version", str(r.choice((30, 41, 42)))])
    elif r2 < 0.15: c.opts.append(["--fast-compression"])
    elif r2 < 0.2 and fmt in ("rom", "png"): c.opts.append(["--force-compression"])
    if "-l" in sum(c.opts, []) and c.outs: c.opts.append(["--no-lint-fail"])
    return c

OUT64 = ("p64", "rom", "dir", "p64", "dir", "tiny-rom", "lua", "png")
def put64(c, r, fmt, base, cart=None):
    cart = cart or gen64.small(r)
    d = cart if fmt == "dir" else gen64.encode(cart, fmt, r)
    p = base + gen64.EXT[fmt]
    gen64.put(c.files, cart, fmt, W + p, r)
    c.inputs += [W + p] if fmt != "dir" else [W + p + "/" + q for q in cart if not q.endswith("/")]
    return p, cart

def picotron(r, kinds=None, png=0.1):
    c = Cmd(); c.tool = "shrinkotron"
    c.kind = r.choice(kinds or ("convert", "convert", "convert", "inplace", "filter", "insert", "extract", "merge", "export", "dump", "stdout", "stdin", "list", "multi"))
    k = c.kind
    src = r.choice(("p64", "p64", "rom", "dir")) if r.random() > png else "png"
    if k == "inplace": src = r.choice(("p64", "rom", "dir"))
    if k in ("stdin",): src = r.choice(("p64", "rom"))
    inp, cart = put64(c, r, src, "in"); c.main = cart
    fmt = r.choice(("p64", "p64", "rom", "dir", "dir", "lua")) if r.random() > png else "png"
    proc = [r.choice((["-m"], ["-M"], ["-c"], ["-u"], ["--keep-pod-compression"], ["--base64-pods"], ["-U"], ["--avoid-base64"], ["-m", "--delete-meta", "*"]))] if r.random() < 0.5 else []
    if k in ("convert", "filter", "insert", "merge", "multi", "stdin"):
        out = r.choice(("", "", "sub/")) + "res" + gen64.EXT[fmt]; out_dirs(c, out)
        c.opts = [[inp], [out]] + proc
        if fmt == "dir":
            c.opts.append(["-f", "dir"]); c.dirs[at(out)] = "dir"
            if r.random() < 0.4: c.files[W + out + "/stale.lua"] = b"stale=1"; c.files[W + out + "/src/stale.lua"] = b"s"
            if r.random() < 0.4: c.opts.append(["--clean-output-dir"])
        else: prior(c, r, out); c.outs[at(out)] = fmt
    if k == "inplace":
        c.opts = [[inp], ["-i"]] + proc
        if src == "dir": c.dirs[W + inp] = "dir"
        else: c.outs[W + inp] = src
    if k == "filter": c.opts.append(["--filter", r.choice(("*.lua", "*", "main.lua", "*,!src/*", "src/*,main.lua", "!*.txt,*"))])
    if k == "insert":
        c.files[W + "ins/new.lua"] = gen8.lua(r).encode(); c.files[W + "ins/deep/x.bin"] = bytes(r.randrange(256) for _ in range(30))
        c.inputs += [W + "ins/new.lua", W + "ins/deep/x.bin"]
        c.opts.append(["--insert"] + r.choice((["ins"], ["ins", "lib"], ["ins/new.lua"], ["ins/new.lua", "main.lua"], ["ins", ".", "*.lua"], ["ins", "a/b"])))
    if k == "merge":
        p, _ = put64(c, r, r.choice(("p64", "rom", "dir")), "other")
        c.opts.append(["--merge", p, r.choice(("*", "*.lua", "src/*", "main.lua"))])
    if k == "extract":
        fs = [p for p in cart if r.random() < 0.5][:2] or [next(iter(cart))]
        c.opts = [[inp]]
        for i, p in enumerate(fs):
            o = "got%d" % i; c.opts.append(["--extract", p, o])
            if p.endswith("/"): c.dirs[W + o] = "dir"
            else: c.outs[W + o] = "file"
    if k == "export":
        c.files[W + "picotron.dat"] = gen64.dat(r.randrange(2)); c.inputs.append(W + "picotron.dat")
        f = r.choice(("html", "dat", "bin")); out = "exp." + f
        c.opts = [[inp], [out], ["--picotron-dat", "picotron.dat"]] + proc
        if f == "bin": c.dirs[at(out)] = "bin"
        else: prior(c, r, out); c.outs[at(out)] = f
    if k == "dump":
        c.files[W + "sys.dat"] = gen64.dat(0); c.inputs = [W + "sys.dat"]
        c.opts = [["sys.dat"], ["--dump", "dumped"]] + ([["-f", r.choice(("dir", "rom", "p64"))]] if r.random() < 0.6 else [])
        if r.random() < 0.4:
            c.files[W + "dumped/stale.txt"] = b"stale"
            if r.random() < 0.6: c.opts.append(["--clean-output-dir"])
        c.dirs[W + "dumped"] = "dump"
    if k == "stdout":
        fmt = r.choice(("p64", "rom")); c.stdout = fmt
        c.opts = [[inp], ["-"], ["-f", fmt]] + [p for p in proc if "-c" not in p]
    if k == "stdin":
        c.stdin = c.files.pop(W + inp); c.opts[0] = ["-"]; c.inputs.remove(W + inp); c.opts.append(["-F", src])
    if k == "list": c.opts = [[inp], ["--list"]]
    if k == "multi":
        o = "extra.p64"; c.opts.append(["--extra-output", o]); c.outs[W + o] = "p64"
        if r.random() < 0.5: c.opts.append(["--extra-output", "extra.rom", "rom"]); c.outs[W + "extra.rom"] = "rom"
    return c

def command(r, kinds8=None, kinds64=None, p64=0.35):
    return picotron(r, kinds64) if r.random() < p64 else pico8(r, kinds8)

def validate(tool, fmt, data):
    """Is this a complete file of its format? -> None or what is wrong"""
    try:
        if tool == "shrinko8":
            if fmt == "p8": ref8.parse_p8(data)
            elif fmt == "png": ref8.decode_png(data)
            elif fmt == "rom": ref8.decode_rom(data)
            elif fmt == "tiny-rom": ref8.decode_tiny(data)
            elif fmt == "clip": ref8.decode_clip(data)
            elif fmt == "url": ref8.decode_url(data)
            elif fmt == "js": [ref8.decode_rom(b) for n, b in ref8.decode_js(data)]
            elif fmt == "pod": [ref8.decode_rom(b) for n, b in ref8.pod_carts(data)]
            elif fmt in ("label", "spritesheet"): ref8.png_pixels(data)
        else:
            if fmt == "p64": ref64.read_p64(data)
            elif fmt == "rom": ref64.read_rom(data)
            elif fmt == "png": ref64.read_png(data)
    except (ref8.Bad, ValueError, IndexError, KeyError, TypeError, AttributeError) as e: return "%s: %s" % (type(e).__name__, e)
    return None
