"""C07: damaged or cut-off carts are rejected, not loaded as something else"""
import random, re
from .. import frame, gen8, gen64, plan, ref8, ref64
from ..frame import Viol
from . import common, C04

W = "/sim/work/"
P8 = ("png", "png", "png", "clip", "romt", "tiny-rom", "url", "js", "pod", "png")
P64 = ("p64", "p64", "rom", "rom", "png", "html", "dat")
EXT = dict(gen8.EXT, romt=".rom", html=".html", dat=".dat")
BIN = ("html", "dat", "js", "pod")
P64_SIG = b"picotron cartridge"

def gen(r, ctx, i):
    tool = "shrinko8" if r.random() < 0.62 else "shrinkotron"
    files = {}; net = {}
    fmt = r.choice(P8 if tool == "shrinko8" else P64)
    if fmt == "png" and tool == "shrinkotron" and r.random() < 0.6: fmt = "rom"
    if tool == "shrinko8":
        good = None
        while good is None:
            c = gen8.small(r) if r.random() < 0.7 else gen8.cart(r, "lua")
            if fmt == "romt":
                good = ref8.encode_rom(c, r); good = good and good + ref8.trailer(c, good)
            elif fmt == "url" or fmt == "tiny-rom":
                good = gen8.encode(c, fmt, r)
                if not compressed(fmt, good): good = None
            else: good = gen8.encode(c, fmt, r, name="one.p8", others=[("n%d.p8" % j, gen8.small(r)) for j in range(r.randrange(3))] if fmt in BIN else ())
        ext = EXT[fmt]
        role = r.choice(("main", "main", "main", "inplace", "merge", "extra"))
        if fmt == "png" and r.random() < 0.15: role = "include"
        if fmt in ("js", "pod"): role = r.choice(("main", "cart", "list", "dump", "insert", "main", "rename"))
        elif fmt == "png" and r.random() < 0.1:
            role = "label"; good = ref8.png_write(128, 128, ref8.label_rgba(gen8.label(r) or bytearray([5] * 16384)))
    else:
        c = gen64.small(r)
        if fmt == "html": good = html(ref64.write_rom(c, r), r)
        elif fmt == "dat": good = ref64.write_dat([b"/home", ref64.write_rom({"boot.lua": b"--x\n"}, r), ref64.write_rom(c, r)] + [bytes(r.randrange(256) for _ in range(r.randrange(60))) for _ in range(3)])
        else: good = gen64.encode(c, fmt, r)
        ext = EXT.get(fmt, gen64.EXT.get(fmt))
        if fmt == "png": ext = ".p64.png"
        role = r.choice(("main", "main", "main", "inplace", "merge", "extract", "list", "insert"))
        if fmt in BIN: role = r.choice(("main", "merge", "list", "extract"))
        if role == "insert" and fmt not in ("p64",): role = "main"
        if role == "insert": role = "merge"
    name = "dam" + ext
    out = None; opts = []; F = [["-F", "tiny-rom"]] if fmt == "tiny-rom" else []
    proc = r.choice(([], [], [], [["-m"]], [["-c"]], [["-l"], ["--no-lint-fail"]], [["--keep-compression"]])) if tool == "shrinko8" else r.choice(([], [], [["-m"]], [["--keep-pod-compression"]], [["-u"]]))
    of = r.choice(("p8", "p8", "rom", "lua", "url", "png")) if tool == "shrinko8" else r.choice(("p64", "p64", "rom", "lua", "dir"))
    if of == "png" and r.random() < 0.6: of = "p8"
    out = "out" + (gen8.EXT if tool == "shrinko8" else gen64.EXT)[of] + ("dir" if of == "dir" else "")
    fo = [["-f", "dir"]] if of == "dir" else []
    if r.random() < 0.5 and of != "dir": files[W + out] = b"older output\n" * 20
    if role == "main" and r.random() < 0.1 and of not in ("dir", "png"): out = "-"; fo = [["-f", of]]
    if role == "main": opts = [[name], [out]] + fo + F + proc
    elif role == "inplace": opts = [[name], ["-i"]] + F + proc
    elif role == "cart": opts = [[name], [out], ["--cart", "one.p8"]] + proc
    elif role == "list": opts = [[name], ["--list"]]
    elif role == "dump": opts = [[name], ["--dump", "dumped"], ["-f", r.choice(("rom", "p8"))]]; out = None
    elif role == "extract": opts = [[name], ["--extract", "main.lua", "got.lua"]]; files[W + "got.lua"] = b"old"
    elif role == "rename": opts = [[name], ["--rename-cart", "one.p8", "uno.p8"]]
    elif role in ("merge", "extra", "include", "label", "insert"):
        if tool == "shrinko8":
            m = gen8.small(r)
            if role == "include": m = ref8.Cart(gen8.lua(r, 3) + "\n#include " + name + "\nx=1")
            files[W + "main.p8"] = ref8.write_p8(m)
        else: gen64.put(files, gen64.small(r), "p64", W + "main.p64", r)
        mn = "main" + gen64.EXT["p64"] if tool == "shrinkotron" else "main.p8"
        if role == "merge":
            fm = {"tiny-rom": "tiny_rom"}.get(fmt)
            opts = [[mn], [out]] + fo + [["--merge", name, "lua,gfx" if tool == "shrinko8" else r.choice(("*", "*.lua"))] + ([fm] if fm else [])] + proc
        elif role == "extra":
            files[W + "pico8.dat"] = gen8.dat(0); out = "exp." + r.choice(("js", "pod"))
            opts = [[mn], [out], ["--pico8-dat", "pico8.dat"], ["--extra-input", name] + (["tiny_rom"] if fmt == "tiny-rom" else [])] + proc
        elif role == "include": opts = [[mn], [out]] + proc
        elif role == "label":
            out = r.choice(("out.p8", "out.p8.png", "out.js")); opts = [[mn], [out], ["--label", name]] + proc
            if out == "out.js": files[W + "pico8.dat"] = gen8.dat(0); opts.append(["--pico8-dat", "pico8.dat"])
        elif role == "insert": opts = [[mn], [name], ["--insert-cart", "new.p8"]] + proc
    via = "file"
    if role in ("main", "cart") and r.random() < 0.35: via = r.choice(("stdin", "url"))
    if via == "stdin": opts = [["-"]] + opts[1:] + ([] if F else [["-F", "rom" if fmt == "romt" else fmt]])
    u = "http://carts.test/x/" + name
    if via == "url":
        opts = [[u if a == name else a for a in g] for g in opts] + ([["--url"]] if role != "merge" else [])
    spec = dict(tool=tool, fmt=fmt, role=role, via=via, name=name, url=u, good=good, files=files, net={}, out=out, cmd={"tool": tool, "opts": opts})
    dam = []
    nflip = 0
    for _ in range(r.choice((2, 4, 6)) if len(good) < 60000 else 2):
        x = r.random()
        if role != "label" and (fmt in ("png", "clip") and tool == "shrinko8" and x < 0.6 or fmt == "romt" and x < 0.6):
            nflip += 1
            if nflip > 2 and fmt != "romt": continue
            n = r.choice((1, 1, 1, 2, 8))
            offs = [r.choice((lambda: r.randrange(0x8000), lambda: r.randrange(0x4300), lambda: r.choice((0, 0x42ff, 0x4300, 0x7fff, 0x4308, 0x4301)), lambda: 0x8006 + r.randrange(20)))() for _ in range(n)]
            dam.append(["flip", [[o, r.choice((1, 2, 4, 8, 16, 32, 64, 128, 255, r.randrange(1, 256)))] for o in sorted(set(offs))]])
        elif x < 0.8 or via != "file":
            n = r.choice((lambda: r.randrange(len(good)), lambda: len(good) - r.randint(1, min(40, len(good))), lambda: r.randrange(min(len(good), 60)), lambda: int(len(good) * r.random()), lambda: special(good, fmt, r)))()
            dam.append(["cut", max(0, min(n, len(good) - 1))])
            if via == "url": dam[-1].append(r.choice(("body", "drop")))
        else: dam.append(["eof", r.randrange(1 << 16), r.choice((1 + len(good) // 3, 1 + len(good) // 10, 1 + len(good) // 40, "random"))])
    if r.random() < 0.25: spec["knobs"] = {k: "random" for k in plan.frag(r) if k != "bufsize"}
    spec["variants"] = dam or [["cut", len(good) // 2]]
    return spec

def html(rom, r):
    return ("<html>\n<script>\nvar a=%d;\np64cart_str=\"" % r.randrange(99)).encode() + rom.hex().encode() + b"\";\nfoo();\n</script></html>\n"

def special(good, fmt, r):
    """Places where a structure ends"""
    pats = {"p64": [rb":: ", rb"\n:: ", rb":: [^\n]*\n", rb"\[eoc", rb"\n"], "js": [rb"\]", rb",", rb"'", rb"\["], "url": [rb"=", rb"&"], "html": [rb'"'], "clip": [rb"\["]}.get(fmt)
    if not pats:
        if fmt == "romt": return 0x8000 + r.randint(1, 25)
        if fmt == "png": return r.choice([m.start() for m in re.finditer(rb"IDAT|IEND", good)]) + r.randrange(-4, 6)
        return r.randrange(len(good))
    ms = list(re.finditer(r.choice(pats), good))
    return r.choice(ms).end() if ms else len(good) // 2

def compressed(fmt, data):
    if fmt == "url":
        import base64
        try: data = base64.b64decode(data.split(b"?c=")[1].split(b"&")[0], b"_-")
        except (IndexError, ValueError): return False
    return data[:4] in (b"\0pxa", b":c:\0")

def code_end(data): return data.index(b"&") if b"&" in data else len(data)

def marked(fmt, good, n, role):
    """Can a reader of this format tell that the first n bytes are not the whole? (what a format has no means to express is not asked for)"""
    if n >= len(good): return False
    if role == "include" and n < 8: return False     # includes are told apart by their signature
    if fmt == "romt": return n > 0x8000
    if fmt == "tiny-rom": return n >= 4
    if fmt == "url": return n >= good.index(b"?c=") + 11 and n < code_end(good)
    if fmt == "p64": return n >= len(P64_SIG)
    return True

def flip_png(data, flips):
    w, h, px = ref8.png_pixels(data); px = bytearray(px)
    for o, x in flips:
        px[4 * o] ^= x >> 4 & 3; px[4 * o + 1] ^= x >> 2 & 3; px[4 * o + 2] ^= x & 3; px[4 * o + 3] ^= x >> 6 & 3
    return ref8.png_write(w, h, bytes(px))

def flip(fmt, good, flips):
    if fmt == "romt":
        b = bytearray(good)
        for o, x in flips: b[o] ^= x
        return bytes(b)
    if fmt == "clip": return b"[cart]" + flip_png(bytes.fromhex(good.decode()[6:-7]), flips).hex().encode() + b"[/cart]"
    return flip_png(good, flips)

def run(ctx, spec, data, drop=None, **over):
    k = ctx.kernel(spec)
    st = dict(spec["cmd"])
    if spec["via"] == "stdin": st["stdin"] = data
    elif spec["via"] == "url":
        k.net[spec["url"]] = {"body": data, "chunked": len(data) % 2 == 0, "seed": 1}
        if drop is not None: k.net[spec["url"]] = {"body": spec["good"], "chunked": len(data) % 2 == 0, "seed": 1, "cut": drop}
    else: k.put(W + spec["name"], data)
    before = k.snapshot()
    over.setdefault("knobs", dict(spec.get("knobs") or {}))
    r = ctx.step(k, st, **over)
    return k, before, r

def execute(spec, ctx):
    good = spec["good"]; tool = spec["tool"]
    k0, b0, r0 = run(ctx, spec, good)
    if r0.status != 0: ctx.probes["intact_refused:" + spec["fmt"] + "/" + spec["role"] + "/" + spec["via"]] += 1; return None
    want = k0.snapshot(); d0 = frame.diff_snap(b0, want)
    for v in spec["variants"]:
        sp = dict(spec, variants=[v]); drop = None; over = {}; data = good
        if v[0] == "flip": data = flip(spec["fmt"], good, v[1]); must = True; what = "stored bytes %s flipped" % v[1]
        elif v[0] == "cut":
            n = v[1]; data = good[:n]; must = marked(spec["fmt"], good, n, spec["role"]); what = "cut to %d of %d bytes" % (n, len(good))
            if len(v) > 2 and v[2] == "drop": drop = n / len(good); must = True; what = "connection dropped at %.3f of the response" % drop
            if not must: ctx.probes["unmarked"] += 1; continue
        else:
            kn = dict(spec.get("knobs") or {}, read_chunk=v[2]); kk, bb, rr = run(ctx, spec, good, knobs=kn)
            if rr.status != 0: continue
            path = W + spec["name"]
            reads = [(i, d) for i, (n, p, d) in enumerate(rr.log) if n == "read" and p == path]
            if len(reads) < 2: continue
            j = v[1] % (len(reads) - 1); over = {"faults": [{"at": reads[j][0], "f": "eof"}], "knobs": kn}
            n = sum(d for _, d in reads[:j] if isinstance(d, int))
            must = marked(spec["fmt"], good, n, spec["role"]); what = "file ends early at %d of %d bytes while being read" % (n, len(good))
            if not must or n >= len(good): continue
        k, b, r = run(ctx, spec, data, drop=drop, **over)
        now = k.snapshot()
        if v[0] == "eof" and not r.fired: continue
        if r.status == "hang": return Viol("hang", "%s: %s: the run does not end" % (head(spec), what), sp)
        if r.status == 0:
            # nothing was missing only if the result is the intact one
            d = frame.diff_snap(b, now)
            same = set(d) == set(d0) and all(now.get(p) == want.get(p) or edited(spec, p, now.get(p), want.get(p)) for p in d) and r.out == r0.out
            if not same: return Viol("accepted", "%s: %s: it is accepted, and gives something else: %s" % (head(spec), what, differs(d, d0, now, want, r, r0)), sp)
            ctx.probes["harmless:" + spec["fmt"]] += 1
            if v[0] == "flip": return Viol("accepted", "%s: %s: the hash does not match, but the cart is accepted" % (head(spec), what), sp)
            continue
        ctx.probes["rejected:%s:%s" % (v[0], spec["fmt"])] += 1
        d = frame.diff_snap(b, now)
        if spec["role"] == "dump": d = {p: h for p, h in d.items() if not frame.under(p, W + "dumped")}
        if d: return Viol("output", "%s: %s: the run fails (%s), but %s" % (head(spec), what, r.status, d), sp)
        if spec["out"] == "-" and r.out and not any("-c" in g or "-l" in g for g in spec["cmd"]["opts"]): return Viol("output", "%s: %s: the run fails (%s), but writes %s to standard output" % (head(spec), what, r.status, frame.brief(r.out, 60)), sp)
    return None

def edited(spec, p, a, b):
    """An export cut off behind its last cart has lost no cart: editing it is fine if the carts come out right"""
    if spec["fmt"] not in ("js", "pod") or spec["role"] not in ("rename", "insert") or p != W + spec["name"]: return False
    try: x, y = C04.decode(spec["fmt"], a)[0], C04.decode(spec["fmt"], b)[0]
    except (ref8.Bad, ValueError, IndexError): return False
    return [n for n, _ in x] == [n for n, _ in y] and all(C04.same(c, e) for (_, c), (_, e) in zip(x, y))

def head(spec): return "%s %s read as %s by: %s" % (spec["tool"], spec["fmt"], spec["role"], " ".join(a for g in spec["cmd"]["opts"] for a in g))
def differs(d, d0, now, want, r, r0):
    for p in sorted(set(d) | set(d0)):
        if now.get(p) != want.get(p) or (p in d) != (p in d0): return "%s is %s instead of %s" % (p, frame.brief(now.get(p), 60) if p in now else "missing", frame.brief(want.get(p), 60) if p in want else "missing")
    return "it prints %s instead of %s" % (frame.brief(r.out, 80), frame.brief(r0.out, 80))

def key(spec): return "%s/%s/%s/%s/%s" % (spec["tool"], spec["fmt"], spec["role"], spec["via"], sorted({v[0] for v in spec["variants"]}))
def shrink(spec):
    for c in frame.drop_each(spec["variants"], 1): yield dict(spec, variants=c)
    if spec.get("knobs"): yield dict(spec, knobs={})
    for i, v in enumerate(spec["variants"]):
        if v[0] == "flip" and len(v[1]) > 1:
            for c in frame.drop_each(v[1], 1): yield dict(spec, variants=spec["variants"][:i] + [["flip", c]] + spec["variants"][i + 1:])
    st = spec["cmd"]
    for t in frame.shrink_step(st): yield dict(spec, cmd=t)
def describe(spec): return {"tool": spec["tool"], "format": spec["fmt"], "role": spec["role"], "via": spec["via"], "argv": frame.argv_of(spec["cmd"]), "size": len(spec["good"]), "damage": spec["variants"]}
