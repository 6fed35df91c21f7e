"""C05: Pico-8 carts survive any chain of format conversions"""
import random
from .. import frame, gen8, plan, ref8
from ..frame import Viol
from . import common

W = "/sim/work/"
FMTS = ("p8", "p8", "p8", "rom", "rom", "lua", "url", "tiny-rom", "js", "pod", "clip", "png", "png", "code")
COMP = ([], [], [], ["--fast-compression"], ["--force-compression"], ["--old-compression"], ["--keep-compression"], ["--keep-compression", "--force-compression"])
EXPORT = ("js", "pod")

def name(i, fmt): return "s%d" % i + (gen8.EXT[fmt])

def gen(r, ctx, i):
    fat = r.random() < 0.12
    cart = gen8.cart(r)
    if fat: cart.code = fat_code(r)
    elif r.random() < 0.15: cart.code = "-- title line\n--by me\n" + cart.code
    if r.random() < 0.15: cart.meta["title"] = [r.choice(("my game", "a", "x y z")), "by someone"][:r.randint(1, 2)]
    f0 = r.choice(("p8", "p8", "p8", "png", "rom", "clip", "lua", "tiny-rom", "url", "js", "pod"))
    data = gen8.encode(cart, f0, r, name="first.p8", others=[("second.p8", gen8.small(r))] if r.random() < 0.3 else ())
    while data is None or f0 in ("tiny-rom", "url") and len(data) >= 0x3d00: f0 = "p8"; data = gen8.encode(cart, f0, r)
    files = {W + name(0, f0): data, W + "pico8.dat": gen8.dat(r.randrange(2))}
    steps = []; cur = f0; npng = 0
    for n in range(1, r.choice((2, 3, 4, 5, 6)) + 1):
        fmt = r.choice(FMTS)
        if fmt in ("png", "clip"):
            npng += 1
            if npng > 2: fmt = "p8"
        steps.append(mkstep(r, n, cur, fmt, len(cart.code)))
        cur = fmt
    if r.random() < 0.7: steps.append({"fix": 1, "fmt": cur, "src": cur})
    return dict(files=files, start=f0, steps=steps, kseed=0)

def fat_code(r):
    """Code near or past what a format can hold"""
    k = r.randrange(4)
    if k == 0: n = r.choice((65530, 65534, 65535, 65536, 65540, 70000)); s = "x=1--ab\n" * (n // 8 + 1); return s[:n]
    if k == 1:
        rr = random.Random(r.random()); return "".join(rr.choice(gen8.ALLCH[40:]) for _ in range(r.choice((15000, 15600, 15616, 17000, 26000)))).replace("#", "x").replace("__", "ab")
    if k == 2: return gen8.repetitive(r, r.choice((20000, 40000, 65000)))
    return gen8.safe_lines(gen8.noise(r, r.choice((0x3cff, 0x3d00, 0x3d01, 1400, 1530, 2100))))

def mkstep(r, n, src, fmt, size):
    how = r.choice(("file", "file", "file", "stdin", "stdout", "both", "url", "extra"))
    if fmt == src and fmt not in EXPORT and r.random() < 0.5: how = "inplace"
    if fmt in EXPORT: how = r.choice(("file", "stdin", "replace", "insert")) if fmt == "js" or True else how
    if src in EXPORT and how in ("stdin", "both"): how = "file"
    s = {"src": src, "fmt": fmt, "how": how, "comp": list(r.choice(COMP)), "n": n, "seed": r.randrange(1 << 20), "knobs": plan.frag(r) if r.random() < 0.5 else {}}
    if fmt in ("png", "clip", "lua", "code"): s["comp"] = [c for c in s["comp"] if fmt in ("png", "clip")]
    if "--force-compression" in s["comp"] and fmt not in ("rom", "png", "clip"): s["comp"].remove("--force-compression")
    if size > 3000 and "random" != s["knobs"].get("read_chunk", "random"): s["knobs"]["read_chunk"] = "random"
    if s["knobs"].get("write_chunk") in (1, 7): s["knobs"]["write_chunk"] = "random"
    if s["knobs"].get("read_chunk") in (1, 13): s["knobs"]["read_chunk"] = "random"
    if fmt in ("p8", "lua") and r.random() < 0.15: s["comp"].append("-u")
    if r.random() < 0.5: s["prior"] = r.choice((b"", b"older", b"y" * 70000))
    if how == "url": s["chunked"] = r.random() < 0.5
    return s

def decode(fmt, data, which=None):
    if fmt == "p8": return ref8.parse_p8(data)
    if fmt == "png": return ref8.decode_png(data)
    if fmt == "clip": return ref8.decode_clip(data)
    if fmt == "rom": return ref8.decode_rom(data)
    if fmt == "tiny-rom": return ref8.decode_tiny(data)
    if fmt == "url": return ref8.decode_url(data)
    if fmt in ("lua", "code"):
        t = data.decode("utf-8", "surrogateescape")
        if fmt == "code":
            if not t.startswith("__lua__\n"): raise ref8.Bad("no __lua__")
            t = t[8:]
        return ref8.Cart(ref8.from_unicode(t), version=None)
    carts = ref8.decode_js(data) if fmt == "js" else ref8.pod_carts(data)
    if which is None: return ref8.decode_rom(carts[0][1])
    m = [b for n, b in carts if n == which]
    if len(m) != 1: raise ref8.Bad("cart %r is there %d times in %s" % (which, len(m), [n for n, _ in carts]))
    return ref8.decode_rom(m[0])

CARRY = {"p8": "crlmv", "png": "crlv", "clip": "crlv", "rom": "cr", "js": "cr", "pod": "cr", "url": "cg", "tiny-rom": "c", "lua": "c", "code": "c"}
def project(cart, fmt):
    """What the tool should know after reading this cart back from the format"""
    c = cart.copy(); k = CARRY[fmt]
    if "l" not in k: c.label = None
    if "m" not in k: c.meta = {}
    if "v" not in k: c.version = None
    if "r" not in k:
        e = ref8.empty_rom()
        if "g" in k: e[:0x2000] = c.rom[:0x2000]
        c.rom = e
    return c

def differ(cart, got, fmt):
    k = CARRY[fmt]
    d = cart.diff(got, code="c" in k, rom="r" in k, label="l" in k, meta="m" in k, version="v" in k and cart.version is not None)
    if "g" in k and cart.sect("gfx") != got.sect("gfx"): d.append("gfx")
    return d

def after_read(cart, fmt):
    """lua and code files have no end marker: a final newline is the file's own"""
    if fmt in ("lua", "code") and cart.code.endswith("\n"): cart = cart.copy(); cart.code = cart.code[:-1]
    return cart

def opts_of(s, src, dst):
    o = [[src], [dst]]
    if s["src"] in ("tiny-rom", "code"): o.append(["-F", s["src"]])
    if s["fmt"] in ("tiny-rom", "code"): o.append(["-f", s["fmt"]])
    for c in s["comp"]: o.append([c])
    return o

def must_fit(cart, s):
    """Must this conversion succeed?"""
    n = len(cart.code)
    if s["fmt"] in ("p8", "lua", "code"): return True
    if n >= 0x10000: return False
    if s["fmt"] == "url": return n < 500 and not any(cart.sect("gfx"))
    if s["fmt"] == "tiny-rom": return n < 0x3000
    if "--force-compression" in s["comp"]: return n < 0x2800
    return n < 0x3d00

def execute(spec, ctx):
    k = ctx.kernel(spec)
    cart = after_read(project(decode(spec["start"], k.get(W + name(0, spec["start"]))), spec["start"]), spec["start"])
    curname = name(0, spec["start"]); curfmt = spec["start"]; curkey = None
    for si, s in enumerate(spec["steps"]):
        if s.get("fix"):
            v = fixed(spec, ctx, k, curname, curfmt, curkey)
            if v: return v
            continue
        if s["src"] != curfmt: s = dict(s, src=curfmt); s["how"] = "file" if s["how"] in ("inplace", "stdin", "both") and (curfmt in EXPORT or s["how"] == "inplace" and s["fmt"] != curfmt) else s["how"]
        out = name(s["n"], s["fmt"]); how = s["how"]; stdin = b""
        want = project(cart, s["fmt"])
        o = opts_of(s, curname, out)
        if s.get("prior") is not None and how != "inplace": k.put(W + out, s["prior"])
        key = None
        if how == "inplace": o = [[curname], ["-i"]] + o[2:]; out = curname; o = [x for x in o if x[0] != "-f"]
        if how in ("stdin", "both"):
            stdin = k.get(W + curname); o[0] = ["-"]; o = [x for x in o if x[0] != "-F"] + [["-F", s["src"]]]
        if how in ("stdout", "both"): o[1] = ["-"]; o = [x for x in o if x[0] != "-f"] + [["-f", s["fmt"]]]
        if how == "url" and curfmt not in EXPORT:
            u = "http://carts.test/" + curname
            k.net[u] = {"body": k.get(W + curname), "chunked": s.get("chunked", False), "seed": s["seed"]}
            o[0] = [u]; o = [x for x in o if x[0] != "-F"] + [["--url"], ["-F", s["src"]]]
        if how == "extra": o[1] = ["--extra-output", out, s["fmt"]]; o = [x for x in o if x[0] != "-f"] + [["--version"]]
        if s["fmt"] in EXPORT:
            if how in ("replace", "insert"):
                rr = random.Random(s["seed"])
                k.put(W + out, gen8.encode(gen8.small(rr), s["fmt"], rr, name="aa.p8", others=[("bb.p8", gen8.small(rr))]))
                key = rr.choice(("aa.p8", "bb.p8")) if how == "replace" else "mine.p8"
                o.append(["--%s-cart" % how, key])
            else: o.append(["--pico8-dat", "pico8.dat"])
        if curkey: o.append(["--cart", curkey])
        before = k.get(W + out)
        r = ctx.step(k, {"tool": "shrinko8", "opts": o, "stdin": stdin, "seed": s["seed"]}, knobs=dict(s["knobs"]))
        what = "step %d (%s -> %s via %s, %s)" % (s["n"], curfmt, s["fmt"], how, " ".join(s["comp"]))
        sp = dict(spec, steps=spec["steps"][:si + 1])
        if r.status == "hang": return Viol("hang", "%s does not end" % what, sp)
        if r.status != 0:
            if must_fit(cart, s): return Viol("refused", "%s failed (status %s) though everything fits: %s" % (what, r.status, common.tail(r)), sp)
            if k.get(W + out) != before: return Viol("clobber", "%s failed but changed %s" % (what, out), sp)
            ctx.probes["too_large"] += 1
            if k.get(W + curname) is None: return None
            continue
        data = r.out if how in ("stdout", "both") else k.get(W + out)
        try: got = decode(s["fmt"], data, key)
        except (ref8.Bad, ValueError, IndexError, KeyError, AttributeError, TypeError) as e:
            return Viol("undecodable", "%s succeeded, but the result is no valid %s: %s: %s; %s" % (what, s["fmt"], type(e).__name__, e, frame.brief(data)), sp)
        d = differ(want, got, s["fmt"])
        if d:
            return Viol("altered", "%s changed %s%s" % (what, ", ".join(d), detail(want, got, d)), sp)
        if how in ("stdout", "both"): k.put(W + out, data)
        ctx.probes["converted:" + s["fmt"]] += 1
        v = want.version if want.version is not None else got.version
        cart = after_read(project(want, s["fmt"]), s["fmt"])
        if "v" in CARRY[s["fmt"]]: cart.version = v
        curname, curfmt, curkey = out, s["fmt"], key
    return None

def detail(a, b, d):
    if "code" in d:
        i = next((i for i, (x, y) in enumerate(zip(a.code, b.code)) if x != y), min(len(a.code), len(b.code)))
        return ": code differs at %d (lengths %d, %d): %r / %r" % (i, len(a.code), len(b.code), a.code[max(0, i - 10):i + 20], b.code[max(0, i - 10):i + 20])
    if "meta" in d: return ": %r / %r" % (a.meta, b.meta)
    if "version" in d: return ": %r / %r" % (a.version, b.version)
    return ""

def fixed(spec, ctx, k, curname, fmt, key):
    """Out and back and out again gives the same bytes"""
    if fmt in EXPORT or fmt in ("lua", "code") and k.get(W + curname).endswith(b"\n"): return None
    o = lambda a, b: [[a], [b]] + ([["-F", fmt]] if a != "fix.p8" and fmt in ("tiny-rom", "code") else []) + ([["-f", fmt]] if b != "fix.p8" and fmt in ("tiny-rom", "code") else [])
    e = gen8.EXT[fmt]; res = []
    cur = curname
    for n in range(2):
        r = ctx.step(k, {"tool": "shrinko8", "opts": o(cur, "fix.p8")})
        p8 = k.get(W + "fix.p8") if r.status == 0 else None
        r2 = ctx.step(k, {"tool": "shrinko8", "opts": o("fix.p8", "fix%d%s" % (n, e))}) if r.status == 0 else r
        if r2.status != 0: 
            if n == 0 and b"too m" in r2.err: return None    # the chosen compression was tighter than the default
            return Viol("refused", "round trip of %s through p8 failed: %s" % (fmt, common.tail(r2)), None)
        res.append((p8, k.get(W + "fix%d%s" % (n, e)))); cur = "fix%d%s" % (n, e)
    ctx.probes["fixed_point"] += 1
    if res[0] != res[1]:
        w = "p8" if res[0][0] != res[1][0] else fmt
        return Viol("unstable", "converting %s -> p8 -> %s -> p8 -> %s is not a fixed point: %s changes" % (fmt, fmt, fmt, w), None)
    return None

def key(spec): return spec["start"] + ">" + ">".join("%s/%s" % (s["fmt"], s.get("how", "fix")) for s in spec["steps"])
def shrink(spec):
    for c in frame.drop_each(spec["steps"], 1): yield dict(spec, steps=c)
    for i, s in enumerate(spec["steps"]):
        if s.get("fix"): continue
        for q in ({"knobs": {}}, {"comp": []}, {"prior": None}, {"how": "file"}):
            if any(s.get(a) != b for a, b in q.items()): yield dict(spec, steps=spec["steps"][:i] + [dict(s, **q)] + spec["steps"][i + 1:])
    p = W + name(0, spec["start"])
    if spec["start"] in ("p8", "lua"):
        for t in frame.shrink_lines(spec["files"][p]):
            if spec["start"] == "p8":
                try: ref8.parse_p8(t)
                except (ref8.Bad, ValueError): continue
            yield dict(spec, files=dict(spec["files"], **{p: t}))
def describe(spec): return {"start": spec["start"], "bytes": len(spec["files"][W + name(0, spec["start"])]), "steps": [{k: v for k, v in s.items() if k != "prior"} for s in spec["steps"]]}
