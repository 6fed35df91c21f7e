"""C10: standard streams, URLs and files are interchangeable and fragmentation-proof"""
from .. import frame, gen8, gen64, genc, plan, ref8, ref64
from ..frame import Viol
from . import C08, common

W = genc.W
PROC8 = [[], [], ["-m"], ["-M"], ["-U"], ["-c"], ["-l", "--no-lint-fail"], ["--input-count"], ["--trace-input-compression", "trace.csv"], ["--keep-compression"], ["--output-version", "41"], ["-u"],
         ["--list-includes"], ["--fast-compression"], ["--force-compression"], ["--extra-output", "extra.rom"], ["--extra-output", "extra.p8"], ["--rename-map", "map.txt", "-m"], ["--version"]]
PROC64 = [[], [], ["-m"], ["-M"], ["-u"], ["--base64-pods"], ["--keep-pod-compression"], ["--avoid-base64"], ["--filter", "*.lua"], ["--extra-output", "extra.p64"], ["--extract", "main.lua", "got.lua"], ["--list"], ["-c"], ["--version"]]

def gen(r, ctx, i):
    files = {W.rstrip("/"): None}
    s = dict(files=files, auto=False, incs=False)
    if r.random() < 0.65:
        tool = "shrinko8"
        src = r.choice(("p8", "p8", "rom", "lua", "url", "tiny-rom", "js", "pod", "png", "clip", "code") if r.random() < 0.7 else ("p8", "rom", "lua"))
        cart = gen8.small(r, "lua") if r.random() < 0.8 else gen8.cart(r)
        enc = "p8" if src == "code" else src
        d = gen8.encode(cart, enc, r, name="in.p8", others=[("two.p8", gen8.small(r))] if r.random() < 0.5 and src in ("js", "pod") else ())
        while d is None: cart = gen8.small(r); d = gen8.encode(cart, enc, r, name="in.p8")
        if src in ("p8", "lua") and r.random() < 0.25:
            s["incs"] = True; files[W + "inc.lua"] = gen8.lua(r, 4).encode()
            code = "#include inc.lua\n" + gen8.lua(r, 3)
            d = ref8.write_p8(ref8.Cart(code)) if src == "p8" else code.encode()
        if src in ("p8", "lua", "code"):
            if r.random() < 0.15: d = d.replace(b"\n", r.choice((b"\r\n", b"\r\n", b"\r")))
            if r.random() < 0.15:
                k = d.find(b"\n", d.find(b"__lua__") + 1 if b"__lua__" in d else 0) + 1
                d = d[:k] + r.choice((b"--\xff\xe9", b"s=\"\xe9\x80\"", b"--\xc3", b"--\xed\xa0\x80")) + b"\n" + d[k:]
        s["data"] = d; s["F"] = src
        if src in ("p8", "png", "clip", "url", "lua") and r.random() < 0.25: s["F"] = None; s["auto"] = True
        out = r.choice(("p8", "rom", "lua", "url", "tiny-rom", "code", "p8", "rom")) if src not in ("png", "clip") or r.random() < 0.6 else r.choice(("png", "clip", "label", "spritesheet"))
        if out == "label" and not cart.label: out = "spritesheet"
        proc = list(r.choice(PROC8))
        if src in ("js", "pod") and r.random() < 0.4: proc = ["--cart", "two.p8" if r.random() < 0.5 else "in.p8"]
        if src in ("js", "pod") and r.random() < 0.2: proc = r.choice((["--list"], ["--dump", "dumped"])); out = None
        if r.random() < 0.12: out = None; proc = r.choice((["-l"], ["-c"], ["--input-count"], ["--version"])) if proc and proc[0] not in ("--list", "--dump") else proc or ["-l"]
    else:
        tool = "shrinkotron"
        src = r.choice(("p64", "p64", "rom", "rom", "lua", "png")); cart = gen64.small(r)
        if src == "png": cart.setdefault(".info.pod", gen64.info_file(r))
        d = cart["main.lua"] if src == "lua" else gen64.encode(cart, src, r)
        s["data"] = d; s["F"] = src
        if r.random() < 0.25: s["F"] = None; s["auto"] = True
        out = r.choice(("p64", "rom", "p64", "rom", "lua", "tiny-rom")) if src != "png" or r.random() < 0.6 else "png"
        proc = list(r.choice(PROC64))
        if proc == ["--list"]: out = None
        elif r.random() < 0.1: out = None; proc = r.choice((["--list"], ["-c"], ["--version"], ["-l"]))
    if out and proc and proc[0] in ("-c", "-l", "--input-count", "--version", "--list-includes") and r.random() < 0.5: proc = []
    if s["F"] == "tiny-rom": s["F"] = r.choice(("tiny-rom", "rom"))
    s["out"] = out; s["tool"] = tool; s["proc"] = proc; s["src"] = src
    vs = []
    for _ in range(r.choice((2, 3, 4))):
        v = {"i": r.choice(("stdin", "stdin", "url", "file")), "o": r.choice(("stdout", "file")), "faults": [], "knobs": {}}
        if v["i"] == "url" and s["incs"]: v["i"] = "stdin"
        if proc and proc[0] in ("-c", "-l", "--input-count", "--version", "--list-includes", "--list"): v["o"] = "file"     # (these print to standard output themselves)
        if not out: v["o"] = "none"
        if v["i"] == "file" and v["o"] != "stdout": v["i"] = "stdin"
        if v["i"] == "url":
            v["net"] = {"chunked": r.random() < 0.4, "seed": r.randrange(99)}
            v["url"] = r.choice(("http://carts.test/dl/in", "https://carts.test/x.php?a=1&b=%23c", "http://carts.test/in.p8", "http://carts.test/in.rom" if s["F"] else "http://carts.test/in"))
            if not s["F"]: v["url"] = "http://carts.test/dl/in"
            x = r.random()
            if x < 0.15: v["net"]["close"] = True
            elif x < 0.3: v["redirect"] = r.choice((301, 302, 303, 307, 308))
            elif x < 0.4 and src == "png": v["bbs"] = True
            y = r.random()
            if y < 0.25 and not v["net"].get("close"): v["net"]["cut"] = r.choice((0, 0.1, 0.5, 0.9, 0.999)); v["must_fail"] = v["net"]["cut"] < 0.95 and len(s["data"]) > 100 or not v["net"]["chunked"] and len(s["data"]) > 0    # (the end mark of the chunks may be all that is lost)
            elif y < 0.35: v["net"].pop("close", None); v["net"]["status"] = r.choice((400, 403, 404, 500, 503)); v["must_fail"] = True
        if r.random() < 0.6: v["knobs"] = plan.frag(r)
        if r.random() < 0.45: v["want_fault"] = r.choice(("in", "in", "out"))
        vs.append(v)
    s["variants"] = vs
    # place faults where the variant really reads and writes
    for v in vs:
        big = max(len(s["data"]), 400000 if out in ("png",) else 40000 if out else 0)
        for kk in ("read_chunk", "write_chunk"):
            c = v["knobs"].get(kk)
            if isinstance(c, int) and big // c > 5000: v["knobs"][kk] = "random"
        wf = v.pop("want_fault", None)
        if wf:
            k, r1, _ = run_variant(ctx, s, v)
            if wf == "in": ss = [x for x in plan.sites(r1.log) if x[3] == "<stdin>" or x[1] == "net"]
            else: ss = [x for x in plan.sites(r1.log) if x[3] == "<stdout>"]
            x = plan.pick(r, ss)
            if x: v["faults"] = [plan.fault(r, x)]
    return s

def step(s, v):
    pre = [["-F", s["F"]]] if s["F"] else []
    inp = {"stdin": "-", "file": "in.zz", "url": v.get("url")}[v["i"]]
    opts = []
    if v["i"] == "url": opts = [["--url"]]
    if v.get("bbs"): inp = "#cart_id-0"; opts = [["--bbs"]]; pre = []
    pos = [[inp]] + ([["-" if v["o"] == "stdout" else "res.zz"], ["-f", s["out"]]] if s["out"] else [])
    st = dict(tool=s["tool"], opts=pos + opts + pre + ([list(s["proc"])] if s["proc"] else []), stdin=s["data"] if v["i"] == "stdin" else b"")
    return st

def names(out, v):
    """Standard output with the input's name (in lint messages) made the same"""
    for n in ("in.zz", v.get("url") or "-", (v.get("url") or "-").replace("://", ":/"), "-", "#cart_id-0"): 
        out = b"\n".join(b"@" + l[len(n):] if l.startswith(n.encode() + b":") else l for l in out.split(b"\n"))
    return out

def run_variant(ctx, s, v):
    files = dict(s["files"]); net = {}
    if v["i"] == "file": files[W + "in.zz"] = s["data"]
    if v["i"] == "url":
        u = v["url"]
        if v.get("bbs"): u = "https://www.lexaloffle.com/bbs/get_cart.php?lid=cart_id-0&cat=%d" % (7 if s["tool"] == "shrinko8" else 8)
        body = dict(v.get("net") or {}, body=s["data"])
        if v.get("redirect"): net[u] = {"status": v["redirect"], "location": "http://other.test/final?x=1", "body": b""}; net["http://other.test/final?x=1"] = body
        else: net[u] = body
    k = ctx.kernel({"files": files, "net": net})
    r = ctx.step(k, step(s, v), faults=v["faults"], knobs=dict(v["knobs"]))
    return k, r, {p: d for p, d in k.snapshot().items() if p != W + "in.zz"}

def execute(s, ctx):
    base = {"i": "file", "o": "file" if s["out"] else "none", "faults": [], "knobs": {}}
    k, b, want = run_variant(ctx, s, base)
    wout = want.pop(W + "res.zz", None)
    ctx.probes["base_ok" if b.status == 0 else "base_fails"] += 1
    if b.status == 0 and s["out"] and wout is None: return Viol("missing", "the run with files succeeds without an output", dict(s, variants=[]))
    for v in s["variants"]:
        k, r, snap = run_variant(ctx, s, v)
        sp = dict(s, variants=[v])
        what = "%s to %s %s" % (v.get("url") or v["i"], v["o"], common.where(r) or {a: x for a, x in v.items() if a in ("net", "redirect", "knobs") and x})
        if r.status == "hang": return Viol("hang", "the run does not end: " + what, sp)
        hard = [f for f in r.fired if f["f"] not in ("short",)]
        ctx.probes["%s_to_%s%s" % (v["i"], v["o"], "_faulted" if hard or v.get("must_fail") else "")] += 1
        if v.get("must_fail"):
            if r.status == 0: return Viol("accepted", "exit 0 although the download failed: %s" % what, sp)
            continue
        if hard:
            if r.status != 0: continue
            if b.status != 0: return Viol("accepted", "exit 0 only because of a fault: %s" % what, sp)
        elif r.status != b.status:
            return Viol("status", "exit status %s with files, %s with %s: %s" % (b.status, r.status, what, common.tail(r) if r.status else common.tail(b)), sp)
        if b.status != 0: continue
        gout = snap.pop(W + "res.zz", None)
        if s["out"]:
            got = r.out if v["o"] == "stdout" else gout
            if got != wout: return Viol("silent" if hard else "bytes", "%s gives %s instead of %s" % (what, frame.brief(got), frame.brief(wout)), sp)
        if v["o"] != "stdout" and names(r.out, v) != names(b.out, v): return Viol("output", "%s prints %s instead of %s" % (what, frame.brief(r.out), frame.brief(b.out)), sp)
        if v["o"] == "stdout" and gout is not None: return Viol("bytes", "%s also writes res.zz" % what, sp)
        for p in sorted(set(want) | set(snap)):
            if p != W + "-" and want.get(p, "missing") == snap.get(p, "missing"): continue
            return Viol("silent" if hard else "bytes", "%s: %s differs from the run with files" % (what, p), sp)
    return None

def key(s): return "%s/%s/%s/%s" % (s["F"], s["src"], s["out"], sorted("%s %s %s %s" % (v["i"], v["o"], [f["f"] for f in v["faults"]], v.get("must_fail")) for v in s["variants"]))
def shrink(s):
    for c in frame.drop_each(s["variants"], 1): yield dict(s, variants=c)
    for i, v in enumerate(s["variants"]):
        w = lambda **kw: dict(s, variants=s["variants"][:i] + [dict(v, **kw)] + s["variants"][i + 1:])
        if v["knobs"]: yield w(knobs={})
        if v["faults"]: yield w(faults=[])
        if v.get("redirect"): yield w(redirect=None)
    if s["proc"]: yield dict(s, proc=[])
def describe(s): return {"tool": s["tool"], "src": s["src"], "F": s["F"], "out": s["out"], "proc": s["proc"], "variants": s["variants"]}
