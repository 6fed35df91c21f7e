"""C08: output depends only on the command and its inputs"""
import re
from .. import frame, gen8, gen64, genc, plan, ref8
from ..frame import Viol
from . import common

W = genc.W
FOCUS = [["-m"], ["-m"], ["-M"], ["-m", "-oc"], ["-m", "-ob"], ["-m", "-ot"], ["-m", "-oc", "-ob"], ["-m", "--no-minify-reorder"], ["-m", "--rename-members-as-globals"], ["-m", "--no-minify-spaces"],
         ["-m", "--rename-safe-only"], ["-m", "--reorder-safe-only"], ["-m", "--builtins-safe-only"], ["-U"], ["-M", "-U"], ["-m", "--no-minify-rename"]]

def ties(r, n=None, builtins=True):
    """Lua with many names used equally often, so that any unstable ordering shows"""
    pool = set()
    while len(pool) < r.choice((6, 20, 60)): pool.add("".join(r.choice("abcdefghijklmnop_") for _ in range(r.choice((1, 2, 3, 5, 9)))))
    pool = sorted(p for p in pool if p not in ("do", "if", "in", "or", "_") and not p.startswith("_"))
    r.shuffle(pool)
    times = r.choice((1, 2, 3))
    out = []; ids = pool * times
    if r.random() < 0.5: r.shuffle(ids)
    if r.random() < 0.3: out.append("--preserve: %s" % ",".join(r.sample(pool, min(3, len(pool)))))
    if r.random() < 0.3: out.append("--[[%s]]x_0=1" % r.choice(("global", "member", "const")))
    if r.random() < 0.3: out.append("--lint: %s" % ", ".join(r.sample(pool, min(3, len(pool)))))
    it = iter(ids)
    nx = lambda: next(it, pool[0])
    while True:
        try: a = next(it)
        except StopIteration: break
        k = r.randrange(16)
        if k == 0: out.append("%s=%s" % (a, nx()))
        elif k == 1: out.append("local %s,%s=%s" % (a, nx(), nx()))
        elif k == 2: out.append("function %s(%s,%s) return %s end" % (a, nx(), nx() + "_2", nx()))
        elif k == 3: out.append("%s.%s=%s" % (a, nx(), nx()))
        elif k == 4: out.append("for %s in all(%s) do %s() end" % (a, nx(), nx()))
        elif k == 5: out.append("%s={%s=%s,%s=%s}" % (a, nx(), nx(), nx(), nx()))
        elif k == 6: out.append("function %s:%s() self.%s+=1 end" % (a, nx(), nx()))
        elif k == 7: out.append("goto %s ::%s::" % (("l_" + a,) * 2))
        elif k == 8: out.append("do local %s=%d local %s=%s[%s] end" % (a, r.randrange(100), nx(), a, nx()))
        elif k == 9: out.append("%s(%r,\"%s\")" % (a, r.choice(("hello", "a b", "it")), nx()))
        elif k == 10: out.append("if %s>%s then %s() else %s() end" % (a, nx(), nx(), nx()))
        elif k == 11: out.append("local %s<const>=%d" % (a + "_c", r.randrange(9)) if False else "local %s=%s" % (a, nx()))
        elif k == 12: out.append("%s,%s=%s,%s" % (a, nx(), nx(), nx()))
        elif k == 13: out.append("%s(%s(%s),%s)" % (r.choice(("print", "add", "del", "rnd")) if builtins else a, r.choice(("flr", "sin", "cos", "sqrt")), nx(), nx()))
        elif k == 14: out.append("add(%s,function(%s) return %s..%s end)" % (a, nx(), nx(), nx()))
        else: out.append("%s=%s*%s+%s" % (a, nx(), nx(), nx()))
    return gen8.safe_lines("\n".join(out))

def tied(r):
    c = genc.Cmd(); c.kind = "ties"
    if r.random() < 0.7:
        code = ties(r)
        if r.random() < 0.5: code = code + "\n" + gen8.lua(r)
        cart = ref8.Cart(code)
        if r.random() < 0.5: c.files[W + "in.lua"] = code.encode(); inp = "in.lua"
        else: c.files[W + "in.p8"] = ref8.write_p8(cart); inp = "in.p8"
        fmt = r.choice(("p8", "lua", "rom", "url", "tiny-rom"))
        out = "res" + gen8.EXT[fmt]
        c.opts = [[inp], [out], list(r.choice(FOCUS))] + ([["-f", fmt]] if fmt == "tiny-rom" else [])
        for o in (["-c"], ["--rename-map", "map.txt"], ["-l", "--no-lint-fail"], ["-p", "player,score,x*"], ["--no-preserve", "circfill,rectfill,spr"], ["--builtin", "aa,bb,cc"], ["--not-builtin", "flr,sin"],
                  ["--global-builtins-only"], ["--local-builtin", "foo,bar"], ["--lint-global", "x,y,t"], ["--const", "DBG", "true", "--const", "N", "5"], ["--error-format", "tabbed"], ["--fast-compression"],
                  ["--old-compression"], ["--keep-compression"], ["--trace-compression", "trace.csv"]):
            if r.random() < 0.12 and not (o[0] == "--keep-compression" and "-m" in sum(c.opts, [])): c.opts.append(list(o))
        if r.random() < 0.1:
            # errors: many at once
            c.opts[2] = ["-l"]; 
    else:
        c.tool = "shrinkotron"
        cart = gen64.small(r)
        for p in list(cart):
            if p.endswith(".lua"): cart[p] = ties(r, builtins=False).encode()
        extra = ["src/m%d.lua" % i for i in range(r.randrange(4))]
        if extra: cart["src/"] = None
        for p in extra: cart[p] = ties(r, builtins=False).encode()
        cart["main.lua"] = ("\n".join("include(\"%s\")" % p for p in extra) + "\n" + ties(r, builtins=False)).encode()
        cart = gen64.order(cart)
        src = r.choice(("p64", "rom", "dir", "dir")); fmt = r.choice(("p64", "rom", "dir"))
        inp, _ = genc.put64(c, r, src, "in", cart)
        out = "res" + gen64.EXT[fmt]
        c.opts = [[inp], [out], list(r.choice((["-m"], ["-m"], ["-M"], ["-U"], ["-c"], ["-m", "--rename-members-as-globals"])))] + ([["-f", "dir"]] if fmt == "dir" else [])
        for o in (["-c"], ["--rename-map", "map.txt"], ["-l", "--no-lint-fail"], ["-p", "player,score,x*"], ["--delete-meta", "src/*,*.pod"], ["--keep-meta-keys", "runtime,title,a*"], ["--code-files", "*.lua,!src/a.lua"], ["--filter", "*.lua,*.pod"]):
            if r.random() < 0.15: c.opts.append(list(o))
    return c

def gen(r, ctx, i):
    c = tied(r) if r.random() < 0.5 else genc.command(r, p64=0.4)
    s = c.spec()
    dated = c.dirs and "bin" in c.dirs.values()
    if dated and r.random() < 0.5:
        s["cmd"]["env"] = dict(s["cmd"]["env"] or {}, PICO8_EXPORT_REPRO_TIME=str(r.choice((1.5e9, 1234567890, 951782400)))); dated = False
    s["dated"] = bool(dated)
    vs = []
    for _ in range(r.choice((2, 3))):
        v = {}
        pick = r.sample(("hash", "hash", "listing", "clock", "cwd", "rseed", "again", "abs", "env"), r.choice((1, 1, 2, 3)))
        for p in pick:
            if p == "hash": v["hash"] = r.choice((4242, 77))
            if p == "listing": v["listing"] = r.choice(("reverse", "shuffle", "shuffle")); v["kseed"] = r.randrange(1 << 20)
            if p == "clock" and not dated: v["clock"] = r.choice((0, 1, 9.5e8, 1.9e9, 4e9)); v["clock_plan"] = {"tick": r.choice((0, 1e-3, 70)), "jumps": [[r.randrange(9), r.choice((-1e6, 86400, 3e7))]]}
            if p == "cwd": v["cwd"] = r.choice(("/sim/x", "/sim/a b/c\u3042/d", "/sim/" + "deep/" * 20 + "d", "/sim/work2"))
            if p == "rseed": v["rseed"] = r.randrange(1, 1 << 20)
            if p == "again" and c.kind not in ("inplace", "edit", "merge"): v["again"] = True
            if p == "abs": v["abs"] = True
            if p == "env": v["env"] = r.choice(({"LANG": "C"}, {"COLUMNS": "20", "HOME": "/nowhere"}, {"PYTHONPATH": "/sim/tmp", "USER": "x", "PWD": "/"}, {"LC_ALL": "tr_TR.UTF-8"}))
        if v: vs.append(v)
    s["variants"] = vs or [{"rseed": 5}]
    return s

def rebase(p, cwd): return cwd + p[len("/sim/work"):] if frame.under(p, "/sim/work") else p

def run_variant(ctx, spec, v):
    cwd = v.get("cwd", "/sim/work"); st = spec["cmd"]; sp = dict(spec)
    if v.get("cwd"):
        sp["files"] = {rebase(p, cwd): d for p, d in spec["files"].items()}
        sp["files"].setdefault(cwd, None)
    for a in ("listing", "kseed", "clock", "clock_plan"):
        if a in v: sp[a] = v[a]
    if v.get("abs"):
        known = set(p[len(W):] for p in list(spec["outs"]) + list(spec["dirs"]) + list(spec["files"]) if p.startswith(W))
        st = dict(st, opts=[[cwd + "/" + a if a in known and (j or not a.startswith("-")) else a for j, a in enumerate(g)] for g in st["opts"]])
    if v.get("env"): st = dict(st, env=dict(st.get("env") or {}, **v["env"]))
    over = dict(cwd=cwd)
    if "rseed" in v: over["rseed"] = v["rseed"]
    if v.get("hash") is not None and not v.get("again"):
        snap, r = ctx.elsewhere(v["hash"], {a: sp[a] for a in ("files", "links", "net", "listing", "kseed", "clock", "clock_plan") if a in sp}, st, **over)
    else:
        k = ctx.kernel(sp)
        r = ctx.step(k, st, **over)
        if v.get("again"): r = ctx.step(k, st, **over)
        snap = k.snapshot()
    if v.get("cwd"): snap = {p.replace(cwd, "/sim/work", 1) if frame.under(p, cwd) else p: d for p, d in snap.items() if not (cwd.startswith(p + "/") and p != "/sim/work")}
    return snap, r

def execute(spec, ctx):
    k = ctx.kernel(spec)
    base = ctx.step(k, spec["cmd"]); want = k.snapshot()
    if base.status == "hang": return Viol("hang", "the run does not end", dict(spec, variants=[]))
    ctx.probes["base_ok" if base.status == 0 else "base_fails"] += 1
    for v in spec["variants"]:
        snap, r = run_variant(ctx, spec, v)
        sp = dict(spec, variants=[v])
        for x in v: ctx.probes["varied_" + x] += 1
        what = "with %s" % ", ".join("%s=%s" % x for x in sorted(v.items()))
        if r.status != base.status:
            return Viol("status", "exit status %s becomes %s %s: %s" % (base.status, r.status, what, common.tail(r)), sp)
        ignore_out = v.get("abs") or v.get("again") and base.status != 0
        if r.out != base.out and not ignore_out:
            i = next((j for j in range(min(len(r.out), len(base.out))) if r.out[j] != base.out[j]), min(len(r.out), len(base.out)))
            return Viol("output", "standard output changes %s: at byte %d %s instead of %s" % (what, i, frame.brief(r.out[max(0, i - 20):], 80), frame.brief(base.out[max(0, i - 20):], 80)), sp)
        if base.status not in (0, 1) and v.get("again"): continue
        for p in sorted(set(want) | set(snap)):
            a, b = want.get(p, "missing"), snap.get(p, "missing")
            if p == "/sim/work" or a == b: continue
            if v.get("abs") and p == W + "trace.csv": continue
            if isinstance(a, bytes) and isinstance(b, bytes):
                i = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), min(len(a), len(b)))
                return Viol("bytes", "%s changes %s: byte %d of %d/%d: %s instead of %s" % (p, what, i, len(b), len(a), frame.brief(b[max(0, i - 30):], 100), frame.brief(a[max(0, i - 30):], 100)), sp)
            return Viol("bytes", "%s changes %s: %s instead of %s" % (p, what, b if isinstance(b, str) else frame.brief(b), a if isinstance(a, str) else frame.brief(a)), sp)
    return None

def key(spec): return "%s/%s/%s/%s" % (spec["tool"], spec["kind"], sorted(x for o in spec["cmd"]["opts"] for x in o if x.startswith("-")), sorted(x for v in spec["variants"] for x in v))

def shrink(spec):
    yield from frame.shrink_generic(spec)
    for i, v in enumerate(spec["variants"]):
        for x in v:
            if len(v) > 1: yield dict(spec, variants=spec["variants"][:i] + [{a: b for a, b in v.items() if a != x}] + spec["variants"][i + 1:])
    for p, d in spec["files"].items():
        if p.endswith((".lua", ".p8")) and d and len(d) < 20000:
            for t in frame.shrink_lines(d): yield dict(spec, files=dict(spec["files"], **{p: t}))

def describe(spec): return dict(common.describe_cmd(spec), variants=spec["variants"])
