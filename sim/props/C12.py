"""C12: concurrent runs with different outputs do not disturb each other"""
import random
from .. import frame, gen8, gen64, genc, plan, ref8, ref64
from ..frame import Viol, argv_of
from . import C08, common

W = genc.W
PARENTS = ["", "", "out/", "out/", "out/deep/", "out/deep/er/", "ready/"]

def shared(r):
    """Inputs every run may read"""
    f = {W + "ready": None}
    cart = gen8.small(r, "lua")
    f[W + "in.p8"] = gen8.encode(cart, "p8", r); f[W + "in.rom"] = gen8.encode(gen8.small(r, "lua"), "rom", r)
    f[W + "inc.lua"] = gen8.lua(r, 4).encode()
    f[W + "main.lua"] = ("#include inc.lua\n" + C08.ties(r)).encode()
    f[W + "in.js"] = gen8.encode(cart, "js", r, name="one.p8", others=[("two.p8", gen8.small(r)), ("sub/3.p8", gen8.small(r))])
    f[W + "in.pod"] = gen8.encode(cart, "pod", r, name="one.p8", others=[("two.p8", gen8.small(r))])
    f[W + "pico8.dat"] = gen8.dat(0); f[W + "picotron.dat"] = gen64.dat(0)
    c64 = gen64.small(r)
    f[W + "in.p64"] = gen64.encode(c64, "p64", r)
    gen64.put(f, gen64.small(r), "dir", W + "cart64", r)
    return f

def parent(r, depth=True): return r.choice(PARENTS)

def command(r, j, files):
    d = "%d" % j
    ready = lambda p: "ready/" if p == "ready/" else ""
    env = None; tool = "shrinko8"; outs = []
    def out(ext):       # a file: its directory has to exist
        p = r.choice(("", "ready/")) + "o" + d + ext; outs.append(p); return p
    def odir(ext=""):   # a directory: made with its parents
        p = parent(r) + "d" + d + ext; outs.append(p); return p
    k = r.choice(("conv", "conv", "min", "map", "multi", "merge", "bin", "dump", "dump", "dumpdat", "edit", "inplace", "p64dir", "p64dir", "p64dir", "p64", "extract", "insert", "bin64", "dump64", "html", "job"))
    if k == "conv": o = [[r.choice(("in.p8", "in.rom", "main.lua"))], [out(r.choice((".p8", ".rom", ".lua", ".url")))]]
    if k == "min": o = [[r.choice(("in.p8", "main.lua"))], [out(r.choice((".p8", ".rom", ".lua")))], r.choice((["-m"], ["-M"], ["-U"], ["-m", "-c"]))]
    if k == "map": m = out(".txt"); o = [["main.lua"], [out(".p8")], ["-m", "--rename-map", m]]
    if k == "multi": o = [["in.p8"], [out(".p8")]] + [["--extra-output", out(".x%d.rom" % i)] for i in range(r.randint(1, 3))]
    if k == "merge": o = [["in.p8"], [out(".p8")], ["--merge", "in.rom", "gfx,map"]]
    if k == "bin": o = [["in.p8"], [odir(".bin")], ["-f", "bin"], ["--pico8-dat", "pico8.dat"]]; env = {"PICO8_EXPORT_REPRO_TIME": "1500000000"}
    if k == "dump": o = [[r.choice(("in.js", "in.pod"))], ["--dump", odir()]] + ([["-f", r.choice(("rom", "lua"))]] if r.random() < 0.5 else [])
    if k == "dumpdat": o = [["pico8.dat"], ["--dump", odir()], ["--dump-misc-too"]]
    if k == "edit":
        e = "ed%s.js" % d; files[W + e] = files[W + "in.js"]; outs.append(e)
        o = r.choice(([["in.p8"], [e], ["--insert-cart", "new.p8"]], [["in.rom"], [e], ["--replace-cart", "two.p8"]], [[e], ["--delete-cart", "two.p8"]], [[e], ["--rename-cart", "two.p8", "z.p8"]]))
    if k == "inplace":
        e = "ip%s.p8" % d; files[W + e] = files[W + "in.p8"]; outs.append(e); o = [[e], ["-i"], ["-m"]]
    if k == "job": o = [["in.p8"], [out(".js")], ["--pico8-dat", "pico8.dat"]]
    if k in ("p64dir", "p64", "extract", "insert", "bin64", "dump64", "html"): tool = "shrinkotron"
    src = r.choice(("in.p64", "cart64"))
    if k == "p64dir": o = [[src], [odir()], ["-f", "dir"]] + ([["-m"]] if r.random() < 0.3 else [])
    if k == "p64": o = [[src], [out(r.choice((".p64", ".rom")))]]
    if k == "extract": o = [[src], ["--extract", "main.lua", out(".lua")]]
    if k == "insert": o = [["in.p64"], [odir()], ["-f", "dir"], ["--insert", "cart64", "lib"]]
    if k == "bin64": o = [[src], [odir(".bin")], ["--picotron-dat", "picotron.dat"]]; env = {"PICO8_EXPORT_REPRO_TIME": "1500000000"}
    if k == "dump64": o = [["picotron.dat"], ["--dump", odir()]]
    if k == "html": o = [[src], [out(".html")], ["--picotron-dat", "picotron.dat"]]
    if k in ("p64dir", "dump", "dumpdat", "dump64", "bin", "insert") and r.random() < 0.4:
        o.append(["--clean-output-dir"])
        if r.random() < 0.5:
            for q in ("stale.txt", "old/stale.txt"): files[W + outs[0] + "/" + q] = b"stale"
    return dict(tool=tool, opts=o, env=env, outs=outs)

def gen(r, ctx, i):
    files = shared(r)
    n = r.choice((2, 2, 3, 3, 4, 5))
    steps = [command(r, j, files) for j in range(n)]
    if r.random() < 0.3:    # the same command several times, with its own output each
        t = r.choice(steps); j0 = steps.index(t)
        for j in range(n):
            if j == j0 or r.random() < 0.4: continue
            def own(a): return a.replace("/d%d" % j0, "/d%d" % j).replace("/o%d" % j0, "/o%d" % j) if "/" in a else a.replace("o%d." % j0, "o%d." % j) if a.startswith("o%d." % j0) else a.replace("d%d" % j0, "d%d" % j) if a.startswith("d%d" % j0) else a
            if any(o.startswith(("ed", "ip")) for o in t["outs"]): continue
            for p in steps[j]["outs"]:
                for q in [q for q in files if frame.under(q, W + p) and q not in (W + "ready",)]: del files[q]
            steps[j] = dict(t, opts=[[own(a) if a in t["outs"] else a for a in g] for g in t["opts"]], outs=[own(a) for a in t["outs"]])
    used = " ".join(a for s in steps for g in s["opts"] for a in g) + (" inc.lua" if any(["main.lua"] in s["opts"] for s in steps) else "")
    for p in list(files):
        top = p[len(W):].split("/")[0]
        if top in ("in.p8", "in.rom", "in.js", "in.pod", "inc.lua", "main.lua", "pico8.dat", "picotron.dat", "in.p64", "cart64") and top not in used: del files[p]
    if r.random() < 0.7:    # one run's output directory holds another's
        outer = [j for j, t in enumerate(steps) if t["opts"][0][0] != t["outs"][0] and t["outs"][0].rsplit("/", 1)[-1] == "d%d" % j and ["--clean-output-dir"] not in t["opts"]]
        if outer:
            a = r.choice(outer); new = r.choice(("out", "out/deep", "out/deep/er"))
            old = steps[a]["outs"][0]; inner = [t["outs"][0] for t in steps if t is not steps[a] and t["outs"][0].startswith(new + "/")]
            if inner and not any(o == new or new.startswith(o + "/") for t in steps for o in t["outs"]) and not any(q == W + new for q in files):
                for q in [q for q in files if frame.under(q, W + old)]: del files[q]
                steps[a] = dict(steps[a], opts=[[new if x == old else x for x in g] for g in steps[a]["opts"]], outs=[new] + steps[a]["outs"][1:], nest=True)
    spec = dict(files=files, steps=steps, policy=r.choice(("uniform", "burst", "priority", "lockstep", "conflict", "conflict", "conflict")), sseed=r.randrange(1 << 30), listing=r.choice(("sorted", "shuffle")), order=None, killed=None)
    if r.random() < 0.3: spec["killed"] = {"at": r.choice((1, 5, 10, 20, 30, 60)), "f": r.choice(("crash", "int", "EIO", "ENOSPC", "memory", "crash_after"))}
    return spec

CHANGES = ("mkdir", "rmdir", "unlink", "rename", "symlink")
def meetings(logs, r):
    """Places where one run may act between two calls of another that concern the same path: (run, its call, other run, its changing call)"""
    touch = {}
    for j, log in enumerate(logs):
        for i, (name, path, det) in enumerate(log): touch.setdefault(path, []).append((j, i, name, name in CHANGES or name == "open" and "w" in det))
    out = []
    for path, ts in touch.items():
        if not path.startswith("/sim/work"): continue
        for j, i, name, ch in ts:
            if not ch: continue
            out += [(j2, i2, j, i) for j2, i2, _, _ in ts if j2 != j]
    return sorted(out)

def conflict(logs, r):
    ms = meetings(logs, r); r.shuffle(ms)
    if r.random() < 0.5:    # (first, those where both make, or both remove, the same thing)
        same = lambda m: logs[m[0]][m[1]][0] == logs[m[2]][m[3]][0]
        ms = [m for m in ms if same(m)] + [m for m in ms if not same(m)]
    plan = ms[:r.choice((1, 1, 2, 3))]; done = [0] * len(logs)
    def order(live):
        while plan:
            j2, i2, j, i = plan[0]
            if done[j2] <= i2 and j2 in live: done[j2] += 1; return j2
            if done[j] <= i and j in live: done[j] += 1; return j
            plan.pop(0)
        j = r.choice(live); done[j] += 1; return j
    return order

def scheduler(spec, n, logs=()):
    if spec.get("order") is not None:
        it = iter(spec["order"])
        def order(live):
            for i in it:
                if i in live: return i
            return live[0]
        return order
    r = random.Random(spec["sseed"]); pol = spec["policy"]
    if pol == "conflict": return conflict(logs, r)
    if pol == "uniform": return lambda live: r.choice(live)
    if pol == "lockstep":
        c = [0]
        def lock(live): c[0] += 1; return live[c[0] % len(live)]
        return lock
    if pol == "burst":
        st = [None, 0]
        def burst(live):
            if st[0] not in live or st[1] <= 0: st[0] = r.choice(live); st[1] = r.choice((1, 2, 5, 20, 60))
            st[1] -= 1; return st[0]
        return burst
    pr = list(range(n)); r.shuffle(pr); changes = sorted(r.randrange(250) for _ in range(4)); c = [0]
    def prio(live):
        c[0] += 1
        while changes and c[0] > changes[0]:
            changes.pop(0); top = max(live, key=lambda i: pr[i]); pr[top] = -len(changes) - c[0]
        return max(live, key=lambda i: pr[i])
    return prio

def execute(spec, ctx):
    n = len(spec["steps"]); alone = []
    base = ctx.kernel(spec).snapshot()
    for j, s in enumerate(spec["steps"]):
        k = ctx.kernel(spec)
        r = ctx.step(k, s, faults=[spec["killed"]] if j == 0 and spec["killed"] else ())
        if r.status == "hang": return Viol("hang", "a run alone does not end")
        alone.append((r, frame.diff_snap(base, k.snapshot()), k.snapshot()))
    k = ctx.kernel(spec); trace = []
    sp = [dict(tool=s["tool"], argv=argv_of(s), env=s.get("env"), faults=[spec["killed"]] if j == 0 and spec["killed"] else ()) for j, s in enumerate(spec["steps"])]
    rs = ctx.run_many(k, sp, scheduler(spec, n, [a.log for a, _, _ in alone]), trace)
    got = k.snapshot()
    order = [i for i, _ in trace]
    ctx.probes["switches"] += sum(1 for a, b in zip(order, order[1:]) if a != b); ctx.probes["calls"] += len(order)
    narrow = dict(spec, order=order)
    for j, (r, (a, _, _)) in enumerate(zip(rs, alone)):
        what = "run %d (%s %s) among %d concurrent runs" % (j, spec["steps"][j]["tool"], " ".join(argv_of(spec["steps"][j])), n)
        if j == 0 and spec["killed"]: continue
        ctx.probes["ok" if a.status == 0 else "failed_alone"] += 1
        if r.status != a.status: return Viol("status", "%s exits with %s instead of %s: %s" % (what, r.status, a.status, r.last.err[-300:].decode("utf-8", "replace")), narrow)
        if r.out != a.out: return Viol("output", "%s prints %s instead of %s" % (what, frame.brief(r.out), frame.brief(a.out)), narrow)
    dirty = [W + p for p in spec["steps"][0]["outs"]] if spec["killed"] else []
    want = dict(base)
    for j, (r, diff, snap) in enumerate(alone):
        if j == 0 and spec["killed"]: continue
        for p, how in diff.items():
            if how == "deleted": want.pop(p, None)
            else: want[p] = snap[p]
    for p in sorted(set(want) | set(got)):
        a, b = want.get(p, "missing"), got.get(p, "missing")
        if a == b or any(frame.under(p, q) or q.startswith(p + "/") for q in dirty): continue
        f = lambda x: x if isinstance(x, str) else "a directory" if x is None else frame.brief(x)
        return Viol("bytes", "after %d concurrent runs %s is %s instead of %s" % (n, p, f(b), f(a)), narrow)
    return None

def key(spec): return "%s/%s/%s" % (sorted(str([a for g in s["opts"] for a in g if a.startswith("-")]) + s["opts"][0][0] for s in spec["steps"]), spec["policy"], spec["killed"] and spec["killed"]["f"])
def shrink(spec):
    o = spec.get("order")
    if o is not None:
        # fewer switches: give one run's stretch to after the next one
        runs = []
        for i in o:
            if runs and runs[-1][0] == i: runs[-1][1] += 1
            else: runs.append([i, 1])
        flat = lambda rr: [i for i, c in rr for _ in range(c)]
        if len(runs) > 1:
            for k in (len(runs) // 2, len(runs) // 4, 4, 1):
                if k < 1: continue
                for a in range(0, len(runs), k):
                    seg = sorted(runs[a:a + k], key=lambda x: x[0])
                    if seg != runs[a:a + k]: yield dict(spec, order=flat(runs[:a] + seg + runs[a + k:]))
    if len(spec["steps"]) > 2:
        for j in range(len(spec["steps"])):
            if spec["killed"] and j == 0: continue
            ren = lambda i: i - (i > j)
            yield dict(spec, steps=spec["steps"][:j] + spec["steps"][j + 1:], order=[ren(i) for i in o if i != j] if o is not None else None)
    if spec["killed"]: yield dict(spec, killed=None)
    if spec["listing"] != "sorted": yield dict(spec, listing="sorted")
def describe(spec): return {"runs": [[s["tool"]] + argv_of(s) for s in spec["steps"]], "policy": spec["policy"], "killed": spec["killed"]}
