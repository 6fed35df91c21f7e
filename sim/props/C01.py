"""C01: a successful exit means every requested output is complete"""
from .. import frame, genc, plan
from ..frame import Viol
from . import common

NV = 4
def gen(r, ctx, i):
    c = genc.command(r, p64=0.35)
    spec = c.spec()
    if r.random() < 0.2: spec["listing"] = r.choice(("reverse", "shuffle"))
    k, _, base = common.run_cmd(ctx, spec)
    # a failing stat counts as "not there", as everywhere in Python, so those are left out here
    ss = [s for s in plan.sites(base.log) if s[1] != "stat"]; nops = len(base.log)
    vs = []
    for j in range(NV):
        v = {"faults": [], "knobs": {}}
        x = r.random()
        if x < 0.15: v["knobs"] = plan.cap_frag(plan.frag(r), spec, base.log)
        elif x < 0.3:
            n = sum(d for name, p, d in base.log if name == "write" and p.startswith("/sim"))
            v["knobs"]["disk_free"] = r.choice((0, 1, n // 2, max(0, n - 1), r.randrange(n + 1)))
            if r.random() < 0.4: v["knobs"].update(plan.cap_frag(plan.frag(r), spec, base.log))
        elif x < 0.38: v["faults"].append({"at": r.randrange(nops), "f": r.choice(("int", "memory", "int_after", "crash", "crash_after"))})
        else:
            for _ in range(r.choice((1, 1, 1, 2, 3))):
                s = plan.pick(r, ss)
                if s: v["faults"].append(plan.fault(r, s, extra=("short",) if s[1] in ("read", "write") else ()))
            if r.random() < 0.15: v["knobs"] = plan.cap_frag(plan.frag(r), spec, base.log)
            for f in v["faults"]:
                if f["f"] == "short": f["n"] = r.choice((1, 2, 100))
        vs.append(v)
    spec["net_cut"] = r.choice((0.2, 0.6, 0.95, 0.999)) if spec["net"] and r.random() < 0.7 else None
    spec["variants"] = vs
    return spec

def outputs(k, spec, r):
    snap = k.snapshot(); out = {}
    for p in spec["outs"]: out[p] = snap.get(p, "missing")
    for d in spec["dirs"]:
        out[d] = "dir" if d in snap else "missing"
        for p, v in snap.items():
            if p.startswith(d + "/"): out[p] = "dir" if v is None else v
    if spec["stdout"]: out["<stdout>"] = r.out
    return out

ABSORBED = {"short"}
def execute(spec, ctx):
    k, _, base = common.run_cmd(ctx, spec)
    want = outputs(k, spec, base)
    if base.status == 0:
        for p, fmt in spec["outs"].items():
            d = want[p]
            w = "missing" if not isinstance(d, bytes) else genc.validate(spec["tool"], fmt, d)
            if w: return Viol("incomplete", "exit 0 without any fault, but output %s (%s) is not complete: %s" % (p, fmt, w), dict(spec, variants=[]))
        for d in spec["dirs"]:
            if want[d] != "dir": return Viol("incomplete", "exit 0 without any fault, but directory %s is missing" % d, dict(spec, variants=[]))
        if spec["stdout"]:
            w = genc.validate(spec["tool"], spec["stdout"], base.out)
            if w: return Viol("incomplete", "exit 0 without any fault, but standard output (%s) is not complete: %s" % (spec["stdout"], w), dict(spec, variants=[]))
    todo = list(spec["variants"])
    if spec.get("net_cut") is not None: todo.append({"net_cut": spec["net_cut"]})
    for v in todo:
        sp = dict(spec, variants=[v] if "net_cut" not in v else [], net_cut=v.get("net_cut"))
        if "net_cut" in v: kspec = dict(spec, net={u: dict(x, cut=v["net_cut"]) for u, x in spec["net"].items()})
        else: kspec = spec
        k = ctx.kernel(kspec)
        r = ctx.step(k, spec["cmd"], faults=v.get("faults") or (), knobs=dict(v.get("knobs") or {}))
        fired = [f for f in r.fired]
        what = common.where(r) or "fragmentation %s" % (v.get("knobs"),)
        if r.status == "hang": return Viol("hang", "the run does not end after: " + what, sp)
        hard = [f for f in fired if f["f"] not in ABSORBED]
        if not hard and r.status != base.status:
            return Viol("short", "partial reads/writes (%s) change the exit status from %s to %s: %s" % (what, base.status, r.status, common.tail(r)), sp)
        if r.status == 0 and any(r.log[f["at"]][0] in ("stat", "access", "fstat") for f in hard): continue
        if r.status == 0 or not hard:
            if base.status != 0 and r.status == 0:
                return Viol("silent", "exit 0 only because of a fault (%s); without it: %s" % (what, common.tail(base)), sp)
            if base.status != 0: continue
            got = outputs(k, spec, r)
            ctx.probes["successful_despite_fault" if hard else "fragmented_same"] += 1
            for p in sorted(set(want) | set(got)):
                a, b = want.get(p, "missing"), got.get(p, "missing")
                if a != b:
                    return Viol("silent" if hard else "short", "exit %s although %s: output %s is %s, should be %s" % (
                        r.status, what, p, b if isinstance(b, str) else frame.brief(b), a if isinstance(a, str) else frame.brief(a)), sp)
        elif hard:
            ctx.probes["failure_reported"] += 1
            if r.status not in ("crash", 130) and not any(r.log[f["at"]][1] in ("<stderr>", "<stdout>") for f in fired) and not (r.err or r.out):
                return Viol("mute", "the run failed (status %s) after %s without printing anything" % (r.status, what), sp)
    return None

def key(spec):
    return "%s/%s/%s/%s" % (spec["tool"], spec["kind"], sorted(spec["outs"].values()), sorted(f["f"] + f.get("on", "").split(" ")[0] for v in spec["variants"] for f in v.get("faults", ())))

def shrink(spec): yield from frame.shrink_generic(spec)
def describe(spec): return dict(common.describe_cmd(spec), variants=spec["variants"])
