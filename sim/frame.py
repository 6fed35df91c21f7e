"""What all property checks share: statistics, violations, scenario minimisation"""
import collections, copy, hashlib, os, random, re, struct, subprocess, sys, traceback, time as _time
from . import kernel as K, ref8, runner
from .frontend import Real, send_msg, recv_msg

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Away: """Result of a run in another interpreter"""

class Viol:
    """A violation. kind: the class that must persist while minimising; msg: what happened; narrow: a smaller spec, if known"""
    def __init__(m, kind, msg, narrow=None): m.kind, m.msg, m.narrow = kind, msg, narrow

def rnorm(p):
    """Path with the varying parts removed"""
    return re.sub(r"\d+", "#", p.rsplit("/", 1)[-1] if p.startswith("/sim") else p[:12])

class Ctx:
    """Runs the tool on simulated machines and counts what was covered"""
    def __init__(m):
        m.runs = 0; m.ops = 0; m.simtime = 0.0
        m.faults = collections.Counter(); m.configured = collections.Counter()
        m.shapes = set(); m.status = collections.Counter(); m.probes = collections.Counter()
        m.events = hashlib.sha256()     # event log digest, for determinism checks
        m.trace = None
        m.helpers = {}

    def kernel(m, spec):
        k = K.Kernel(clock=spec.get("clock", 1.7e9), clock_plan=spec.get("clock_plan"), listing=spec.get("listing", "sorted"), seed=spec.get("kseed", 0))
        for p, d in (spec.get("files") or {}).items(): k.put(p, d)
        for p, t in (spec.get("links") or {}).items(): k.symlink(p, t)
        for u, r in (spec.get("net") or {}).items(): k.net[u] = r
        return k

    def note(m, r, kernel):
        m.runs += 1; m.ops += len(r.log)
        for f in r.fired: m.faults[f["f"]] += 1
        for c in r.results: m.status[str(c.status)] += 1
        h = hashlib.blake2b(digest_size=8)
        for name, path, _ in r.log: h.update(("%s %s\n" % (name, rnorm(path))).encode("utf-8", "backslashreplace"))
        h.update(repr(sorted(f["f"] for f in r.fired)).encode() + repr([c.status for c in r.results]).encode())
        m.shapes.add(h.hexdigest())
        m.events.update(repr([(a, b, c) for a, b, c in r.log]).encode())
        m.events.update(repr([(c.status, c.out, c.err) for c in r.results]).encode())
        if m.trace is not None:
            m.trace.append("%s -> %s" % ([c.get("argv") for c in getattr(r, "calls", [])] , [c.status for c in r.results]))

    def run(m, kernel, argv=None, **kw):
        t = kernel.simtime
        for f in kw.get("faults") or (): m.configured[f["f"]] += 1
        r = runner.run(kernel, argv, **kw)
        m.simtime += kernel.simtime - t
        m.note(r, kernel)
        return r

    def run_many(m, kernel, specs, sched, trace=None):
        t = kernel.simtime
        for s in specs:
            for f in s.get("faults") or (): m.configured[f["f"]] += 1
        rs = runner.run_many(kernel, specs, sched, trace)
        m.simtime += kernel.simtime - t
        for r in rs: m.note(r, kernel)
        return rs

    def step(m, kernel, st, **over):
        """Run one step of a scenario: {"tool", "opts": [[...], ...] (argument groups), "stdin", "env", "faults", "knobs", "cwd", "seed"}"""
        kw = dict(tool=st.get("tool", "shrinko8"), stdin=st.get("stdin") or b"", env=st.get("env"), faults=st.get("faults") or (),
                  knobs=st.get("knobs"), seed=st.get("seed", 0), cwd=st.get("cwd", "/sim/work"))
        kw.update(over)
        return m.run(kernel, argv_of(st), **kw)

    def elsewhere(m, hashseed, spec, st, **over):
        """Run one step in an interpreter with another hash seed -> (machine as a Snap, result as an Away)"""
        if hashseed not in m.helpers:
            env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
            m.helpers[hashseed] = subprocess.Popen([sys.executable, "-X", "utf8", "-m", "sim.worker", "serve", "-"], cwd=HERE, env=env, stdin=subprocess.PIPE,
                                                   stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        h = m.helpers[hashseed]
        send_msg(h.stdin.fileno(), (spec, st, over))
        a = recv_msg(h.stdout.fileno())
        if isinstance(a, str): raise runner.HarnessError("helper: " + a)
        r = Away(); snap, r.status, r.out, r.err, r.log, t = a; r.fired = []; r.escapes = []; r.results = [r]
        m.simtime += t; m.note(r, None)
        return snap, r

    def stats(m):
        return dict(runs=m.runs, ops=m.ops, simtime=m.simtime, faults=dict(m.faults), configured=dict(m.configured), status=dict(m.status),
                    probes=dict(m.probes))

def argv_of(st):
    return [a for g in st["opts"] for a in g]

def diff_snap(a, b, ignore=()):
    """Paths that differ between two file-system snapshots -> {path: 'created'|'deleted'|'changed'}"""
    out = {}
    for p in set(a) | set(b):
        if p in ignore: continue
        if p not in a: out[p] = "created"
        elif p not in b: out[p] = "deleted"
        elif a[p] != b[p]: out[p] = "changed"
    return out

def under(p, root): return p == root or p.startswith(root + "/")

def brief(b, n=160):
    if b is None: return "missing"
    return repr(bytes(b[:n])) + ("...(%d bytes)" % len(b) if len(b) > n else "")

# ---- shrinking ----
def drop_each(lst, minlen=0):
    n = len(lst)
    if n > minlen:
        k = n // 2
        while k >= 1:
            for i in range(0, n, k):
                c = lst[:i] + lst[i + k:]
                if len(c) >= minlen and len(c) < n: yield c
            k //= 2

def shrink_step(st, keep_opts=()):
    for key in ("faults",):
        if st.get(key):
            for c in drop_each(list(st[key])): yield dict(st, **{key: c})
    if st.get("knobs"):
        for k in list(st["knobs"]): yield dict(st, knobs={a: b for a, b in st["knobs"].items() if a != k})
    for i, g in enumerate(st["opts"]):
        if len(g) and g[0].startswith("-") and len(g[0]) > 1: yield dict(st, opts=st["opts"][:i] + st["opts"][i + 1:])

def shrink_generic(spec):
    """Smaller variants of a scenario with the usual keys"""
    if spec.get("variants"):
        for c in drop_each(spec["variants"], 1): yield dict(spec, variants=c)
        for i, v in enumerate(spec["variants"]):
            if isinstance(v, dict):
                if v.get("faults"):
                    for c in drop_each(list(v["faults"])): yield dict(spec, variants=spec["variants"][:i] + [dict(v, faults=c)] + spec["variants"][i + 1:])
                if v.get("knobs"):
                    for k in list(v["knobs"]):
                        yield dict(spec, variants=spec["variants"][:i] + [dict(v, knobs={a: b for a, b in v["knobs"].items() if a != k})] + spec["variants"][i + 1:])
    if spec.get("steps"):
        for c in drop_each(spec["steps"], 1): yield dict(spec, steps=c)
        for i, s in enumerate(spec["steps"]):
            if isinstance(s, dict) and "opts" in s:
                for t in shrink_step(s): yield dict(spec, steps=spec["steps"][:i] + [t] + spec["steps"][i + 1:])
    if spec.get("cmd"):
        for t in shrink_step(spec["cmd"]): yield dict(spec, cmd=t)
    if spec.get("clock_plan"):
        yield dict(spec, clock_plan={})
        if spec["clock_plan"].get("jumps"):
            for c in drop_each(list(spec["clock_plan"]["jumps"])): yield dict(spec, clock_plan=dict(spec["clock_plan"], jumps=c))
    if spec.get("listing", "sorted") != "sorted": yield dict(spec, listing="sorted")
    if spec.get("files"):
        ks = list(spec["files"])
        for c in drop_each(ks):
            c = set(c); yield dict(spec, files={k: v for k, v in spec["files"].items() if k in c})

def shrink_lines(text):
    """Smaller variants of a text (bytes or str), by lines"""
    nl = b"\n" if isinstance(text, bytes) else "\n"
    lines = text.split(nl)
    for c in drop_each(lines): yield nl.join(c)

def execute(prop, spec, ctx):
    """An oracle that trips over what the program produced has found something it cannot be"""
    try: return prop.execute(spec, ctx)
    except runner.HarnessError: raise
    except (ValueError, KeyError, IndexError, TypeError, AttributeError, AssertionError, ref8.Bad, struct.error) as e:
        tb = traceback.extract_tb(e.__traceback__)
        return Viol("uninterpretable", "what the run produced cannot be interpreted: %s: %s (%s)" % (type(e).__name__, e, ", ".join("%s:%d" % (f.filename.rsplit("/", 1)[-1], f.lineno) for f in tb[-3:])))

def minimise(prop, spec, viol, ctx, budget=60.0):
    """Greedy: take the first smaller scenario that still fails in the same way"""
    t0 = Real.monotonic(); tries = 0
    if viol.narrow is not None:
        v = execute(prop, viol.narrow, ctx)
        if v is not None and v.kind == viol.kind: spec, viol = viol.narrow, v
    progress = True
    while progress and Real.monotonic() - t0 < budget:
        progress = False
        for cand in prop.shrink(spec):
            if Real.monotonic() - t0 > budget: break
            tries += 1
            try: v = execute(prop, copy.deepcopy(cand), ctx)
            except Exception: continue
            if v is not None and v.kind == viol.kind:
                spec, viol, progress = cand, v, True
                break
    return spec, viol, tries
