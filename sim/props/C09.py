"""C09: repeated runs in one process do not influence each other"""
import re
from .. import frame, gen8, gen64, genc, plan, ref8, ref64, runner
from ..frame import Viol, argv_of
from . import C08, common

W = genc.W
# options that set up something inside the program
STATE = [["--builtin", "aa,bb,foo"], ["--not-builtin", "flr,sin,print,spr"], ["--local-builtin", "foo,bar"], ["--global-builtins-only"], ["--ignore-hints"], ["-p", "player,x*"], ["--no-preserve", "circfill,spr,*"],
         ["--const", "DBG", "true", "--const", "N", "5"], ["--str-const", "S", "hello"], ["--lint-global", "x,y,t"], ["--fast-compression"], ["--old-compression"], ["--title", "a", "--title", "b"], ["--template-only"],
         ["--error-format", "tabbed"], ["--no-lint-unused"], ["--no-lint-undefined"], ["--unicode-caps"], ["--update-version"], ["--output-version", "30"], ["-U", "--unminify-indent", "tabs"], ["--input-count"], ["-c", "--parsable-count"],
         ["--no-minify-lines"], ["--no-minify-consts"], ["--no-minify-tokens"], ["--rename-members-as-globals"], ["--trace-compression", "trace.csv"], ["--keep-compression"], ["--ignore-hints", "-m"], ["--output-sections", "lua,gfx"]]
HINTS = ["--[[const]]K=3", "--preserve: foo,bar", "--lint: x,y", "--[[global]]zz=1", "--[[member]]mm=2", "--keep: a comment", "x=\"\\\n\"", "?1,2", "--[[const-string]]Q=\"a\"", "goto done", "x=", "end", "function f(", "x=1=2"]

def one(r, i):
    c = C08.tied(r) if r.random() < 0.35 else genc.command(r, p64=0.3)
    for o in STATE:
        if r.random() < 0.06 and (c.tool == "shrinko8" or o[0] in ("-p", "--const", "--str-const", "--builtin", "--not-builtin", "--lint-global", "--fast-compression", "--no-minify-lines", "-c")): c.opts.append(list(o))
    if r.random() < 0.3:
        for p, d in list(c.files.items()):
            if p.endswith("in.lua") and d is not None:
                lines = d.decode("utf-8").split("\n"); lines.insert(r.randrange(len(lines) + 1), r.choice(HINTS)); c.files[p] = "\n".join(lines).encode()
            elif p.endswith("in.p8") and d:
                d2 = d.replace(b"__lua__\n", b"__lua__\n" + r.choice(HINTS).encode() + b"\n", 1); c.files[p] = d2
    if c.dirs and "bin" in c.dirs.values(): c.env = dict(c.env or {}, PICO8_EXPORT_REPRO_TIME="1500000000")
    return c

def edited(r, path, d):
    """Something else a file that was read may hold by the next run"""
    name = path.rsplit("/", 1)[-1]
    if name == "pico8.dat": return gen8.dat(r.randrange(4))
    if name.endswith(".dat"): return gen64.dat(r.randrange(4))
    x = r.random()
    if x < 0.1: return b""
    if name.endswith((".lua", ".p8", ".p64")) and x < 0.9: return re.sub(rb"(?<=[=( ])\d", lambda m: b"%d" % r.randrange(10), d) if x < 0.6 else d + b"zz%d=%d\n" % (r.randrange(9), r.randrange(99))
    fmt = next((f for f, e in gen8.EXT.items() if name.endswith(e) and f in ("p8", "png", "rom", "url", "js", "pod", "lua")), None)
    n = gen8.encode(gen8.small(r, "lua"), fmt, r, name=name) if fmt and not ".p64" in name and not name == "label.png" else None
    return d[: len(d) // 2] + bytes([r.randrange(256)]) + d[len(d) // 2 + 1:] if n is None else n

def gen(r, ctx, i):
    files = {}; net = {}; steps = []
    for j in range(r.choice((2, 2, 3, 4, 6))):
        cwd = "/sim/c%d" % j
        if steps and r.random() < 0.25:
            # an earlier command again, in its own place or in a new place with other contents of the same names
            s = dict(r.choice(steps)); s.pop("faults", None)
            if r.random() < 0.5:
                c2 = one(r, j)
                for p, d in c2.files.items(): files[C08.rebase(p, cwd)] = d
                old = s["cwd"]; s["cwd"] = cwd; files.setdefault(cwd, None)
                for p, d in list(files.items()):
                    if frame.under(p, old): files.setdefault(cwd + p[len(old):], d)
            steps.append(s); continue
        c = one(r, j)
        for p, d in c.files.items(): files[C08.rebase(p, cwd)] = d
        files.setdefault(cwd, None)
        for u, x in c.net.items():
            u2 = u.replace("/dl/", "/%d/" % j); net[u2] = x
            c.opts = [[u2 if a == u else a for a in g] for g in c.opts]
        steps.append(c.step(cwd=cwd))
        ins = [p for p in c.inputs if isinstance(c.files.get(p), bytes)]
        if ins and r.random() < 0.3:
            # the same command again, after one of the files it reads was written anew
            p = r.choice(ins[-2:] if r.random() < 0.5 else ins); q = "%s/edit%d.p64.rom" % (cwd, len(steps))
            files[q] = ref64.write_rom({"main.lua": b"", "new.bin": edited(r, p, c.files[p])}, r)
            steps.append(dict(tool="shrinkotron", opts=[[q], ["--extract", "new.bin", C08.rebase(p, cwd)]], stdin=b"", env=None, cwd=cwd))
            if r.random() < 0.5: steps.append(dict(steps[-2]))
            else: steps.append(dict(r.choice(steps)))
    for s in steps:
        x = r.random()
        if x < 0.12: s["opts"] = s["opts"] + [r.choice((["--nonsense"], ["--merge", "nothere.p8", "gfx"], ["--const", "X", "("], ["--label", "nothere.png"], ["-f", "xyz"], ["extra", "extra2"]))]
        elif x < 0.3: s["faults"] = [{"at": r.choice((0, 1, 3, 6, 10, 20, 40)), "f": r.choice(("EIO", "EACCES", "int", "memory", "ENOSPC", "int_after"))}]
    return {"files": files, "net": net, "steps": steps}

def execute(spec, ctx):
    k = ctx.kernel(spec); fresh = []
    for s in spec["steps"]:
        fresh.append(ctx.step(k, s))
        if fresh[-1].status == "hang": return Viol("hang", "the run does not end", dict(spec, steps=[s]))
    want = k.snapshot()
    k = ctx.kernel(spec)
    calls = [runner.call(argv_of(s), s["tool"], s.get("stdin") or b"", s.get("env"), s["cwd"], () if j == 0 else s.get("faults") or ()) for j, s in enumerate(spec["steps"])]
    r = ctx.run(k, calls=calls, cwd=spec["steps"][0]["cwd"], faults=spec["steps"][0].get("faults") or ())
    got = k.snapshot()
    if len(r.results) != len(fresh): return Viol("stopped", "the process ended after %d of %d runs" % (len(r.results), len(fresh)))
    for j, (a, b) in enumerate(zip(fresh, r.results)):
        what = "run %d (%s %s) in a process that did %d runs before" % (j, spec["steps"][j]["tool"], " ".join(argv_of(spec["steps"][j])), j)
        ctx.probes["repeated" if j else "first"] += 1
        if a.status == 0 and j: ctx.probes["repeated_ok"] += 1
        faulted = bool(a.fired) or spec["steps"][j].get("faults")
        if a.status != b.status:
            if faulted: return None     # (where the fault lands may differ; nothing after it can be compared)
            return Viol("status", "%s exits with %s instead of %s: %s" % (what, b.status, a.status, b.err[-300:].decode("utf-8", "replace") or a.err[-300:].decode("utf-8", "replace")))
        if a.out != b.out and not faulted:
            i = next((n for n in range(min(len(a.out), len(b.out))) if a.out[n] != b.out[n]), min(len(a.out), len(b.out)))
            return Viol("output", "%s prints %s instead of %s" % (what, frame.brief(b.out[max(0, i - 30):], 100), frame.brief(a.out[max(0, i - 30):], 100)))
        if a.status == 0 and a.err != b.err and not faulted: return Viol("output", "%s writes to standard error %s instead of %s" % (what, frame.brief(b.err), frame.brief(a.err)))
    skip = [s["cwd"] for s in spec["steps"] if s.get("faults")]
    for p in sorted(set(want) | set(got)):
        a, b = want.get(p, "missing"), got.get(p, "missing")
        if a == b or any(frame.under(p, c) for c in skip): continue
        i = next((n for n in range(min(len(a), len(b))) if a[n] != b[n]), 0) if isinstance(a, bytes) and isinstance(b, bytes) else 0
        f = lambda x: x if isinstance(x, str) else frame.brief(x[max(0, i - 30):] if isinstance(x, bytes) else x, 100)
        return Viol("bytes", "%s is %s instead of %s when the %d runs share a process (from byte %d)" % (p, f(b), f(a), len(fresh), i))
    return None

def key(spec): return "%s" % sorted("%s%s%s" % (s["tool"], sorted(x for o in s["opts"] for x in o if x.startswith("-")), [f["f"] for f in s.get("faults") or ()]) for s in spec["steps"])
def shrink(spec):
    yield from frame.shrink_generic(spec)
    for p, d in spec["files"].items():
        if p.endswith((".lua", ".p8")) and d and len(d) < 20000:
            for t in frame.shrink_lines(d): yield dict(spec, files=dict(spec["files"], **{p: t}))
def describe(spec): return {"steps": [[s["tool"], argv_of(s), s.get("faults")] for s in spec["steps"]]}
