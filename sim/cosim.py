"""Plays a program before and after the tool, on the same simulated console and schedules, and compares what was observed"""
import os, random, re
from . import console, console54, frame, gen8, gen_lua, plan, ref8
from .frame import Viol, argv_of

TRON = float(os.environ.get("SIM_TRON", 0.2))      # how much is played on Picotron
W = "/sim/work/"
EXT = {"p8": ".p8", "rom": ".rom", "lua": ".lua", "png": ".p8.png", "code": ".txt"}
FOCUS = [[], [], ["--focus-tokens"], ["--focus-chars"], ["--focus-compressed"], ["--focus-tokens", "--focus-chars"], ["--focus-tokens", "--focus-compressed"]]
NOMIN = ["--no-minify-rename", "--no-minify-consts", "--no-minify-spaces", "--no-minify-lines", "--no-minify-comments", "--no-minify-tokens", "--no-minify-reorder"]
SAFE = ["--rename-safe-only", "--reorder-safe-only", "--builtins-safe-only"]

def program(r, mode, lang, version, meta_ok=True, consts=(), same=False):
    """-> (chunks of source text, what has to be preserved)"""
    g = gen_lua.Gen(r, mode, lang, size=r.choice((4, 10, 20, 30, 45)), meta_ok=meta_ok, version=version, same=same)
    for n, v in consts:
        g.scopes[0][n] = gen_lua.Var(n, {bool: "b", str: "s"}.get(type(v), "n"), ro=True)
    return gen_lua.layout_parts(g.program(), r, None, lang), g.preserve

def source(spec): return "".join(spec["chunks"])

def file_of(code, fmt, version, r, lang="pico8"):
    if lang == "picotron": return code.encode("latin-1")
    if fmt == "lua": return ref8.to_unicode(code).encode("utf-8")
    c = ref8.Cart(code, version=version)
    if fmt == "p8": return ref8.write_p8(c)
    return gen8.encode(c, fmt, r)

def code_of(data, fmt, lang="pico8"):
    """The code a cart holds, as the console would load it"""
    if lang == "picotron": return data.decode("latin-1")
    if fmt == "lua": return ref8.from_unicode(data.decode("utf-8"))
    if fmt == "code":
        if not data.startswith(b"__lua__\n"): raise ref8.Bad("no __lua__")
        return ref8.from_unicode(data[8:].decode("utf-8"))
    if fmt == "p8": return ref8.parse_p8(data).code
    if fmt == "rom": return ref8.decode_rom(data).code
    return ref8.decode_png(data)[0].code if isinstance(ref8.decode_png(data), tuple) else ref8.decode_png(data).code

def literal(v): return ("true" if v else "false") if isinstance(v, bool) else '"%s"' % v if isinstance(v, str) else str(v)

def first_difference(a, b):
    la, lb = a.split(b"\n"), b.split(b"\n")
    for i in range(max(len(la), len(lb))):
        x = la[i] if i < len(la) else None; y = lb[i] if i < len(lb) else None
        if x != y: return i, x, y
    return 0, b"", b""

def compare(a, b):
    """Are two sessions the same to whoever plays them?  -> None or what differs"""
    (sa, ta), (sb, tb) = a, b
    if sb == "budget" and sa != "budget": return "the processed program does not come to an end in three times the steps"
    if ta != tb:
        i, x, y = first_difference(ta, tb)
        f = lambda v: "nothing" if v is None else repr(v.decode("latin-1"))[:120]
        return "event %d is %s instead of %s" % (i + 1, f(y), f(x))
    if sa != sb: return "the session is %s instead of %s" % (sb, sa)
    return None

def execute(spec, ctx):
    src = source(spec)
    if spec["mode"] == "known": ctx.probes["listed finding played"] += 1
    consts = spec.get("consts") or []
    first = "".join("%s=%s;" % (n, literal(v).encode("utf-8").decode("latin-1")) for n, v in consts) + src
    S = spec["schedules"]
    play = console54.play if spec["lang"] == "picotron" else console.play
    want = play([first.encode("latin-1")], S)[0]
    if want[0][0] == "syntax": ctx.probes["discarded: not a program"] += 1; return None
    keep = [i for i, (st, _) in enumerate(want) if st in ("ended", "error", "stopped", "events", "yielded")]
    ctx.probes["sessions discarded"] += len(want) - len(keep)
    if not keep: return None
    if len(src) > 60000: return None
    S = [S[i] for i in keep]; want = [want[i] for i in keep]
    for st, tr in want: ctx.probes["sessions " + st] += 1; ctx.probes["events compared"] += tr.count(b"\n") + 1
    for s in S:
        if s.get("fail"): ctx.faults["console call fails"] += sum(tr.count(b"!fails") for _, tr in want[:1])
        if s.get("stop"): ctx.faults["cart stopped"] += 1
        if s.get("skip"): ctx.faults["draw skipped"] += len(s["skip"])
        if s["step"] < 0 or s["tick"] < 0: ctx.faults["console clock backwards"] += 1
        if s.get("late"): ctx.faults["buttons change within a frame"] += 1
    k = ctx.kernel({"files": {W + "in" + EXT[spec["infmt"]]: file_of(src, spec["infmt"], spec["version"], random.Random(spec["kseed"]), spec["lang"])}, "kseed": spec["kseed"]})
    progs = []
    for i, st in enumerate(spec["steps"]):
        r = ctx.step(k, st)
        what = "run %d (%s %s)" % (i + 1, st["tool"], " ".join(argv_of(st)))
        if r.status != 0: return Viol("refused", "%s exits with %s: %s" % (what, r.status, (r.err[-300:] or r.out[-300:]).decode("utf-8", "replace")))
        data = k.get(W + st["out"]) if st["out"] != "-" else r.out
        if data is None: return Viol("missing", "%s writes no output" % what)
        code = code_of(data, st["fmt"], spec["lang"])
        progs.append((what, code))
    got = play([c.encode("latin-1") for _, c in progs], [dict(s, more=3) for s in S])
    for (what, code), row in zip(progs, got):
        for j, (a, b) in enumerate(zip(want, row)):
            if b[0] == "syntax": return Viol("syntax", "%s: the result is not a program: %s" % (what, b[1].decode("latin-1")[:200]))
            d = compare(a, b)
            if d: return Viol("behaviour", "%s: with schedule %d, %s" % (what, keep[j] + 1, d))
    return None

def key(spec): return "%s %s %s" % (spec["mode"], [sorted(" ".join(g) for g in s["opts"]) for s in spec["steps"]], frame.hashlib.sha256(source(spec).encode("latin-1")).hexdigest()[:10])
def describe(spec): return {"runs": [[s["tool"]] + argv_of(s) for s in spec["steps"]], "code": source(spec), "schedules": spec["schedules"]}

TOKEN = re.compile(r"--\[(=*)\[.*?\]\1\]|--[^\n]*\n|\[(=*)\[.*?\]\2\]|\"(?:\\.|[^\"\\\n])*\"|'(?:\\.|[^'\\\n])*'|\w+|\s+|.", re.S)
def hints(t): return [re.sub(r"\s+", " ", x) for x in re.findall(r"--\$[^\n]*|--\[\[\$.*?\]\]\s*[\w\"']*", t)]

KEPT = ("-m", "-M", "--minify", "--minify-safe-only", "--minify-consts-only", "-p", "--preserve", "--const", "--str-const", "-U", "--unminify", "-l") + tuple(SAFE)
def kept_options(step):
    """The options that decide what the tool may do to the program: a smaller scenario has the same"""
    return [o for o in step["opts"] if any(x in KEPT or x.split("=")[0] in KEPT for x in o)]

def shrink(spec):
    for c in frame.drop_each(spec["schedules"], 1): yield dict(spec, schedules=c)
    n = len(spec["steps"])
    if n > 1: yield dict(spec, steps=spec["steps"][:-1])
    head = [c for c in spec["chunks"] if c.startswith("--$preserve")]
    for c in frame.drop_each([c for c in spec["chunks"] if c not in head], 1): yield dict(spec, chunks=head + c)
    for i, s in enumerate(spec["steps"]):
        had = kept_options(s)
        for t in frame.shrink_step(s):
            if kept_options(t) == had or not had and not kept_options(t): yield dict(spec, steps=spec["steps"][:i] + [t] + spec["steps"][i + 1:])
    for j, s in enumerate(spec["schedules"]):
        for f in ("stop", "fail", "menu", "skip", "late"):
            if s.get(f): yield dict(spec, schedules=spec["schedules"][:j] + [{a: b for a, b in s.items() if a != f}] + spec["schedules"][j + 1:])
        if s["frames"] > 1: yield dict(spec, schedules=spec["schedules"][:j] + [dict(s, frames=1)] + spec["schedules"][j + 1:])
    for i, c in enumerate(spec["chunks"]):
        toks = [m.group(0) for m in TOKEN.finditer(c)]; k = max(1, len(toks) // 2)
        while k >= 1:
            for a in range(0, len(toks), max(1, k // 2)):
                t = "".join(toks[:a] + [" "] * (k > 1) + toks[a + k:])
                if len(t) < len(c) and hints(t) == hints(c): yield dict(spec, chunks=spec["chunks"][:i] + [t] + spec["chunks"][i + 1:])
            k //= 2

MERGED = "function h() return 1,2 end\nlocal a=h()\nlocal b\nprint(b)\nb=3\nprint(a)\nprint(b)\n"
def known(r, *opts):
    """The listed finding: a declaration without values is merged into one that ends in a call, and gets its second value"""
    spec = {"mode": "known", "lang": "pico8", "version": 42, "chunks": [MERGED], "infmt": "lua", "kseed": 1, "steps": [], "consts": [], "schedules": [{"frames": 1, "btn": [0], "late": False, "tick": 0, "step": 1, "rnd": [0], "salt": 1, "skip": [], "menu": {}}]}
    for o in opts: add_step(spec, r, [[o]])
    return spec

def base(r, mode, lang="pico8", meta_ok=True, consts=(), same=False):
    version = r.choice((42, 42, 42, 41, 36)) if lang == "pico8" else 42
    chunks, preserve = program(r, mode, lang, version, meta_ok, consts, same)
    infmt = r.choice(("p8", "p8", "p8", "lua", "rom")) if lang == "pico8" else "lua"
    if infmt == "lua" and lang == "pico8" and version != 42:
        version = 42; chunks = chunks if True else chunks
    if infmt == "lua":
        text = "".join(chunks)
        if "\x00" in text: infmt = "p8"
    return {"mode": mode, "lang": lang, "version": version, "chunks": chunks, "infmt": infmt, "kseed": r.randrange(1 << 30), "steps": [], "consts": list(consts), "schedules": [console.schedule(r) for _ in range(3)]}, preserve

def add_step(spec, r, opts, tool="shrinko8", version_opts=True):
    i = len(spec["steps"]); src = "in" + EXT[spec["infmt"]] if i == 0 else spec["steps"][-1]["out"]
    fmt = r.choice(("p8", "p8", "p8", "lua", "rom", "code")) if spec["lang"] == "pico8" else "lua"
    if fmt == "code" and tool != "shrinko8": fmt = "lua"
    out = "out%d%s" % (i, EXT[fmt])
    st = {"tool": tool, "opts": [[src], [out]] + [list(o) for o in opts] + ([["-f", "code"]] if fmt == "code" else []), "out": out, "fmt": fmt, "seed": r.randrange(1 << 30)}
    if i and spec["steps"][-1]["fmt"] == "code": st["opts"].append(["-F", "code"])
    if r.random() < 0.3: st["knobs"] = {a: max(b, 64) if a.endswith("_chunk") and b != "random" else b for a, b in plan.frag(r).items()}
    spec["steps"].append(st)
    return st
