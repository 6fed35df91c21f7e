"""C11: includes and other secondary inputs are taken exactly as found, or the run fails"""
import itertools, os, random, re, struct, zipfile, zlib
from .. import exports, frame, gen8, gen64, genc, plan, ref8, ref64, runner
from ..frame import Viol
from . import C06, common

W = genc.W
TAB = "\n-->8\n"
DECOYS = ["-- #include nothere.lua", "--[[\n#include nothere.lua\n]]", "--[==[\n#include nothere.lua\n]==]", "x=[[\n#include nothere.lua\n]]", 'x="\\\n#include nothere.lua"', 'x="a#include nothere.lua"',
          "x=1 #include nothere.lua" , "x='\\'\\\n#include no'", "--[[a]]\nx=\"--[[\"", "x=#ents", "x=1+\n#ents", "-- it's", "--[=[ ]] \n#include no\n]=]", "x=\"[[\"", "-- [[", "x=a--[[b]]"]
RAW = ["#include", "#includes nothere.lua", "# include nothere.lua", "x #include nothere.lua", "#Include nothere.lua", "#include\n", "--[[unclosed"]

def text(r, rich):
    k = r.random()
    if k < 0.5: return gen8.lua(r, r.choice((1, 3)))
    if k < 0.75:
        d = r.choice(DECOYS)
        return d if rich or "x=1 #include" not in d else gen8.lua(r, 1)
    if k < 0.85 and rich: return r.choice(RAW[:-1])
    if k < 0.9: return r.choice(("", "\t", "  "))
    return r.choice(("x=1 -- \u2b05\ufe0f", "y=\"\u3042\u25cf\"", "--\u2588"))

def gen(r, ctx, i):
    x = r.random()
    if x < 0.22: return gen_dir(r, ctx)
    if x < 0.4: return gen_exp(r, ctx)
    if x < 0.48: return gen_img(r, ctx)
    if x < 0.53: return gen_dump(r, ctx)
    rich = r.random() < 0.5
    base = r.choice(("", "", "src/", "a b/c/"))
    docs = {}       # path under W -> {"fmt", "parts": [text | [indent, name, path, tab]], "tabs"}
    def doc(path, depth, fmt):
        parts = []
        d = {"fmt": fmt, "parts": parts}
        docs[path] = d
        for _ in range(r.choice((1, 2, 3, 5)) if depth else r.choice((2, 4, 6))):
            if depth < 3 and r.random() < (0.6 if depth == 0 else 0.25) and fmt in ("p8", "lua"):
                parts.append(include(path, depth))
            else: parts.append(text(r, rich))
            if r.random() < 0.15 and depth and not any(isinstance(p, list) for p in parts): parts.append("-->8"); parts.append("t=%d" % r.randrange(100))
        if depth == 0 and not any(isinstance(p, list) for p in parts): parts.append(include(path, 0))
        if depth and fmt == "p8" and r.random() < 0.06:      # (up to all 16 tabs)
            parts[:] = [t for k in range(r.choice((11, 13, 16))) for t in (["-->8"] if k else []) + ["t%d=%d" % (k, r.randrange(100))]]
        return d
    n = itertools.count()
    def include(path, depth):
        here = os.path.dirname(path)
        ws = r.choice(("", "", "", " ", "\t", "  "))
        if docs and r.random() < 0.2:
            done = [p for p, d in docs.items() if d.get("done")]
            if done:
                p = r.choice(done); return [ws, os.path.relpath("/" + p, "/" + here), p, None]
        fmt = r.choice(("lua", "lua", "p8", "p8", "png")) if r.random() < 0.9 else "lua"
        if fmt == "png" and r.random() < 0.8: fmt = "p8"
        j = next(n)
        name = r.choice(("inc%d", "inc%d", "lib/inc%d", "../up%d", "a b %d", "\u3042%d", "deep/er/x%d", "./inc%d", "x.y%d", "inc%d:x", "back\\slash%d")) % j + gen8.EXT[fmt]
        if base == "" and name.startswith(".."): name = name[3:]
        p = os.path.normpath(os.path.join(here, name))
        if p.startswith(".."): name = "inc%d.lua" % j; p = os.path.normpath(os.path.join(here, name)); fmt = "lua"
        d = doc(p, depth + 1, fmt); d["done"] = True
        tabs = expand_one(docs, p, None).split(TAB)
        tab = None
        if r.random() < 0.3 and fmt != "png" and tabs[-1]: tab = r.randrange(len(tabs))
        if r.random() < 0.08 and "/" in name: name = name.replace("/", "\\")
        return [ws, name, p, tab]
    mfmt = r.choice(("p8", "p8", "lua"))
    main = base + "main" + gen8.EXT[mfmt]
    doc(main, 0, mfmt)
    out = r.choice(("p8", "lua", "rom"))
    s = dict(kind="inc", docs=docs, main=main, out=out, files={}, crlf=r.random() < 0.15, nl=r.choice(("\n", "\n", "", "\n\n")), seed=r.randrange(1 << 20))
    for p in list(docs):    # files that could be mistaken for the included ones
        b = os.path.basename(p)
        for q in (b, "lib/" + b, base + "lib/" + b, base + b, p + ".bak", os.path.splitext(p)[0]):
            q = os.path.normpath(q)
            if q not in docs and r.random() < 0.3: s["files"].setdefault(W + q, b"wrong=file\n")
    s["files"] = {p: d for p, d in s["files"].items() if not any(q != p and frame.under(W + q, p) for q in docs) and not any(frame.under(p, W + q) for q in docs)}
    s["files"][W + "nothere.lua"] = s["files"][W + base + "nothere.lua"] = b"must=not+be+here\n"
    if r.random() < 0.5: s["files"][W + "res" + gen8.EXT[out]] = b"old contents"
    s["opts"] = [] if rich or r.random() < 0.4 else r.choice((["-m"], ["-M"], ["-c"], ["-l", "--no-lint-fail"], ["-l"], ["-U"], ["--list-includes"], ["-m", "--rename-map", "map.txt"]))
    # variants
    vs = []
    k, b = run(ctx, s, {}); incs = [p for p in docs if p != main]
    touched = {W + p: [j for j, (nm, pa, _) in enumerate(b.log) if pa == W + p] for p in docs}
    for _ in range(r.choice((1, 2, 3))):
        p = W + r.choice(incs if r.random() < 0.85 else [main])
        at = touched[p]
        if not at: continue
        lo = max(0, at[0] - 2); at = r.choice(at + [r.randrange(lo, at[-1] + 2)])
        x = r.random()
        if x < 0.25: v = {"what": "gone", "path": p, "at": at, "data": False}
        elif x < 0.5: v = {"what": "new", "path": p, "at": at, "data": None}
        elif x < 0.6: v = {"what": "dir", "path": p, "at": at, "data": False}
        elif x < 0.7: v = {"what": "other", "path": r.choice(sorted(s["files"])), "at": at, "data": b"other=change\n"}
        elif x < 0.8 and p != W + main: v = {"what": "missing", "path": p, "at": None, "data": False}
        else:
            st = [q for q in plan.sites(b.log) if q[3] == p]
            q = plan.pick(r, st, ("open_r", "read", "close_r", "stat", "dirmod"))
            if q is None: continue
            v = {"what": "fault", "path": p, "at": q[0], "fault": plan.fault(r, q)}
        if v.get("data") is None and v["what"] == "new": v["text"] = "newer=%d\n%s" % (r.randrange(1000), gen8.lua(r, 2))
        if r.random() < 0.4: v["knobs"] = {"read_chunk": r.choice((1, 7, "random")), "bufsize": r.choice((16, 512))} if sum(len(encode(s, q)) for q in docs) < 3000 else {"read_chunk": "random"}
        vs.append(v)
    s["variants"] = vs
    return s

def expand_one(docs, p, over, once=None):
    """The text of a file with its includes; over: {path: newer text}, once: iterator of choices (older/newer) per reading"""
    if over and p in over and next(once): return over[p]
    out = []
    for part in docs[p]["parts"]:
        if isinstance(part, list):
            t = expand_one(docs, part[2], over, once)
            if part[3] is not None:
                ts = t.split(TAB)
                if part[3] >= len(ts): raise NoTab()
                t = ts[part[3]]
            out.append(t)
        else: out.append(part)
    return "\n".join(out)

class NoTab(Exception): pass

def source(docs, p):
    return "\n".join(part if isinstance(part, str) else "%s#include %s%s" % (part[0], part[1], "" if part[3] is None else (":%X" if part[3] % 4 < 2 else ":%x") % part[3]) for part in docs[p]["parts"])

def encode(s, p, t=None, fmt=None):
    import random
    fmt = fmt or s["docs"][p]["fmt"]; t = source(s["docs"], p) if t is None else t
    if fmt == "lua": d = (t + (s["nl"] or "\n")[:1]).encode()
    elif fmt == "p8": d = ("pico-8 cartridge // http://www.pico-8.com\nversion 41\n__lua__\n" + t + "\n" + ("__gfx__\n" + "0123" * 32 + "\n" if s["seed"] % 2 else "")).encode()
    else: d = gen8.encode(ref8.Cart(p8(t)), "png", random.Random(s["seed"]))
    if s["crlf"] and fmt != "png": d = d.replace(b"\n", b"\r\n")
    return d

def p8(t): return ref8.from_unicode(t)

def machine(ctx, s, over=None):
    files = dict(s["files"]); files.setdefault(W.rstrip("/"), None)
    for p in s["docs"]: files[W + p] = encode(s, p)
    return ctx.kernel({"files": files})

def run(ctx, s, v, main=None):
    k = machine(ctx, s)
    fl = []
    if v.get("fault"): fl = [v["fault"]]
    elif v.get("what") == "missing": k.remove(v["path"])
    elif v.get("at") is not None:
        d = encode(s, v["path"][len(W):], v["text"]) if v["what"] == "new" else v["data"]
        fl = [{"at": v["at"], "f": "mutate", "changes": [(v["path"], False)] + ([(v["path"], None)] if v["what"] == "dir" else [(v["path"], d)] if d is not False else [])}]
    if main is not None: k.put(W + s["main"], main)
    out = "res" + gen8.EXT[s["out"]]
    r = ctx.step(k, dict(tool="shrinko8", opts=[[s["main"]], [out], ["-f", s["out"]], s["opts"]]), faults=fl, knobs=dict(v.get("knobs") or {}))
    return k, r

def result(s, k):
    d = k.get(W + "res" + gen8.EXT[s["out"]])
    if d is None: return None
    if s["out"] == "p8": return ref8.parse_p8(d).code
    if s["out"] == "rom": return ref8.decode_rom(d).code
    return p8(d.decode("utf-8"))[:-1] if d.endswith(b"\n") else p8(d.decode("utf-8"))

def lint(out): return sorted(l for l in out.decode("utf-8", "replace").split("\n") if re.match(r"^.*:\d+:\d+: ", l))

def mapped(s, lines):
    """Messages about the expanded text, placed where that text came from"""
    where = []
    def rec(p, tab):
        fmt = s["docs"][p]["fmt"]; mine = []; ln = 0
        for part in s["docs"][p]["parts"]:
            if isinstance(part, list):
                mine += rec(part[2], part[3]); ln += 1
            else:
                for _ in part.split("\n"): mine.append((p, ln + (3 if fmt == "p8" else 0))); ln += 1
        if tab is not None:
            # cut to the tab, by lines
            ls = expand_one(s["docs"], p, None).split("\n"); t = 0; keep = []
            for j, l in enumerate(ls):
                if l == "-->8" and 0 < j < len(ls) - 1: t += 1; continue
                if t == tab: keep.append(mine[j])
            mine = keep
        return mine
    where = rec(s["main"], None)
    off = 3 if s["docs"][s["main"]]["fmt"] == "p8" else 0
    out = []
    for l in lines:
        m = re.match(r"^(.*):(\d+):(\d+): (.*)$", l)
        p, n = where[int(m[2]) - 1 - off]
        out.append("%s:%d:%s: %s" % (p, n + 1, m[3], m[4]))
    return sorted(out)

def execute(s, ctx):
    if s["kind"] == "dir": return execute_dir(s, ctx)
    if s["kind"] == "exp": return execute_exp(s, ctx)
    sp0 = dict(s, variants=[])
    want = p8(expand_one(s["docs"], s["main"], None))
    k, b = run(ctx, s, {})
    plainopt = not s["opts"] or s["opts"] in (["--list-includes"], ["-c"])
    if plainopt:
        if b.status != 0:
            if s["out"] == "rom" and len(want) > 10000: return None
            return Viol("fails", "the run fails (%s) though every include is there: %s" % (b.status, common.tail(b)), sp0)
        got = result(s, k)
        if s["out"] == "lua": got, want = got.rstrip("\n"), want.rstrip("\n")
        if got != want: return Viol("text", "the output holds %r instead of %r" % cutdiff(got, want), sp0)
        ctx.probes["expanded"] += 1
        if s["opts"] == ["--list-includes"]:
            names = [part[2] for part in s["docs"][s["main"]]["parts"] if isinstance(part, list)]
            got = [os.path.normpath(x) for x in b.out.decode().split("\n") if x]
            if got != names: return Viol("list", "--list-includes prints %r instead of %r" % (got, names), sp0)
    else:
        # the same command on a cart that already holds the text
        main = encode(s, s["main"], expand_one(s["docs"], s["main"], None))
        k2, b2 = run(ctx, s, {}, main)
        if b.status != b2.status: return Viol("status", "exit status %s, but %s when the text stands in the cart itself: %s" % (b.status, b2.status, common.tail(b if b.status else b2)), sp0)
        a, c = k.get(W + "res" + gen8.EXT[s["out"]]), k2.get(W + "res" + gen8.EXT[s["out"]])
        if a != c: return Viol("text", "the output differs from what comes out when the text stands in the cart itself: %s instead of %s" % (frame.brief(a), frame.brief(c)), sp0)
        ctx.probes["processed"] += 1
        if "-l" in s["opts"] and not s["crlf"]:
            l1 = sorted(os.path.normpath(x.split(":", 1)[0]) + ":" + x.split(":", 1)[1] if not x.count(":") > 3 else x for x in lint(b.out)); l2 = mapped(s, lint(b2.out))
            norm = lambda ls: sorted(re.sub(r"^(.*?):(\d+):(\d+): ", lambda m: "%s:%s:%s: " % (os.path.normpath(m[1].replace("\\", "/")), m[2], m[3]), x) for x in ls)
            if norm(l1) != norm(l2):
                d1 = [x for x in norm(l1) if x not in norm(l2)]; d2 = [x for x in norm(l2) if x not in norm(l1)]
                return Viol("lint", "lint messages point at %r instead of %r" % (d1[:3], d2[:3]), sp0)
            ctx.probes["lint_placed"] += len(l2)
    prior = s["files"].get(W + "res" + gen8.EXT[s["out"]])
    for v in s["variants"]:
        k, r = run(ctx, s, v)
        sp = dict(s, variants=[v])
        what = "%s %s%s" % (v["what"], v["path"][len(W):], " before system call %s (%s %s)" % (v["at"], r.log[v["at"]][0], r.log[v["at"]][1]) if v.get("at") is not None and v["at"] < len(r.log) else "")
        if r.status == "hang": return Viol("hang", "the run does not end: " + what, sp)
        ctx.probes["%s_%s" % (v["what"], "ok" if r.status == 0 else "failed")] += 1
        out = k.get(W + "res" + gen8.EXT[s["out"]])
        if r.status != 0:
            if v["what"] == "other" and b.status == 0: return Viol("fails", "the run fails because %s changed: %s" % (what, common.tail(r)), sp)
            if b.status == 0 and out != prior: return Viol("left", "the run failed (%s), but left the output %s" % (what, frame.brief(out)), sp)
            continue
        if v["what"] == "missing": return Viol("accepted", "exit 0 though the included %s is missing" % v["path"], sp)
        if not plainopt:
            if v["what"] == "new": continue
            if out != k0(ctx, s): return Viol("text", "exit 0, but the output differs after %s" % what, sp)
            continue
        got = result(s, k)
        if s["out"] == "lua": got = got.rstrip("\n")
        if v["what"] == "new":
            p = v["path"][len(W):]
            n = sum(1 for _ in range(1)); ok = False
            cnt = count(s["docs"], s["main"], p)
            newer = {p: v["text"]}
            for bits in itertools.product((0, 1), repeat=min(cnt, 6)):
                try: t = expand_one(s["docs"], s["main"], newer, itertools.chain(bits, itertools.repeat(1)))
                except NoTab: continue
                if p8(t) == got or s["out"] == "lua" and p8(t).rstrip("\n") == got: ok = True
            if not ok: return Viol("mixed", "after %s the output holds neither the old nor the new text of it: %r" % (what, cutdiff(got, want)), sp)
        elif got != want: return Viol("text", "exit 0 after %s, but the output holds %r instead of %r" % ((what,) + cutdiff(got, want)), sp)
    return None

def k0(ctx, s): return run(ctx, s, {})[0].get(W + "res" + gen8.EXT[s["out"]])

def count(docs, p, target):
    if p == target: return 1 + sum(count(docs, q[2], target) for q in docs[p]["parts"] if isinstance(q, list))
    return sum(count(docs, q[2], target) for q in docs[p]["parts"] if isinstance(q, list))

def cutdiff(a, b):
    a = a or ""; i = next((n for n in range(min(len(a), len(b))) if a[n] != b[n]), min(len(a), len(b)))
    return a[max(0, i - 40):i + 80], b[max(0, i - 40):i + 80]

# ---- Picotron directories read while they change ----
def gen_dir(r, ctx):
    cart = gen64.small(r); other = gen64.small(r)
    mode = r.choice(("main", "insert", "merge"))
    fmt = r.choice(("p64", "rom"))
    s = dict(kind="dir", mode=mode, cart=cart, other=other, fmt=fmt, listing=r.choice(("sorted", "reverse", "shuffle")), variants=[])
    k, b = run_dir(ctx, s, {})
    root = W + ("in" if mode == "main" else "ins")
    src = cart if mode == "main" else other
    at = [j for j, (nm, pa, _) in enumerate(b.log) if frame.under(pa, root)]
    if not at: return s
    names = sorted(src)
    for _ in range(r.choice((2, 3, 4))):
        ch = []
        for _ in range(r.choice((1, 1, 2))):
            p = r.choice(names); x = r.random()
            if x < 0.35: ch.append((p, False))
            elif x < 0.7 and not p.endswith("/"): ch.append((p, b"newer=%d" % r.randrange(1000)))
            elif x < 0.8 and not p.endswith("/"): ch.append((p, None))
            else:
                d = r.choice([""] + [q for q in names if q.endswith("/")]); ch.append((d + "added%d.lua" % r.randrange(9), b"added=1"))
        if r.random() < 0.2:
            st = [q for q in plan.sites(b.log) if frame.under(q[3], root) and q[1] != "stat"]
            q = plan.pick(r, st)
            s["variants"].append({"fault": plan.fault(r, q), "at": q[0], "changes": []})
        else: s["variants"].append({"at": r.choice(at), "changes": ch})
    return s

def run_dir(ctx, s, v):
    files = {W.rstrip("/"): None}; import random
    rr = random.Random(5)
    gen64.put(files, s["cart"], "dir" if s["mode"] == "main" else "rom", W + ("in" if s["mode"] == "main" else "in.rom"), rr)
    if s["mode"] != "main": gen64.put(files, s["other"], "dir", W + "ins", rr)
    root = W + ("in" if s["mode"] == "main" else "ins")
    k = ctx.kernel({"files": files, "listing": s["listing"], "kseed": 3})
    opts = [["in" if s["mode"] == "main" else "in.rom"], ["res." + s["fmt"]]]
    if s["mode"] == "insert": opts.append(["--insert", "ins", "lib"])
    if s["mode"] == "merge": opts.append(["--merge", "ins", "*"])
    fl = [v["fault"]] if v.get("fault") else [{"at": v["at"], "f": "mutate", "changes": [(root + "/" + p.rstrip("/"), d) for p, d in v["changes"]]}] if v.get("changes") else []
    return k, ctx.step(k, dict(tool="shrinkotron", opts=opts), faults=fl)

def content(d):
    try: return C06.decode("x", d) if False else d
    except Exception: return d

def execute_dir(s, ctx):
    k, b = run_dir(ctx, s, {})
    if b.status != 0: return Viol("fails", "the run fails on an undisturbed directory: " + common.tail(b), dict(s, variants=[]))
    def read(k): d = k.get(W + "res." + s["fmt"]); return ref64.read_p64(d) if s["fmt"] == "p64" else ref64.read_rom(d)
    old = {p: C06.canon(d) if d is not None else None for p, d in read(k).items()}
    for v in s["variants"]:
        k, r = run_dir(ctx, s, v); sp = dict(s, variants=[v])
        what = "%s before %s %s" % (v.get("fault") or [(p, "removed" if d is False else "changed to a directory" if d is None else "written") for p, d in v["changes"]], r.log[v["at"]][0], r.log[v["at"]][1]) if v["at"] < len(r.log) else "nothing"
        if r.status == "hang": return Viol("hang", "the run does not end: " + what, sp)
        ctx.probes["dir_%s_%s" % ("fault" if v.get("fault") else "changed", "ok" if r.status == 0 else "failed")] += 1
        if r.status != 0:
            if all(d not in (False, None) for p, d in v["changes"]) and not v.get("fault"):
                return Viol("fails", "the run fails after %s: %s" % (what, common.tail(r)), sp)
            if k.get(W + "res." + s["fmt"]) is not None: return Viol("left", "the run failed after %s, but left an output" % what, sp)
            continue
        got = {p: C06.canon(d) if d is not None else None for p, d in read(k).items()}
        pre = "lib/" if s["mode"] == "insert" else ""
        ch = {pre + p: d for p, d in v["changes"]}
        for p in sorted(set(old) | set(got)):
            if old.get(p, "missing") == got.get(p, "missing"): continue
            near = [q for q in ch if p == q or p.rstrip("/") == q.rstrip("/") or p.startswith(q.rstrip("/") + "/")]
            ok = False
            for q in near:
                d = ch[q]
                if d is False and p not in got: ok = True               # seen after it was removed
                elif d is None and (p not in got or got[p] is None): ok = True
                elif isinstance(d, bytes) and p == q and got.get(p) == C06.canon(d): ok = True
                elif isinstance(d, bytes) and p.startswith(q.rstrip("/") + "/") and p not in got: ok = True
            if s["mode"] != "main" and p in s["cart"] and p not in got: ok = False
            if s["mode"] == "merge" and p in s["cart"] and near: ok = True   # (the main cart's own file shows)
            if not ok: return Viol("mixed", "after %s the output has %r as %s, which it never was (before: %s)" % (what, p, got.get(p, "missing"), old.get(p, "missing")), sp)
    return None

# ---- Exports made out of pico8.dat or picotron.dat ----
def gen_exp(r, ctx):
    """An export, while the file with the programs may be replaced or be hard to read"""
    files = {}; name = r.choice(("game", "game", "my game-2", "a.b", "x" * 140, "G"))
    s = dict(kind="exp", files=files, listing=r.choice(("sorted", "shuffle")), variants=[], label=None, title=None)
    opts = []
    if r.random() < 0.6:
        s["tool"] = "shrinko8"; s["fmt"] = r.choice(("bin", "bin", "js", "pod")); s["carts"] = []
        cart = gen8.small(r, "lua")
        if r.random() < 0.6: cart.label = gen8.label(r)
        src = r.choice(("in.p8", "in.p8.png", "in.rom", "the cart.p8")); f = {"8": "p8", "g": "png", "m": "rom"}[src[-1]]
        if f == "rom": cart.label = None
        files[W + src] = gen8.encode(cart, f, r)
        if files[W + src] is None: return gen_exp(r, ctx)
        s["carts"].append([src, src])
        if f != "rom" and r.random() < 0.2:
            lab = gen8.label(r) or bytearray([3] * 16384); files[W + "l.png"] = ref8.png_write(128, 128, ref8.label_rgba(lab)); opts.append(["--label", "l.png"]); s["label"] = bytes(lab)
        if r.random() < 0.25: opts.append(["--output-cart", "main one.p8"]); s["carts"][0][0] = "main one.p8"
        for j in range(r.choice((0, 0, 1, 2))):
            n = "x%d.p8" % j; files[W + n] = ref8.write_p8(gen8.small(r)); nm = r.choice((None, "data %d" % j))
            opts.append(["--extra-input", n] + (["p8", nm] if nm else [])); s["carts"].append([nm or n, n])
        dat = "pico8.dat"; files[W + dat] = gen8.dat(0); opts.append(["--pico8-dat", dat])
    else:
        s["tool"] = "shrinkotron"; s["fmt"] = r.choice(("bin", "bin", "html", "dat")); src = "in.p64"
        c = gen64.small(r); x = b""
        if r.random() < 0.5: c["label.png"] = gen64.label_file(r)
        if r.random() < 0.7:
            if r.random() < 0.7: x += b',title="%s"' % r.choice((b"a game", b"Caf\xc3\xa9", b"x - y"))
            if r.random() < 0.5: x += b',export_home="%s"' % r.choice((b"/ram/home", b"game 1", b""))
            if r.random() < 0.7:
                w, h = r.choice(((16, 16), (8, 8), (32, 16), (128, 128)))
                x += b',icon=userdata("u8",%d,%d,"%s")' % (w, h, bytes(r.choice((0, 0, 1, 7, 15, 16, 31, 32, 63, 255, r.randrange(32))) for _ in range(w * h)).hex().encode())
            c[".info.pod"] = b"--[[pod" + x + b"]]nil"
        gen64.put(files, gen64.order(c), "p64", W + src, r)
        if r.random() < 0.2: s["title"] = "other title"; opts.append(["--title", "other title"])
        dat = "picotron.dat"; files[W + dat] = gen64.dat(0); opts.append(["--picotron-dat", dat])
    out = name + "." + s["fmt"]; s["name"] = name; s["src"] = src; s["out"] = out; s["dat"] = dat
    if r.random() < 0.3: s["name"] = "exported"; opts.append(["--export-name", "exported"])
    if s["fmt"] == "bin" and r.random() < 0.3: files[W + out + "/mine.txt"] = b"mine"; opts.append(["--clean-output-dir"])
    s["opts"] = [[src], [out], ["-f", s["fmt"]]] + opts
    variants(s, r, ctx, r.choice((0, 1, 1, 2)))
    return s

def gen_dump(r, ctx):
    """What the file with the programs holds, written out"""
    s = dict(kind="exp", fmt="dump", tool=r.choice(("shrinko8", "shrinkotron")), dat="in.dat", out="dumped", listing="sorted", variants=[], to=r.choice((None, "dir", "rom", "p64")))
    s["files"] = {W + "in.dat": gen8.dat(0) if s["tool"] == "shrinko8" else gen64.dat(0)}
    s["opts"] = [["in.dat"], ["--dump", "dumped"]] + ([["-f", s["to"]]] if s["tool"] == "shrinkotron" and s["to"] else [])
    if s["tool"] == "shrinko8" and r.random() < 0.5:      # an export, with its carts
        s["made"] = r.choice(("js", "pod")); s["dat"] = "in." + s["made"]; s["seed"] = r.randrange(1 << 20); s["misc"] = r.random() < 0.6; s["to"] = r.choice((None, "rom", "p8"))
        s["files"] = {W + s["dat"]: dumpable(s, 0)[0]}
        s["opts"] = [[s["dat"]], ["--dump", "dumped"]] + ([["-f", s["to"]]] if s["to"] else []) + ([["--dump-misc-too"]] if s["misc"] else [])
    if r.random() < 0.3: s["files"][W + "dumped/mine.txt"] = b"mine"; s["opts"].append(["--clean-output-dir"])
    variants(s, r, ctx, r.choice((0, 1, 2)))
    return s

def dumpable(s, seed):
    """-> an export, and what a dump of it gives"""
    r = random.Random(s["seed"] + seed); names = r.sample(("a.p8", "b.p8", "lib/c.p8", "d:e", "f g.p8", "..", "h?.p8.png"), r.choice((1, 2, 3))); carts = []
    while len(carts) < len(names):
        c = gen8.small(r); d = ref8.encode_rom(c, r)
        if d is not None: carts.append((c, d))
    want = {exports.fixup(n): d if s["to"] == "rom" else c for n, (c, d) in zip(names, carts)}
    boot = ref8.write_p8(ref8.Cart("-- boot %d" % r.randrange(99)))
    gfx = ref8.pod_pack(([ref8.pod_pal(r)] if r.random() < 0.5 else []) + [ref8.pod_bmp(16, 8, 8, bytes(r.randrange(256) for _ in range(128)), r.random() < 0.5) for _ in range(r.choice((1, 2)))])
    last = ref8.pod_pack([ref8.pod_file("note.txt", b"n%d" % r.randrange(99), r.random() < 0.5, r)] if r.random() < 0.5 else [])
    if s["made"] == "pod":
        if s["misc"]:
            want["pod_pico8_boot.p8"] = boot
            for n, b in (("pod_gfx1", gfx), ("pod_f_pico8", last)): want[n] = None; want.update(exports.dump8(b, n + "/"))
        return ref8.pod_pack([ref8.pod_file("", b, r.random() < 0.3, r) for b in (boot, gfx, last)] + [ref8.pod_file(n, d, r.random() < 0.3, r) for n, (_, d) in zip(names, carts)]), want
    pod = ref8.pod_pack([ref8.pod_file("x/boot.txt", boot), ref8.pod_file("gfx.pod", gfx), ref8.pod_file("", b"unnamed")])
    if s["misc"]: want.update(exports.dump8(pod))
    cut = r.randrange(1, len(pod)); parts = [pod[:cut], pod[cut:]] if r.random() < 0.5 else [pod]
    return ref8.encode_js([(n, d) for n, (_, d) in zip(names, carts)], post="".join("fileData0.push.apply(fileData0, [%s]);\n" % ",".join(map(str, b)) for b in parts)), want

def variants(s, r, ctx, n):
    b = ctx.step(ctx.kernel(dict(files=s["files"])), dict(tool=s["tool"], opts=s["opts"])); p = W + s["dat"]
    at = [j for j, (nm, pa, _) in enumerate(b.log) if pa == p]; st = [q for q in plan.sites(b.log) if q[3] == p]
    for _ in range(n):
        if at and r.random() < 0.6: v = {"what": r.choice(("new", "new", "gone", "dir")), "at": r.choice(at + [at[-1] + 1])}
        elif st: q = plan.pick(r, st); v = {"what": "fault", "at": q[0], "fault": plan.fault(r, q)}
        else: continue
        if r.random() < 0.3: v["knobs"] = {"read_chunk": "random"}
        s["variants"].append(v)

def picture(w, h, seed):
    """A template: stripes and blocks of the high bits, opaque and not"""
    r = random.Random(seed); cols = [bytes((r.randrange(256), r.randrange(256), r.randrange(256), r.choice((255, 255, 252, 128, 0)))) for _ in range(7)]
    return b"".join(cols[(x // 5 + y // 3 * 3) % 7] for y in range(h) for x in range(w))

def gen_img(r, ctx):
    """A cart image, while the template or label may be replaced or be hard to read"""
    files = {}; s = dict(kind="exp", fmt="png", files=files, listing="sorted", variants=[], label=None, title=None, name="", carts=[], only=r.random() < 0.2, seed=r.randrange(1 << 20))
    opts = []; two = r.random() < 0.5; tmpl = r.random() < 0.7
    words = ("my game", "by me", "", "a very long title that does not fit in the picture of the cart at all, so it is cut", "~!@#$%^&*()_+{}|\\", "-- x", "".join(r.choice("aaWWiM.l") for _ in range(r.randrange(28, 84))))
    if r.random() < 0.65:
        s["tool"] = "shrinko8"; src = r.choice(("in.p8", "in.p8.png", "in.rom")); f = {"8": "p8", "g": "png", "m": "rom"}[src[-1]]
        cart = gen8.small(r, "lua"); c = r.random()
        if c < 0.6: cart.code = "".join(r.choice(("--%s", "-- %s", "--%s\t", "x=1 -- %s", "--[[%s]]")) % r.choice(words) + "\n" for _ in range(r.randrange(3))) + cart.code
        if r.random() < 0.6 and f != "rom": cart.label = gen8.label(r)
        files[W + src] = gen8.encode(cart, f, r)
        if files[W + src] is None: return gen_img(r, ctx)
        if r.random() < 0.3: lab = gen8.label(r) or bytearray([3] * 16384); files[W + "l.png"] = ref8.png_write(128, 128, ref8.label_rgba(lab)); opts.append(["--label", "l.png"]); s["label"] = bytes(lab)
        w, h = 160, 205; s["out"] = "o.p8.png"
    else:
        s["tool"] = "shrinkotron"; src = "in.p64"; c = gen64.small(r)
        if r.random() < 0.5: c["label.png"] = gen64.label_file(r)
        if r.random() < 0.7:
            m = b"".join(b',%s="%s"' % (a, r.choice((b"a game", b"x - y", b"", b"1.2", words[-1].encode(), b"a long title of a game that is cut, as it has too many letters to fit"))) for a in (b"title", b"version", b"author") if r.random() < 0.7)
            c[".info.pod"] = b"--[[pod" + m + b"]]nil"
        gen64.put(files, gen64.order(c), "p64", W + src, r); w, h = 512, 384; s["out"] = "o.p64.png"
    if r.random() < 0.4:
        s["title"] = [r.choice(words) for _ in range(r.choice((1, 2)))]
        for t in s["title"]: opts.append(["--title=" + t])
    if tmpl: files[W + "t.png"] = ref8.png_write(w, h, picture(w, h, s["seed"])); opts.append(["--template-image", "t.png"])
    if s["only"]: opts.append(["--template-only"])
    if r.random() < 0.15: opts.append(["--optimize-png-compression"])
    s["src"] = src; s["dat"] = "t.png"; s["size"] = [w, h]; s["tmpl"] = tmpl
    s["opts"] = [[src], [s["out"]]] + opts
    if tmpl: variants(s, r, ctx, r.choice((0, 0, 1)))
    return s

def check_img(s, k, seed):
    d = k.get(W + s["out"]); w, h = s["size"]
    if d is None: return "there is no output"
    base = picture(w, h, s["seed"] + seed) if s["tmpl"] else ref8.png_pixels(open(runner.REPO + ("/template.png" if w == 160 else "/template64.png"), "rb").read())[2]
    if s["tool"] == "shrinko8":
        cart = read8(s["files"][W + s["src"]], s["src"]); got = ref8.decode_png(d)
        p = cart.diff(got, label=False, meta=False, version=False)
        if p: return "the cart differs in %s" % p
        if s["label"]: cart.label = s["label"]
        t = None if s["only"] else "\n".join(s["title"]) if s["title"] else exports.title8(cart)
        return exports.looks(exports.seen8(runner.REPO, base, cart, t), d, w, 3)
    cart = ref64.read_p64(s["files"][W + s["src"]]); p = ref64.cart_eq(cart, ref64.read_png(d), ref64.LABELS)
    if p: return "the cart differs: " + p
    m = cart.get(".info.pod"); g = lambda a: exports.meta64(cart, a) or ""
    t = None if s["only"] else (s["title"] + [""])[:2] if s["title"] else (g(b"title"), " ".join((g(b"version"), "by " + g(b"author") if g(b"author") else ""))) if m else ("", "")
    return exports.looks(exports.seen64(runner.REPO, base, cart, t), d, w, 7)

def newer(s):
    if s["fmt"] == "png": w, h = s["size"]; return ref8.png_write(w, h, picture(w, h, s["seed"] + 1))
    return newer_dat(s)

def newer_dat(s):
    if s.get("made"): return dumpable(s, 1)[0]
    return gen8.dat(1) if s["tool"] == "shrinko8" else gen64.dat(1)

def run_exp(ctx, s, v):
    k = ctx.kernel(dict(files=s["files"], listing=s["listing"])); p = W + s["dat"]; fl = []
    if v.get("fault"): fl = [v["fault"]]
    elif v.get("what"): fl = [{"at": v["at"], "f": "mutate", "changes": [(p, False)] + ([(p, None)] if v["what"] == "dir" else [(p, newer(s))] if v["what"] == "new" else [])}]
    return k, ctx.step(k, dict(tool=s["tool"], opts=s["opts"]), faults=fl, knobs=dict(v.get("knobs") or {}))

def read8(d, n): return ref8.parse_p8(d) if n.endswith(".p8") else ref8.decode_png(d) if n.endswith(".png") else ref8.decode_rom(d)

def check_exp(s, k, seed):
    """-> what is wrong with the export, made from the program file with that seed, or None"""
    path = W + s["out"]; d = k.get(path)
    tree = {p[len(path) + 1:]: b for p, b in k.snapshot().items() if p.startswith(path + "/")} if s["fmt"] in ("bin", "dump") else None
    if d is None and not tree: return "there is no output"
    try:
        if s["fmt"] == "png": return check_img(s, k, seed)
        if s["fmt"] == "dump":
            if s.get("made"): return exports.same_tree(dumpable(s, seed)[1], tree)
            if s["tool"] == "shrinko8": return exports.same_tree(exports.dump8(gen8.dat(seed)), tree)
            return exports.dump64(gen64.dat(seed), tree, s["to"] or "p64")
        if s["tool"] == "shrinko8":
            gen8.dat(seed); info = gen8.dat_entries(seed)
            want = [(n, read8(s["files"][W + p], p)) for n, p in s["carts"]]; cart = want[0][1].copy()
            if s["label"]: cart.label = s["label"]
            if s["fmt"] == "js": return exports.js(d, want, dict(info["html"])["src/pico8.js"])
            if s["fmt"] == "pod": return exports.pod(d, want, info, s["name"], cart)
            return exports.bundle8(tree, info, want, s["name"], cart)
        info = gen64.dat_info(seed); cart = ref64.read_p64(s["files"][W + s["src"]])
        if s["fmt"] == "html": return exports.page64(d, info, cart, s["title"])
        if s["fmt"] == "dat": return exports.sysrom(d, info, cart)
        return exports.bundle64(tree, info, cart, s["name"], open(runner.REPO + "/template.plist", "rb").read(), s["title"])
    except (ref8.Bad, ValueError, IndexError, KeyError, AttributeError, struct.error, zipfile.BadZipFile, zlib.error) as e:
        return "it cannot be read: %s: %s" % (type(e).__name__, e)

def execute_exp(s, ctx):
    sp0 = dict(s, variants=[]); k, b = run_exp(ctx, s, {})
    if b.status != 0: return Viol("fails", "the export fails though nothing is wrong: " + common.tail(b), sp0)
    p = check_exp(s, k, 0)
    if p: return Viol("export", "%s gives something else than what %s (and the cart) hold: %s" % (s["fmt"], s["dat"], p), sp0)
    ctx.probes["exported:" + s["fmt"]] += 1
    for v in s["variants"]:
        k, r = run_exp(ctx, s, v); sp = dict(s, variants=[v])
        what = "%s: %s before system call %s" % (s["dat"], (v.get("fault") or {}).get("f") or v["what"], v["at"])
        if r.status == "hang": return Viol("hang", "the run does not end, " + what, sp)
        ctx.probes["dat_%s_%s" % (v["what"], "ok" if r.status == 0 else "failed")] += 1
        if r.status != 0:
            if v["what"] == "new": return Viol("fails", "the run fails (%s): %s" % (what, common.tail(r)), sp)
            if any(b is not None and (p == W + s["out"] or p.startswith(W + s["out"] + "/")) for p, b in k.snapshot().items() if p not in s["files"]): return Viol("left", "the run failed (%s), but left an output" % what, sp)
            continue
        p = check_exp(s, k, 0)
        if p and v["what"] == "new": p = check_exp(s, k, 1) and p
        if p: return Viol("mixed", "exit 0, %s, but the export is wrong: %s" % (what, p), sp)
    return None

def key(s):
    if s["kind"] == "exp": return "exp/%s/%s/%s/%s" % (s["tool"], s["fmt"], [o[0] for o in s["opts"][3:]], [(v.get("fault") or {}).get("f") or v["what"] for v in s["variants"]])
    if s["kind"] == "dir": return "dir/%s/%s/%s" % (s["mode"], s["fmt"], [(v.get("fault") or {}).get("f") or [d if not isinstance(d, bytes) else 1 for p, d in v["changes"]] for v in s["variants"]])
    return "%s/%s/%s/%s" % (sorted(d["fmt"] for d in s["docs"].values()), s["out"], s["opts"], sorted(v["what"] for v in s["variants"]))
def shrink(s):
    for c in frame.drop_each(s["variants"]): yield dict(s, variants=c)
    if s["kind"] == "exp": return
    if s["kind"] == "dir":
        for nm in ("cart", "other"):
            for p in s[nm]:
                if p != "main.lua": yield dict(s, **{nm: {a: b for a, b in s[nm].items() if a != p and not a.startswith(p)}})
        return
    if s["crlf"]: yield dict(s, crlf=False)
    for p, d in s["docs"].items():
        for c in frame.drop_each(d["parts"], 1): yield dict(s, docs=dict(s["docs"], **{p: dict(d, parts=c)}))
    for p in s["files"]: yield dict(s, files={a: b for a, b in s["files"].items() if a != p})
    if s["opts"] and not s["variants"]: yield dict(s, opts=[])
def describe(s):
    if s["kind"] == "exp": return {"tool": s["tool"], "opts": s["opts"], "variants": s["variants"]}
    if s["kind"] == "dir": return {"mode": s["mode"], "format": s["fmt"], "variants": s["variants"]}
    return {"docs": {p: [d["fmt"], [x for x in d["parts"] if isinstance(x, list)]] for p, d in s["docs"].items()}, "out": s["out"], "opts": s["opts"], "variants": s["variants"]}
