"""C04: an export edited over time behaves as an ordered list of named carts"""
import random, re
from .. import frame, gen8, plan, ref8
from ..frame import Viol
from . import common

W = "/sim/work/"
PLAIN = ["a.p8", "b.p8", "c.p8", "two words.p8", "x", "A.p8", "1.p8", "\u00fcn\u00ef.p8", "game-2.p8", "data_0.p8", "long" * 14, "n.p8.png", "in0.p8", "in1.p8", "(x).p8", "it's.p8", "100%.p8", "a.b.c"]
ODD = ["a,b.p8", "x]y.p8", "]", "back`tick.p8", "d\"q.p8", " lead.p8", "trail ", "sub/in.p8", "other/in.p8", "back\\slash.p8", "${x}.p8", "b" * 64, "c" * 70, "", "[x].p8", "a\nb", ",", "''", "\\", "q\\`,`z", "];", "-"]

def gen(r, ctx, i):
    odd = r.random() < 0.35
    names = r.sample(PLAIN, 7) + (r.sample(ODD, 3) if odd else [])
    carts = [gen8.small(r) for _ in range(4)]
    srcs = []; files = {}
    for j, c in enumerate(carts):
        f = r.choice(("p8", "p8", "rom", "lua")) if j else "p8"
        files[W + "in%d%s" % (j, gen8.EXT[f])] = gen8.encode(c, f, r); srcs.append(["in%d%s" % (j, gen8.EXT[f]), f])
    files[W + "pico8.dat"] = gen8.dat(r.randrange(2)); files[W + "broken.p8.png"] = b"\x89PNG\r\n\x1a\nnot really"
    files[W + "syntax.p8"] = ref8.write_p8(ref8.Cart("x = = 1\n"))
    start = None
    if r.random() < 0.5:
        f = r.choice(("js", "pod")); start = "e." + f
        ns = r.sample([n for n in names if len(n.encode()) < 60 and n and (f == "pod" or not re.search(r"[`\\\n]|\$\{|^ | $", n))], r.randint(1, 4))
        cs = [gen8.small(r) for _ in ns]
        files[W + start] = gen8.encode(cs[0], f, r, name=ns[0], others=list(zip(ns[1:], cs[1:])))
    steps = []
    for n in range(r.choice((2, 4, 6, 9))):
        s = {"op": r.choice(("insert", "insert", "insert", "replace", "replace", "delete", "rename", "rename", "list", "extract", "extract", "dump", "create", "convert", "bad")),
             "f": r.choice(("js", "pod")), "name": r.choice(names), "at": r.choice(names + [None] * 7), "src": r.randrange(4), "pick": r.random(), "seed": r.randrange(1 << 20),
             "knobs": {k: "random" for k in plan.frag(r) if k != "bufsize"} if r.random() < 0.3 else {}}
        if r.random() < 0.65: s["use"] = 1          # address an entry that is there
        if r.random() < 0.1: s["via"] = r.choice(("stdin", "extra", "both"))
        if r.random() < 0.12: s["kill"] = [r.choice(("crash", "int", "ENOSPC", "crash_after")), r.random()]
        if s["op"] == "create":
            s["extras"] = [[r.randrange(4), r.choice(names)] for _ in range(r.choice((0, 0, 1, 2, 3)))]; s["named"] = r.random() < 0.5
        if s["op"] == "extract": s["to"] = r.choice(("p8", "rom", "p8", "lua"))
        if s["op"] == "dump": s["to"] = r.choice(("rom", "p8"))
        if s["op"] == "bad": s["how"] = r.choice(("insert-taken", "insert-before-none", "replace-none", "delete-none", "rename-none", "rename-taken", "broken-cart", "no-cart", "cart-none", "syntax", "no-export", "two-ops"))
        steps.append(s)
    return dict(files=files, srcs=srcs, start=start, steps=steps, kseed=0)

def decode(fmt, data):
    """-> [(name, Cart)], and what surrounds them"""
    if fmt == "js":
        cs = ref8.decode_js(data); t = data.decode("utf-8")
        m = re.search(r"_cartname\s*=\s*\[", t); _, e = ref8.js_strings(t, m.end()); rest = t[:m.end()] + t[e - 1:]
        rest = re.sub(r"(_cartdat\s*=\s*\[)[\s\d,]*\]", r"\1]", rest)
    else:
        ents = ref8.pod_parse(data); cs = [(n, b) for k, n, b in ents if k == "file" and n]; rest = [(k, b) for k, n, b in ents if not n]
    return [(n, ref8.decode_rom(b)) for n, b in cs], rest

def same(a, b):
    return not a.diff(b, label=False, meta=False, version=False)

def plain(n): return n in PLAIN and len(n.encode()) < 64

def execute(spec, ctx):
    k = ctx.kernel(spec); srcs = spec["srcs"]
    carts = []
    for p, f in srcs:
        d = spec["files"][W + p]
        carts.append(ref8.parse_p8(d) if f == "p8" else ref8.decode_rom(d) if f == "rom" else ref8.Cart(ref8.from_unicode(d.decode("utf-8", "surrogateescape"))))
        if f == "lua" and carts[-1].code.endswith("\n"): carts[-1].code = carts[-1].code[:-1]
    model = {}; rest = {}
    if spec["start"]:
        f = spec["start"][2:]; model[f], rest[f] = decode(f, k.get(W + spec["start"]))
    for si, s in enumerate(spec["steps"]):
        f = s["f"] if s["f"] in model or s["op"] in ("create", "convert") else next(iter(model), s["f"])
        if f not in model and s["op"] not in ("create", "convert"): continue
        v = step(spec, ctx, k, s, si, f, model, rest, carts)
        if v: return v
    return None

def step(spec, ctx, k, s, si, f, model, rest, carts):
    cur = model.get(f, []); names = [n for n, _ in cur]; exp = "e." + f; op = s["op"]; srcp = spec["srcs"][s["src"]]
    rr = random.Random(s["seed"])
    name, at = s["name"], s["at"]
    if s.get("use") and names:
        if op in ("insert",): at = rr.choice(names + [None])
        else: name = rr.choice(names)
    if op == "rename" and s.get("use"): at = s["name"]
    want = list(cur); must = True; ok = True; stdin = b""; outs = [exp]; opts = None
    taken = lambda n: n in names
    idx = lambda n: names.index(n)
    c = carts[s["src"]]
    if op == "insert":
        noname = s["pick"] < 0.2
        if noname: name = srcp[0]; at = None
        opts = [[srcp[0]], [exp], ["--insert-cart"] + ([] if noname else [name] + ([at] if at is not None else []))]
        ok = not taken(name) and (at is None or taken(at))
        if ok: want.insert(idx(at) if at is not None else len(want), (name, c))
    elif op == "replace":
        noname = s["pick"] < 0.2 and names
        if noname: name = names[0]
        opts = [[srcp[0]], [exp], ["--replace-cart"] + ([] if noname else [name])]
        ok = taken(name)
        if ok: want[idx(name)] = (name, c)
    elif op == "delete":
        opts = [[exp], ["--delete-cart", name]]; ok = taken(name)
        if ok: del want[idx(name)]
    elif op == "rename":
        at = at if at is not None else "zz.p8"
        opts = [[exp], ["--rename-cart", name, at]]; ok = taken(name) and not taken(at)
        if ok: want[idx(name)] = (at, want[idx(name)][1])
    elif op == "list": opts = [[exp], ["--list"]]; outs = []
    elif op == "extract":
        if s["pick"] < 0.3 or not s.get("use"): opts = [[exp], ["got." + s["to"]]]; hit = cur[0] if cur else None
        else: opts = [[exp], ["got." + s["to"]], ["--cart", name]]; hit = dict(cur).get(name) and (name, dict(cur)[name])
        outs = ["got." + s["to"]]; ok = hit is not None; k.remove(W + outs[0])
    elif op == "dump": opts = [[exp], ["--dump", "dumped"], ["--clean-output-dir"], ["-f", s["to"]]]; outs = []
    elif op == "create":
        opts = [[srcp[0]], [exp], ["--pico8-dat", "pico8.dat"]]; want = [(srcp[0], c)]
        if s["named"]: opts.append(["--output-cart", name]); want = [(name, c)]
        for j, n in s["extras"]:
            p, ff = spec["srcs"][j]
            if plain(n) and not rr.randrange(3): n = None
            opts.append(["--extra-input", p] + ([ff, n] if n is not None else [])); want.append((n or p, carts[j]))
        ok = len({n for n, _ in want}) == len(want)
    elif op == "convert":
        src = next((g for g in model), None)
        if src is None: return None
        g = [x for x in model if x != f]
        src = g[0] if g else f
        outs = ["e." + f] if src != f else ["f." + f]; ok = bool(model[src])
        opts = [["e." + src], [outs[0]], ["--pico8-dat", "pico8.dat"]]; want = list(model[src])
        if s["pick"] < 0.3 and want:
            n = rr.choice(want); want = [n]; opts.append(["--cart", n[0]])
    elif op == "bad":
        h = s["how"]; none = "no such.p8"
        o = names[0] if names else none; ok = False
        opts = {"insert-taken": [["in0.p8"], [exp], ["--insert-cart", o]], "insert-before-none": [["in0.p8"], [exp], ["--insert-cart", "fresh.p8", none]],
                "replace-none": [["in0.p8"], [exp], ["--replace-cart", none]], "delete-none": [[exp], ["--delete-cart", none]], "rename-none": [[exp], ["--rename-cart", none, "fresh.p8"]],
                "rename-taken": [[exp], ["--rename-cart", o, names[-1] if names else o]], "broken-cart": [["broken.p8.png"], [exp], ["--insert-cart", "fresh.p8"]],
                "no-cart": [["nothere.p8"], [exp], ["--replace-cart", o]], "cart-none": [[exp], ["got.p8"], ["--cart", none]], "syntax": [["syntax.p8"], [exp], ["--insert-cart", "fresh.p8"], ["-m"]],
                "no-export": [["in0.p8"], ["none." + f], ["--insert-cart", "fresh.p8"]], "two-ops": [["in0.p8"], [exp], ["--insert-cart", "q.p8"], ["--replace-cart", o]]}[h]
        if h == "insert-taken" and not names: return None
        k.remove(W + "got.p8")
        outs = []
    if s.get("via") == "stdin" and op in ("insert", "replace") and (op == "replace" or name != srcp[0]):
        stdin = k.get(W + opts[0][0]); opts[0] = ["-"]; opts.append(["-F", srcp[1]])
    if s.get("via") == "extra" and (op in ("insert", "replace") or op == "create" and not s["extras"]): opts[1] = ["--extra-output", opts[1][0]]; opts.append(["--version"])
    odd = [n for n, _ in want if not plain(n)] + [x for x in (at, name) if x is not None and not plain(x)]
    must = ok and not odd
    snap = k.snapshot()
    st = {"tool": "shrinko8", "opts": opts, "stdin": stdin, "seed": s["seed"]}
    what = "step %d: %s" % (si, " ".join(a for g in opts for a in g)); sp = dict(spec, steps=spec["steps"][:si + 1])
    if s.get("kill"):
        k2 = ctx.kernel({}); k2.restore(snap)
        b = ctx.step(k2, st, knobs=dict(s["knobs"]))
        if b.log:
            at_i = min(int(s["kill"][1] * len(b.log)), len(b.log) - 1)
            r = ctx.step(k, st, knobs=dict(s["knobs"]), faults=[{"at": at_i, "f": s["kill"][0]}]); now = k.snapshot()
            d = frame.diff_snap(snap, now); full = k2.snapshot()
            for p, how in d.items():
                if op in ("dump",) and p.startswith(W + "dumped"): continue
                if p[len(W):] not in outs and p != W + "f.js" and p != W + "f.pod": return Viol("damage", "%s, hit by %s, %s %s" % (what, common.where(r), how, p), sp)
                if how == "deleted" or not isinstance(full.get(p), bytes) or not full[p].startswith(now[p]): return Viol("damage", "%s, hit by %s, left %s neither old nor a prefix of new" % (what, common.where(r), p), sp)
            ctx.probes["killed"] += 1
            if r.status == 0 and not r.fired: pass
            k.restore(snap)     # the user's backup
    r = ctx.step(k, st, knobs=dict(s["knobs"]))
    now = k.snapshot(); d = frame.diff_snap(snap, now)
    if r.status == "hang": return Viol("hang", what + " does not end", sp)
    if r.status != 0:
        if must and op != "dump" or op == "list": return Viol("refused", "%s fails (%s) though it can be done; carts are %r: %s" % (what, r.status, names, common.tail(r)), sp)
        for p, how in d.items():
            if not (op == "dump" and p.startswith(W + "dumped")): return Viol("damage", "%s failed, but %s %s" % (what, how, p), sp)
        ctx.probes["refused"] += 1
        return None
    if not ok: return Viol("accepted", "%s succeeds, though it cannot be done; carts are %r" % (what, names), sp)
    for p, how in d.items():
        if p[len(W):] not in outs and not (op == "dump" and p.startswith(W + "dumped")): return Viol("damage", "%s %s %s" % (what, how, p), sp)
    ctx.probes["op:" + op] += 1
    if op == "list":
        got = r.out.decode("utf-8").split("\n")[:-1]
        if "\n" in "".join(names): return None
        if got != names: return Viol("list", "%s prints %r, should be %r" % (what, got, names), sp)
        return None
    if op == "extract":
        d = k.get(W + outs[0]); c = ref8.parse_p8(d) if s["to"] == "p8" else ref8.decode_rom(d) if s["to"] == "rom" else ref8.Cart(ref8.from_unicode(d.decode("utf-8", "surrogateescape")), hit[1].rom)
        if not same(hit[1], c): return Viol("content", "%s gives a cart that differs from the one stored as %r in %s" % (what, hit[0], hit[1].diff(c, label=False, meta=False, version=False)), sp)
        return None
    if op == "dump":
        got = []
        for p, b in now.items():
            if p.startswith(W + "dumped/") and isinstance(b, bytes):
                try: got.append(ref8.decode_rom(b) if s["to"] == "rom" else ref8.parse_p8(b))
                except (ref8.Bad, ValueError, IndexError) as e: return Viol("content", "%s wrote %s, which is no cart: %s" % (what, p, e), sp)
        left = list(got)
        for n, c in cur:
            h = next((g for g in left if same(c, g)), None)
            if h is None: return Viol("content", "%s did not dump cart %r" % (what, n), sp)
            left.remove(h)
        if left: return Viol("content", "%s dumped %d carts too many" % (what, len(left)), sp)
        return None
    if op == "bad": return None
    tgt = outs[0]; fmt = f
    try: got, rs = decode(fmt, k.get(W + tgt))
    except (ref8.Bad, ValueError, IndexError, AttributeError, KeyError) as e:
        return Viol("broken", "%s succeeds, but leaves an unreadable export (carts should be %r): %s: %s" % (what, [n for n, _ in want], type(e).__name__, e), sp)
    gn = [n for n, _ in got]; wn = [n for n, _ in want]
    if gn != wn: return Viol("names", "%s: the export should hold %r, but holds %r" % (what, wn, gn), sp)
    for (n, a), (_, b) in zip(want, got):
        if not same(a, b): return Viol("content", "%s: cart %r differs in %s" % (what, n, a.diff(b, label=False, meta=False, version=False)), sp)
    if op in ("insert", "replace", "delete", "rename"):
        if rs != rest[f]: return Viol("surroundings", "%s changed the export outside its carts" % what, sp)
    if tgt.startswith("e."): model[fmt] = want; rest[fmt] = rs
    return None

def key(spec): return ">".join(s["op"] + "/" + s["f"] for s in spec["steps"])
def shrink(spec):
    for c in frame.drop_each(spec["steps"], 1): yield dict(spec, steps=c)
    for i, s in enumerate(spec["steps"]):
        for q in ({"knobs": {}}, {"kill": None}, {"via": None}, {"extras": []}):
            if any(s.get(a) and s.get(a) != b for a, b in q.items()): yield dict(spec, steps=spec["steps"][:i] + [dict(s, **q)] + spec["steps"][i + 1:])
def describe(spec): return {"start": spec["start"], "sources": spec["srcs"], "steps": spec["steps"]}
