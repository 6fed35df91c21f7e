"""C06: Picotron carts survive any chain of format conversions and file edits"""
import fnmatch, random, struct
from .. import frame, gen8, gen64, plan, ref8, ref64
from ..frame import Viol
from ..ref64 import Bad
from . import common

W = "/sim/work/"
FMTS = ("p64", "p64", "p64", "rom", "rom", "dir", "dir", "html", "dat", "png")
PODS = ([], [], [], ["-u"], ["--keep-pod-compression"], ["--base64-pods"], ["--avoid-base64"], ["-u", "--base64-pods"], ["--fast-compression"])
EXPORT = ("html", "dat")
EXT = gen64.EXT
GLOBS = ("*", "*.lua", "main.lua", "src/*", "*,!*.txt", "!src/*,*", "*.pod,*.lua", "src/deep/*,main.lua", "*/", "[a-m]*", "?ain.lua", "!*", ".*", "*x*")
NEWPATHS = ("new.txt", "src/new.lua", "p/q/r.bin", "gfx/9.gfx", "main2.lua", "p/one", ".hid/den")

def glob(pats, path):
    ok = False
    for p in pats.split(","):
        neg = p.startswith("!")
        if fnmatch.fnmatchcase(path, p[1:] if neg else p):
            if neg: return False
            ok = True
    return ok

def gen(r, ctx, i):
    if r.random() < 0.06: return gen_pods(r)
    cart = gen64.cart(r, label=r.random() < 0.2)
    f0 = r.choice(("p64", "p64", "rom", "dir", "png" if r.random() < 0.3 else "p64"))
    files = {W + "picotron.dat": gen64.dat(r.randrange(2))}
    gen64.put(files, cart, f0, W + "s0" + EXT[f0], r)
    other = gen64.small(r)
    gen64.put(files, other, "dir", W + "odir", r)
    for f in ("p64", "rom"): files[W + "other." + f] = gen64.encode(other, f, r)
    for p in ("a.lua", "sub/b.bin", "sub/deep/c.txt", "sub/d.pod"): files[W + "ins/" + p] = gen64.content(r, p)
    files[W + "single.bin"] = gen64.content(r, "single.bin")
    if r.random() < 0.3: files[W + "ins/void"] = None
    steps = []; npng = 0
    for n in range(1, r.choice((2, 3, 4, 5, 6)) + 1):
        s = {"n": n, "fmt": r.choice(FMTS), "comp": list(r.choice(PODS)), "seed": r.randrange(1 << 20), "knobs": plan.frag(r) if r.random() < 0.4 else {},
             "how": r.choice(("file", "file", "file", "inplace", "inplace", "stdin", "stdout", "extra", "url")), "ops": []}
        if s["fmt"] == "png":
            npng += 1
            if npng > 1: s["fmt"] = "rom"
            elif r.random() < 0.4: s["comp"].append("--keep-label")
        for k in ("read_chunk", "write_chunk"):
            if s["knobs"].get(k) in (1, 7, 13): s["knobs"][k] = "random"
        for _ in range(r.choice((0, 0, 1, 1, 2))):
            o = mkop(r, cart)
            if not any(o[0] == q[0] and o[0] in ("extract", "side") for q in s["ops"]): s["ops"].append(o)
        if s["fmt"] == "dir" and r.random() < 0.5: s["stale"] = r.sample(("stale.txt", "main.lua", "old/stale.lua", "src/zz"), r.randint(1, 3)); s["clean"] = r.random() < 0.4
        elif s["fmt"] != "dir" and r.random() < 0.4: s["prior"] = r.choice((b"", b"older contents", b"z" * 9000))
        if r.random() < 0.12: s["kill"] = [r.choice(("crash", "int", "ENOSPC")), r.random()]
        if r.random() < 0.08: s["bad"] = r.choice(("insert", "extract", "merge"))
        steps.append(s)
    return dict(files=files, start=f0, steps=steps, kseed=0)

def gen_pods(r):
    """A file that is a single pod, rewritten several times"""
    v = gen64.pod_value(r)
    if not isinstance(v, (dict, gen64.UD, bytes)): v = {1: v, 2: gen64.pod_value(r)}
    d = ref64.encode_pod(v, r)
    if r.random() < 0.7: d = b"--[[" + gen64.meta_bytes(r) + b"]]" + d
    return dict(files={W + "s0.pod": d}, start="pod", kseed=0, steps=[{"n": n, "fmt": "pod", "ops": [], "comp": list(r.choice(PODS)), "seed": r.randrange(1 << 20), "how": r.choice(("file", "file", "inplace", "stdin", "stdout", "extra")),
                "knobs": plan.frag(r) if r.random() < 0.4 else {}} for n in range(1, r.choice((2, 3, 4)) + 1)])

def execute_pods(spec, ctx):
    k = ctx.kernel(spec); cur = "s0.pod"
    def held(d): return canon(d if prefix(d) else b"--[[pod]]" + d)
    want = held(k.get(W + cur))
    for si, s in enumerate(spec["steps"]):
        sp = dict(spec, steps=spec["steps"][:si + 1]); how = s["how"]; out = "s%d.pod" % s["n"]; stdin = b""
        o = [[cur], [out], ["-F", "pod"]] + [[c] for c in s["comp"]]
        if how == "inplace": o[1] = ["-i"]; out = cur
        else: o.append(["-f", "pod"])
        if how == "stdin": stdin = k.get(W + cur); o[0] = ["-"]
        if how == "stdout": o[1] = ["-"]
        if how == "extra": o[1] = ["--extra-output", out, "pod"]; o = [x for x in o if x[0] != "-f"] + [["--version"]]
        r = ctx.step(k, {"tool": "shrinkotron", "opts": o, "stdin": stdin, "seed": s["seed"]}, knobs=dict(s["knobs"]))
        what = "step %d (pod via %s %s)" % (s["n"], how, " ".join(s["comp"]))
        if r.status != 0: return Viol("refused", "%s failed (status %s): %s" % (what, r.status, common.tail(r)), sp)
        if how == "stdout": k.put(W + out, r.out)
        d = k.get(W + out)
        try: got = held(d)
        except (Bad, ValueError, IndexError, KeyError, AttributeError, TypeError, struct.error) as e:
            return Viol("undecodable", "%s: the result is no valid pod: %s: %s (%s)" % (what, type(e).__name__, e, frame.brief(d)), sp)
        if got != want: return Viol("altered", "%s: the pod is %s instead of %s" % (what, str(got)[:300], str(want)[:300]), sp)
        ctx.probes["converted:pod"] += 1; cur = out
    return None

def mkop(r, cart):
    k = r.choice(("filter", "insert", "insert", "merge", "extract", "extract", "delmeta", "version", "list", "side"))
    if k == "side": return [k, r.choice(("lua", "tiny-rom", "label"))]
    if k == "filter": return [k, r.choice(GLOBS)]
    if k == "insert":
        what = r.choice(("ins", "ins", "single.bin", "ins/a.lua", "odir"))
        isdir = what in ("ins", "odir")
        where = r.choice((None, "lib", "a/b", ".", "lib/", "src") if isdir else (None, r.choice(NEWPATHS), "main.lua", "newdir/", "src/"))
        return [k, what, where] + ([r.choice(GLOBS)] if where and r.random() < 0.3 else [])
    if k == "merge": return [k, r.choice(("other.p64", "other.rom", "odir")), r.choice(GLOBS)]
    if k == "extract":
        c = sorted(set(cart) - set(ref64.LABELS)) # (whether a label is still there depends on the output format)
        return [k, r.choice(c), r.choice(("got", "got2", None))] if c else ["list"]
    if k == "delmeta": return [k, r.choice(("*", "*.pod", "*.lua,*.gfx", ".info.pod")), r.choice((None, None, "title", "*", "revision,icon"))]
    if k == "version": return [k, r.choice((17, 20, 21, 27))]
    return [k]

# ---- the model ----
def prefix(d): return d is not None and d.startswith(b"--[[pod")
def split_meta(d):
    if not prefix(d): return None, d
    j = d.find(b"]]")
    if j < 0: return d[4:], b""
    return d[4:j], d[j + 2:]
def is_raw(d): return d is not None and (not prefix(d) or d.startswith(b'--[[pod_format="raw"'))
def parse_meta(m):
    if m == b"pod": return {}
    p = ref64.P(b"{" + (m[4:] if m.startswith(b"pod,") else m) + b"}", [])
    return p.value()
def fmt_meta(t):
    rr = random.Random(0); out = b"pod"; t = dict(t)
    for k in (b"pod_format", b"pod_type"):
        if k in t: out = k + b"=" + ref64.fmt_pod(t.pop(k), rr); break
    for k, v in t.items(): out += b"," + (k if isinstance(k, bytes) else b"[" + ref64.fmt_pod(k, rr) + b"]") + b"=" + ref64.fmt_pod(v, rr).replace(b"]]", b"]\\093")
    return out

def parents_into(model, p):
    for q in ref64.parents(p): model.setdefault(q, None)

def apply(model, op, fs):
    """One edit of the model. fs: the simulated disk's snapshot. -> new model or None if the run must fail"""
    m = dict(model); k = op[0]
    if k == "filter": return {p: d for p, d in m.items() if glob(op[1], p)}
    if k == "insert":
        what, where, flt = op[1], op[2], (op[3] if len(op) > 3 else None)
        isdir = what in ("ins", "odir")
        if where is None: where = what.rsplit("/", 1)[-1]
        if where in (".", "/"): where = ""
        new = {}
        if isdir:
            base = where if not where or where.endswith("/") else where + "/"
            if base: new[base] = None
            for p, d in ref64.from_snap(fs, W + what).items(): new[base + p] = d
        else:
            if not where or where.endswith("/"): where += what.rsplit("/", 1)[-1]
            new[where] = fs[W + what]
        for p, d in new.items():
            if flt is None or glob(flt, p): m[p] = d; parents_into(m, p)
        return m
    if k == "merge":
        for p, d in ref64.from_snap(fs, W + "odir").items():
            if glob(op[2], p): m[p] = d; parents_into(m, p)
        return m
    if k == "extract":
        return m if op[1] in m else None
    if k == "delmeta":
        for p in list(m):
            d = m[p]
            if d is None or not glob(op[1], p): continue
            meta, payload = split_meta(d); new = None
            if meta is not None:
                try: t = parse_meta(meta)
                except (Bad, IndexError, AttributeError): continue
                new = {a: b for a, b in t.items() if isinstance(a, bytes) and glob(op[2] or "runtime", a.decode("latin1"))}
                if new:
                    for a in (b"pod_format", b"pod_type"):
                        if a in t: new[a] = t[a]
                elif is_raw(d): new = None
            if not new and p.rsplit("/", 1)[-1] == ".info.pod": del m[p]
            else: m[p] = payload if new is None else b"--[[" + fmt_meta(new) + b"]]" + payload
        return m
    if k == "version":
        d = m.get(".info.pod")
        if prefix(d):
            meta, payload = split_meta(d); t = parse_meta(meta); t[b"runtime"] = op[1]
            m[".info.pod"] = b"--[[" + fmt_meta(t) + b"]]" + payload
        return m
    return m

ORDER = ("insert", "merge", "version", "filter", "delmeta")   # the order in which one run applies them

def canon(d):
    c = ref64.canon(d)
    if c[0] == "pod":
        try: return ("pod", ref64.frz(parse_meta(c[1])), c[2])
        except (Bad, IndexError, AttributeError): return c
    return c

def norm(m):
    """Directories that hold something go without saying"""
    need = set(q for p in m for q in ref64.parents(p))
    return {p: d for p, d in m.items() if p not in need}

def compare(want, got, label):
    want, got = norm(want), norm(got)
    for p in sorted(set(want) | set(got)):
        if p in ("label.png", "label.qoi") and label is not None: continue
        if p not in want: return "%r is there, but should not be" % p
        if p not in got: return "%r is missing" % p
        if got[p] == want[p]: continue
        try: a = canon(want[p])
        except (Bad, IndexError, KeyError, ValueError): return None if True else ""   # unreadable to begin with
        try: b = canon(got[p])
        except (Bad, IndexError, KeyError, ValueError, AttributeError, struct.error) as e: return "%r cannot be decoded any more: %s: %s; %s" % (p, type(e).__name__, e, frame.brief(got[p]))
        if a != b: return "%r differs: should be %s, is %s (%s / %s)" % (p, str(a)[:300], str(b)[:300], frame.brief(want[p]), frame.brief(got[p]))
    return None

def decode(k, fmt, path, data=None):
    if fmt == "dir": return ref64.from_snap(k.snapshot(), path)
    data = k.get(path) if data is None else data
    if fmt == "p64": return ref64.read_p64(data)
    if fmt == "rom": return ref64.read_rom(data)
    if fmt == "png": return ref64.read_png(data)
    if fmt == "html":
        t = data.decode("utf-8"); i = t.index('p64cart_str="') + 13
        return ref64.read_rom(bytes.fromhex(t[i:t.index('"', i)]))
    if fmt == "dat": return ref64.read_rom(ref64.read_dat(data)[2])

def label_of(m):
    for n in ("label.qoi", "label.png"):
        if n in m: return ref64.label_rgb(n, m[n])
    return None

def execute(spec, ctx):
    if spec["start"] == "pod": return execute_pods(spec, ctx)
    k = ctx.kernel(spec)
    fmt = spec["start"]; cur = "s0" + EXT[fmt]
    model = decode(k, fmt, W + cur); pixels = None
    if fmt == "png": pixels = ref64.png_label(k.get(W + cur)) if not label_of(model) and not any(n in model for n in ref64.LABELS) else None
    for si, s in enumerate(spec["steps"]):
        sp = dict(spec, steps=spec["steps"][:si + 1])
        how, ofmt = s["how"], s["fmt"]
        if how == "inplace" and fmt in EXPORT: how = "file"
        if how == "inplace" and fmt == "png": how = "file"
        if how == "inplace": ofmt = fmt
        if how in ("stdin", "url") and fmt in ("dir",) + EXPORT: how = "file"
        if how == "stdout" and ofmt in ("dir",) + EXPORT: how = "file"
        out = cur if how == "inplace" else "s%d%s" % (s["n"], EXT[ofmt])
        ops = sorted([o for o in s["ops"] if o[0] != "list"], key=lambda o: ORDER.index(o[0]) if o[0] in ORDER else 9)
        seen = set(); ops = [o for o in ops if o[0] not in ("filter", "delmeta", "version") or not (o[0] in seen or seen.add(o[0]))]
        fs = k.snapshot()
        if how != "inplace":
            if s.get("prior") is not None: k.put(W + out, s["prior"])
            for p in s.get("stale") or ():
                if ofmt == "dir": k.put(W + out + "/" + p, b"stale " + p.encode())
        # what should come out
        want = dict(model); fail = False; extracts = []
        if pixels is not None: want["label.qoi"] = None
        for o in ops:
            n = apply(want, o, fs)
            if o[0] == "extract": extracts.append(o)
            elif n is None: fail = True
            else: want = n
        for o in extracts:
            if o[1] not in want: fail = True
        haslab = any(n in want for n in ref64.LABELS)
        lab = (pixels if pixels is not None and "label.qoi" in want and want["label.qoi"] is None else label_of(want)) if haslab else None
        if any(q == ["side", "tiny-rom"] for q in ops) and not tiny_ok(want): ops = [q for q in ops if q[0] != "side"]
        for q in ops:
            if q[0] == "side" and (lab is None if q[1] == "label" else want.get("main.lua") is None): fail = True
        xs = [W + xname(s, q) for q in ops if q[0] in ("extract", "side")]
        def isx(p): return any(p == x or p.startswith(x + "/") for x in xs) or p.startswith(W + "x%d_" % s["n"])
        for p in list(fs):
            if isx(p): k.remove(p)
        o = [[cur], [out]]; stdin = b""
        if how == "inplace": o[1] = ["-i"]
        if how == "stdin": stdin = k.get(W + cur); o[0] = ["-"]; o.append(["-F", fmt])
        elif how == "url":
            u = "http://carts.test/" + cur; k.net[u] = {"body": k.get(W + cur), "chunked": s["seed"] % 2 == 0, "seed": s["seed"]}
            o[0] = [u]; o += [["--url"], ["-F", fmt]]
        if how == "stdout": o[1] = ["-"]; o.append(["-f", ofmt])
        elif how == "extra": o[1] = ["--extra-output", out, ofmt]; o.append(["--version"])
        elif ofmt == "dir" and how != "inplace": o.append(["-f", "dir"])
        comp = list(s["comp"])
        for c in comp: o.append([c])
        keep_label = "--keep-label" in comp or ofmt != "png" or how in ("extra", "inplace")
        if s.get("clean") and ofmt == "dir": o.append(["--clean-output-dir"])
        if ofmt in EXPORT: o.append(["--picotron-dat", "picotron.dat"])
        for op in ops:
            if op[0] == "filter": o.append(["--filter", op[1]])
            elif op[0] == "insert": o.append(["--insert", op[1]] + ([op[2]] if op[2] else []) + op[3:])
            elif op[0] == "merge": o.append(["--merge", op[1], op[2]])
            elif op[0] == "extract": o.append(["--extract", op[1]] + (["x%d_%s" % (s["n"], op[2])] if op[2] else []))
            elif op[0] == "side": o.append(["--extra-output", "x%d_%s" % (s["n"], op[1]), op[1]])
            elif op[0] == "delmeta": o.append(["--delete-meta", op[1]]); o += [["--keep-meta-keys", op[2]]] if op[2] else []
            elif op[0] == "version": o.append(["--output-version", str(op[1])])
        if s.get("bad") == "insert": o.append(["--insert", "nosuch.bin"]); fail = True
        elif s.get("bad") == "merge": o.append(["--merge", "nosuch.p64", "*"]); fail = True
        elif s.get("bad") == "extract": o.append(["--extract", "no/such", "x_no"]); fail = True
        if [x for x in s["ops"] if x[0] == "list"] and how != "inplace":
            v = listing(ctx, k, s, cur, fmt, model, pixels)
            if v: return Viol(v.kind, v.msg, sp)
        st = {"tool": "shrinkotron", "opts": o, "stdin": stdin, "seed": s["seed"]}
        before = k.snapshot()
        what = "step %d (%s -> %s via %s, %s)" % (s["n"], fmt, ofmt, how, " ".join(x for g in o for x in g))
        if s.get("kill") and how != "inplace":
            # a first attempt that dies somewhere; the input must be as before, and the second attempt must work
            kind, frac = s["kill"]
            r0 = ctx.step(ctx_kernel(ctx, k), st)
            r = ctx.step(k, st, faults=[{"at": int(frac * len(r0.log)), "f": kind}])
            d = {p: w for p, w in frame.diff_snap(before, k.snapshot()).items() if not (p == W + out or p.startswith(W + out + "/") or isx(p))}
            if d: return Viol("collateral", "%s: an attempt that ended early (%s) changed %s" % (what, common.where(r), sorted(d)[:4]), sp)
            for p in list(k.snapshot()):
                if p.startswith(W + out) or isx(p): k.remove(p)
            for p, dd in before.items():
                if (p == W + out or p.startswith(W + out + "/")): k.put(p, dd)
            ctx.probes["killed_attempts"] += 1
        r = ctx.step(k, st, knobs=dict(s["knobs"]))
        after = k.snapshot()
        if r.status == "hang": return Viol("hang", "%s does not end" % what, sp)
        if fail:
            if r.status == 0: return Viol("accepted", "%s succeeded, although it asks for something that is not there" % what, sp)
            ctx.probes["impossible_refused"] += 1
            if s.get("bad") in ("insert", "merge"):
                d = frame.diff_snap(before, after)
                if d: return Viol("collateral", "%s failed, but changed %s" % (what, sorted(d)[:4]), sp)
            elif how == "inplace": return None
            for p in list(k.snapshot()):
                if how != "inplace" and (p.startswith(W + out) or isx(p)): k.remove(p)
            continue
        if r.status != 0:
            if ofmt == "png" and b"too much" in r.err: return None
            return Viol("refused", "%s failed (status %s): %s" % (what, r.status, common.tail(r)), sp)
        data = r.out if how == "stdout" else None
        try: got = decode(k, ofmt, W + out, data)
        except (Bad, ValueError, IndexError, KeyError, AttributeError, TypeError, struct.error) as e:
            return Viol("undecodable", "%s succeeded, but the result is no valid %s: %s: %s" % (what, ofmt, type(e).__name__, e), sp)
        mine = dict(want)
        if ofmt == "dir" and not s.get("clean"):
            over = {p[len(W + out) + 1:] + ("/" if d is None else ""): d for p, d in before.items() if p.startswith(W + out + "/")}
            over.update(want); want = over
        if ofmt == "dir": haslab = any(n in want for n in ref64.LABELS)
        w2 = dict(want)
        if not keep_label:
            for n in ref64.LABELS: w2.pop(n, None)
        why = compare(w2, got, pixels)
        if why: return Viol("altered", "%s: %s" % (what, why), sp)
        # the label, when it came out of an image
        if pixels is not None and keep_label and (want.get("label.qoi", 0) is None):
            gl = label_of(got)
            if gl is None or bytes(a & ~7 for a in gl) != pixels: return Viol("label", "%s: the label of the image did not survive" % what, sp)
            for n in ref64.LABELS:
                if n in got: want.pop("label.qoi", None); want[n] = got[n]; break
        for op in extracts:
            v = extracted(k, s, op, mine, what, sp)
            if v: return v
            ctx.probes["extracted"] += 1
        for op in ops:
            if op[0] == "side":
                v = sided(ctx, k, s, op, mine, lab, what, sp)
                if v: return v
        if how == "stdout": k.put(W + out, data)
        ctx.probes["converted:" + ofmt] += 1
        for op in ops: ctx.probes["op:" + op[0]] += 1
        pixels = None
        model = {p: d for p, d in want.items()}
        if ofmt == "dir":
            for p in list(model): parents_into(model, p)
        if ofmt == "png":
            px = ref64.png_label(k.get(W + out))
            if lab is not None and bytes(a & ~7 for a in lab) != px: return Viol("label", "%s: the image does not show the cart's label" % what, sp)
            if not keep_label:
                for n in ref64.LABELS: model.pop(n, None)
            if not any(n in model for n in ref64.LABELS): pixels = px
        for n in ref64.LABELS:
            if n in model and model[n] is None: del model[n]
        cur, fmt = out, ofmt
    return None

def ctx_kernel(ctx, k):
    """A copy of the machine"""
    c = ctx.kernel({}); c.restore(k.snapshot()); c.net = dict(k.net); return c

def listing(ctx, k, s, cur, fmt, model, pixels):
    r = ctx.step(k, {"tool": "shrinkotron", "opts": [[cur], ["--list"]], "seed": s["seed"]}, knobs=dict(s["knobs"]))
    if r.status != 0: return Viol("refused", "listing %s failed: %s" % (cur, common.tail(r)))
    got = r.out.decode("utf-8", "surrogateescape").split("\n")[:-1]
    want = set(model) | ({"label.qoi"} if pixels is not None else set())
    if len(set(got)) != len(got): return Viol("list", "--list shows a path twice: %s" % sorted(got))
    fix = lambda names: sorted("label" if n in ref64.LABELS else n for n in norm({n: None for n in names}))
    if fix(got) != fix(want): return Viol("list", "--list shows %s, the cart holds %s" % (sorted(got), sorted(want)))
    ctx.probes["listed"] += 1

def xname(s, op):
    if op[0] == "side": return "x%d_%s" % (s["n"], op[1])
    return "x%d_%s" % (s["n"], op[2]) if op[2] else op[1].rstrip("/").rsplit("/", 1)[-1]

def tiny_ok(want):
    """Code a tiny rom can hold, and that cannot be mistaken for something else"""
    d = want.get("main.lua")
    if d is None: return True
    return is_raw(d) and not prefix(d) and 3 <= len(d) < 30000 and b"\0" not in d and not d.startswith((b"p64", b":c:"))

def sided(ctx, k, s, op, want, lab, what, sp):
    dst = W + xname(s, op); d = k.get(dst)
    if d is None: return Viol("side", "%s: there is no %s" % (what, op[1]), sp)
    ctx.probes["side:" + op[1]] += 1
    if op[1] == "label":
        got = ref64.label_rgb("label.png", d)
        if got is None or bytes(a & ~7 for a in got) != bytes(a & ~7 for a in lab): return Viol("side", "%s: the label written shows something else" % what, sp)
        return None
    if op[1] == "tiny-rom":
        r = ctx.step(k, {"tool": "shrinkotron", "opts": [[dst], [dst + ".rom"], ["-F", "tiny-rom"]], "seed": s["seed"]})
        if r.status != 0: return Viol("side", "%s: the tiny rom cannot be read: %s" % (what, common.tail(r)), sp)
        d = ref64.read_rom(k.get(dst + ".rom")).get("main.lua"); k.remove(dst + ".rom")
    if d != want["main.lua"]: return Viol("side", "%s: the code in the %s is %s instead of %s" % (what, op[1], frame.brief(d), frame.brief(want["main.lua"])), sp)

def extracted(k, s, op, want, what, sp):
    dst = W + xname(s, op)
    path = op[1]
    if path in ref64.LABELS: return None
    try:
        if path.endswith("/"):
            got = ref64.from_snap(k.snapshot(), dst.rstrip("/"))
            exp = {p[len(path):]: d for p, d in want.items() if p.startswith(path) and p != path and not p.endswith("label.qoi")}
            why = compare(exp, got, None)
            return Viol("extract", "%s: extracting %r: %s" % (what, path, why), sp) if why else None
        d = k.get(dst.rstrip("/"))
        if d is None: return Viol("extract", "%s: extracting %r left nothing at %s" % (what, path, dst), sp)
        why = compare({path: want[path]}, {path: d}, None)
        return Viol("extract", "%s: extracting %r: %s" % (what, path, why), sp) if why else None
    except Bad as e: return Viol("extract", "%s: extracting %r: %s" % (what, path, e), sp)

def key(spec): return spec["start"] + ">" + ">".join("%s/%s/%s" % (s["fmt"], s["how"], ",".join(o[0] for o in s["ops"])) for s in spec["steps"])
def shrink(spec):
    for c in frame.drop_each(spec["steps"], 1): yield dict(spec, steps=c)
    for i, s in enumerate(spec["steps"]):
        def sub(**q): return dict(spec, steps=spec["steps"][:i] + [dict(s, **q)] + spec["steps"][i + 1:])
        for c in frame.drop_each(s["ops"]): yield sub(ops=c)
        for q in ({"knobs": {}}, {"comp": []}, {"prior": None}, {"how": "file"}, {"kill": None}, {"stale": None}):
            if any(s.get(a) != b for a, b in q.items() if s.get(a) or b): yield sub(**q)
    if spec["start"] == "dir":
        p0 = W + "s0/"
        names = [p for p in spec["files"] if p.startswith(p0)]
        for c in frame.drop_each(names):
            c = set(c); yield dict(spec, files={p: d for p, d in spec["files"].items() if not p.startswith(p0) or p in c})
def describe(spec): return {"start": spec["start"], "steps": [{a: b for a, b in s.items() if a not in ("prior", "seed")} for s in spec["steps"]]}
