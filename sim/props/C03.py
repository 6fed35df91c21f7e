"""C03: directory outputs stay inside the chosen directory"""
import os, random
from .. import frame, gen8, gen64, plan, ref8, ref64
from ..frame import Viol
from . import common

W = "/sim/work/"
# (argument, where that is, working directory)
ROOTS = [("out", "/sim/work/out", None), ("out/", "/sim/work/out", None), ("./out", "/sim/work/out", None), ("deep/er/out", "/sim/work/deep/er/out", None),
         ("../other/out", "/sim/other/out", None), ("/sim/abs/out", "/sim/abs/out", None), ("a/../out", "/sim/work/out", None), ("out.d", "/sim/work/out.d", None),
         ("lnk", "/sim/real/out", None), ("out", "/sim/work/sub/out", "/sim/work/sub")]
DECOYS = ["/sim/evil.txt", "/sim/etc/passwd", "/sim/work/evil.txt", "/sim/work/out2/evil.txt", "/sim/work/outside/evil.txt", "/sim/work/keep/a.txt", "/sim/evil.p8",
          "/sim/work/evil.p8", "/sim/other/evil.txt", "/sim/abs/evil.txt", "/sim/home/x", "/sim/work/main.lua", "/sim/real/evil.txt", "/sim/work/a.lua", "/sim/work/sub/evil.txt"]

def evil(r, root):
    """A name that tries to get out of the directory, or is just odd"""
    base = root.rsplit("/", 1)[1]
    return r.choice(("../evil.txt", "../../evil.txt", "../../../../../../sim/evil.txt", "a/../../evil.txt", "/sim/evil.txt", "/sim/etc/passwd", "//sim/evil.txt", "../" + base + "2/evil.txt",
        "../" + base + "side/evil.txt", "..", "../", ".", "./", "./../evil.txt", "./ok.txt", "a/./ok.txt", "a//ok.txt", "a/../ok.txt", "..\\evil.txt", "C:\\evil.txt", "...", "..../x", "~/evil.txt", "~",
        "$HOME/evil", "-rf", "a" * 255, "b" * 256, "d/" * 40 + "x", "a/..", "a/b/../../../evil.txt", "sub/../../keep/a.txt", ".../evil.txt", ".. /evil.txt", "..a", "..a/x", "a..", "%2e%2e/evil.txt",
        "\uff0e\uff0e/evil.txt", "con", "nul", "../" * 12 + "sim/etc/passwd", "/etc/evil-shrinko-test", "../lnk/evil.txt", "*", "?", "x:y", "..;/evil", "evil.txt/../../evil.txt", "../" + base + "/../evil.txt"))

def hostile8(r, root):
    n = evil(r, root)
    if r.random() < 0.6: n = n.rstrip("/") + r.choice((".p8", ".P8.PNG", ".pod", "/../evil.p8", ""))
    return n.encode()[:62].decode("utf-8", "ignore")

def twin(r, n):
    """Another name for which the file system has no other name"""
    for ch in r.sample("\\/:*?<>|_", 9):
        if ch in n: return n.replace(ch, r.choice("_:/?".replace(ch, "")), 1)
    return n + "."

def gen(r, ctx, i):
    arg, root, cwd = r.choice(ROOTS)
    files = {d: b"precious " + d.encode() for d in DECOYS}; links = {}
    base = (cwd or "/sim/work") + "/"
    files[base.rstrip("/")] = None
    kind = r.choice(("conv", "conv", "conv", "extra", "extract", "dump64", "bin64", "dump8", "dump8", "dump8", "dumpdat", "bin8", "inplace"))
    if arg.startswith("a/.."): files[W + "a"] = None
    s = dict(kind=kind, root=root, clean=r.random() < 0.4, hostile=r.random() < 0.75, expect=None, carts=None)
    existing = r.random() < 0.6
    if arg == "lnk": links[W + "lnk"] = root; files[root] = None; existing = True; s["clean"] = False
    env = None; tool = "shrinko8"
    if kind in ("conv", "extra", "extract", "dump64", "bin64", "inplace"):
        tool = "shrinkotron"
        cart = gen64.small(r)
        bad = []
        if s["hostile"] and kind not in ("inplace",):
            for _ in range(r.choice((1, 1, 2, 3))):
                n = evil(r, root)
                if "\0" in n or n in cart or n.rstrip("/") in [p.rstrip("/") for p in cart]: continue
                if r.random() < 0.4:
                    for q in ref64.parents(n): cart.setdefault(q, None)
                cart[n] = None if n.endswith("/") else b"stolen"
                bad.append(n)
            if r.random() < 0.5: cart = gen64.order(cart)
        if kind != "dump64" and kind != "inplace":
            fmt = r.choice(("p64", "rom", "rom"))
            data = gen64.encode(cart, fmt, r)
            files[base + "in" + gen64.EXT[fmt]] = data; inp = "in" + gen64.EXT[fmt]
        if kind == "conv": opts = [[inp], [arg], ["-f", "dir"]]
        if kind == "extra": opts = [[inp], ["--extra-output", arg, "dir"]]
        if kind in ("conv", "extra"):
            s["expect"] = {p: d for p, d in cart.items() if p not in ref64.LABELS}
            if r.random() < 0.2: opts.append([r.choice(("-M", "-u", "--base64-pods"))])
            if r.random() < 0.1: opts.append(["--filter", "*"]); s["expect"] = None
        if kind == "extract":
            dirs = [p for p in cart if p.endswith("/")] + [""]
            p = r.choice(dirs if r.random() < 0.7 else sorted(cart)) or sorted(cart)[0]
            opts = [[inp], ["--extract", p if r.random() < 0.8 else p.rstrip("/"), arg]]
            s["single"] = not p.endswith("/")
        if kind == "dump64":
            ents = [b"x", ref64.write_rom(cart, r), ref64.write_rom(gen64.small(r), r)] + ([b"junk"] if r.random() < 0.5 else [])
            files[base + "in.dat"] = ref64.write_dat(ents)
            opts = [["in.dat"], ["--dump", arg]] + ([["-f", r.choice(("dir", "rom", "p64"))]] if r.random() < 0.8 else [])
        if kind == "bin64":
            files[base + "picotron.dat"] = gen64.dat(0)
            opts = [[inp], [arg], ["-f", "bin"], ["--picotron-dat", "picotron.dat"]]
        if kind == "inplace":
            gen64.put(files, cart, "dir", root, r); existing = True
            opts = [[arg], ["-i"], ["-F", "dir"]]
    else:
        cart = gen8.small(r)
        if kind == "dump8":
            f = r.choice(("js", "pod")); carts = []
            for j in range(r.choice((1, 2, 4))):
                n = hostile8(r, root) if s["hostile"] else r.choice(("c%d.p8", "sub_%d.p8", "Game %d.p8.png", "x%d")) % j
                if f == "js": n = "".join(ch for ch in n if ch not in ",`]\n'\"") .strip()
                if carts and r.random() < 0.15: n = twin(r, carts[-1][0])
                if n not in [c[0] for c in carts] and n: carts.append((n, gen8.small(r)))
            if not carts: carts = [("c.p8", cart)]
            files[base + "in." + f] = gen8.encode(carts[0][1], f, r, name=carts[0][0], others=carts[1:])
            fmt = r.choice((None, "rom", "p8", "lua"))
            opts = [["in." + f], ["--dump", arg]] + ([["-f", fmt]] if fmt else []) + ([["--dump-misc-too"]] if r.random() < 0.3 else [])
            if fmt in (None, "rom", "p8"): s["carts"] = [fmt or "p8", [(n, c.code, bytes(c.rom)) for n, c in carts]]
        if kind == "dumpdat":
            def pod(depth):
                es = []
                for j in range(r.randint(1, 3)):
                    n = hostile8(r, root) if s["hostile"] else "f%d" % j
                    if depth < 2 and r.random() < 0.4: es.append(ref8.pod_file((n[:56] + r.choice((".pod", ".POD", "/.pod", "...pod", ".pod"))) if r.random() < 0.6 or not s["hostile"] else r.choice(("...pod", "..pod", ".pod", "../..pod", ".....pod", "../...pod", "...pod/...pod")), pod(depth + 1), r.random() < 0.3, r))
                    elif r.random() < 0.2: es.append(ref8.pod_bmp(4, 4, 32, bytes(64)))
                    else: es.append(ref8.pod_file(n, bytes(r.randrange(256) for _ in range(20)), r.random() < 0.3, r))
                return ref8.pod_pack(es)
            files[base + "in.dat"] = pod(0)
            opts = [["in.dat"], ["--dump", arg]]
        if kind == "bin8":
            files[base + "pico8.dat"] = gen8.dat(0); files[base + "in.p8"] = gen8.encode(cart, "p8", r)
            opts = [["in.p8"], [arg], ["-f", "bin"], ["--pico8-dat", "pico8.dat"]]
            if s["hostile"]: opts.append(["--output-cart", hostile8(r, root) or "x"])
    if existing:
        files.setdefault(root, None)
        for n in r.sample(("stale.txt", "old/stale.bin", "main.lua", "src", "src/stale.lua", "empty", "evil.txt", "a", "c0.p8", "out/evil.txt", "main.lua/x", "notes.txt/y", "evil.txt/z"), r.randint(1, 4)):
            p = root + "/" + n
            if any(q.startswith(p + "/") or p.startswith(q + "/") and d is not None for q, d in files.items()): continue
            files[p] = b"stale" if n != "empty" else None
        if kind == "inplace": pass    # (links in the edited directory are the user's own, and followed)
        elif r.random() < 0.3: links[root + "/stale_link"] = r.choice(("/sim/work/keep", "../../../sim/work/keep", "/sim/etc/passwd", "/sim/nowhere"))
        if kind != "inplace" and r.random() < 0.2: links[root + "/old2/l"] = "/sim/work/keep"
    elif root.count("/") > 3 and r.random() < 0.5: files.setdefault(root.rsplit("/", 1)[0], None)
    if arg == "out" and cwd: files[cwd] = None
    if arg == "../other/out": files.setdefault("/sim/other", None)
    if s["clean"]: opts.append(["--clean-output-dir"])
    s.update(files=files, links=links, cmd=dict(tool=tool, opts=opts, cwd=cwd or "/sim/work", env=env, stdin=b""), variants=[])
    k, _, b = common.run_cmd(ctx, s)
    fsites = plan.sites(b.log)
    for _ in range(2):
        v = {"faults": [], "knobs": {}}
        if r.random() < 0.3: v["faults"].append({"at": r.randrange(len(b.log)), "f": r.choice(("crash", "int", "memory", "crash_after"))})
        elif r.random() < 0.2: v["knobs"]["disk_free"] = r.choice((0, 10, 1000))
        else:
            for _ in range(r.choice((1, 2))):
                x = plan.pick(r, fsites, classes=r.choice((None, ("dirmod", "stat", "list", "open_w"))))
                if x: v["faults"].append(plan.fault(r, x))
        s["variants"].append(v)
    return s

def judge(ctx, spec, before, after, r, what, faulted):
    root = spec["root"]
    if r.escapes: return "the run tried to change something outside the simulated disk: %s" % r.escapes[:3]
    for p, how in sorted(frame.diff_snap(before, after).items()):
        if frame.under(p, root):
            if p == root and how == "deleted" and not spec["clean"]: return "%s is gone though --clean-output-dir was not given" % p
            if how == "deleted" and not spec["clean"]: return "%s was deleted though --clean-output-dir was not given" % p
        elif root.startswith(p + "/") and how == "created" and after[p] is None: pass # parent of the output
        else: return "%s was %s, outside %s" % (p, how, root)
    return None

def execute(spec, ctx):
    k = ctx.kernel(spec); before = k.snapshot()
    r = ctx.step(k, spec["cmd"]); after = k.snapshot()
    sp = dict(spec, variants=[])
    w = judge(ctx, spec, before, after, r, "", False)
    if w: return Viol("outside", w, sp)
    root = spec["root"]; stale = {p: d for p, d in before.items() if p.startswith(root + "/")}
    # what this command produces, from a run into a directory that is not there yet
    bare = ctx.kernel(dict(spec, links={p: t for p, t in (spec["links"] or {}).items() if not p.startswith(root + "/")}))
    if spec["kind"] != "inplace":
        for p in sorted(stale, reverse=True): bare.remove(p)
        if "lnk" not in str(spec["cmd"]["opts"]): bare.remove(root)
    rb = ctx.step(bare, spec["cmd"]); made = {p: d for p, d in bare.snapshot().items() if frame.under(p, root)}
    if r.status == 0:
        ctx.probes["written"] += 1
        if spec["hostile"]: ctx.probes["hostile_placed_inside"] += 1
        for p, d in stale.items():
            if p in made or spec["clean"] and spec["kind"] != "inplace": continue
            if spec["kind"] in ("inplace", "extract"): continue    # (a single file extracted to a directory goes into it)
            if after.get(p, 0) != d: return Viol("stale", "%s is not produced by this run but was changed" % p, sp)
        if spec["clean"] and spec["kind"] not in ("inplace", "extract") and rb.status == 0:
            got = {p: d for p, d in after.items() if frame.under(p, root)}
            if set(got) != set(made): return Viol("clean", "after --clean-output-dir the directory holds %s instead of exactly %s" % (sorted(set(got) - set(made))[:5], sorted(set(made) - set(got))[:5]), sp)
        if spec["expect"] is not None:
            for p, d in spec["expect"].items():
                q = os.path.normpath(root + "/" + p)
                if not frame.under(q, root): return Viol("dropped", "the cart holds %r, which is outside %s, but the run succeeded" % (p, root), sp)
                if q not in after or (after[q] is None) != p.endswith("/") and q != root:
                    return Viol("dropped", "the run succeeded, but %r from the cart is not at %s (%s)" % (p, q, "missing" if q not in after else "a directory" if after[q] is None else "a file"), sp)
        if spec["carts"]:
            fmt, carts = spec["carts"]
            for n, code, rom in carts:
                hit = False
                for p, d in after.items():
                    if not p.startswith(root + "/") or not isinstance(d, bytes) or p in stale and stale[p] == d: continue
                    try: c = ref8.decode_rom(d) if fmt == "rom" else ref8.parse_p8(d)
                    except (ref8.Bad, ValueError, IndexError): continue
                    if c.code == code and bytes(c.rom) == rom: hit = True
                if not hit: return Viol("lost", "the dump succeeded, but no file in %s holds cart %r" % (root, n), sp)
            ctx.probes["dumped_carts_found"] += len(carts)
    elif r.status == "hang": return Viol("hang", "the run does not end", sp)
    else:
        ctx.probes["refused"] += 1
        if not spec["hostile"] and rb.status == 0 and not any(p in before and (before[p] is None) != (d is None) or isinstance(before.get(os.path.dirname(p)), bytes) for p, d in made.items()): return Viol("refused", "the run fails (%s) though every name fits: %s" % (r.status, common.tail(r)), sp)
    for v in spec["variants"]:
        k = ctx.kernel(spec)
        r = ctx.step(k, spec["cmd"], faults=v["faults"], knobs=dict(v["knobs"]))
        w = judge(ctx, spec, before, k.snapshot(), r, "", True)
        ctx.probes["faulted"] += 1
        if w: return Viol("outside", "%s (%s)" % (w, common.where(r) or v["knobs"]), dict(spec, variants=[v]))
    return None

def key(spec): return "%s/%s/%s/%s/%s" % (spec["kind"], spec["root"], spec["clean"], spec["hostile"], sorted(f["f"] + f.get("on", "").split(" ")[0] for v in spec["variants"] for f in v["faults"]))
def shrink(spec):
    for c in frame.drop_each(spec["variants"]): yield dict(spec, variants=c)
    for p in list(spec["files"]):
        if not (p.rsplit("/", 1)[-1].startswith(("in.", "pico"))): yield dict(spec, files={a: b for a, b in spec["files"].items() if a != p})
    for p in list(spec["links"] or {}):
        if p != W + "lnk": yield dict(spec, links={a: b for a, b in spec["links"].items() if a != p})
def describe(spec): return dict(common.describe_cmd(spec), root=spec["root"], clean=spec["clean"], variants=spec["variants"])
