"""C18: merging replaces exactly the named sections"""
import random
from .. import frame, gen8, plan, ref8
from ..frame import Viol
from . import common, C05

W = "/sim/work/"
SECTIONS = ("lua", "gfx", "map", "gff", "music", "sfx", "label")
METAS = ("notes", "author", "a.b", "title")
SRC = ("p8", "p8", "p8", "rom", "png", "clip", "url", "lua", "js", "pod", "label", "spritesheet")
OUT = ("p8", "p8", "p8", "p8", "rom", "png", "lua", "tiny-rom", "code", "js", "label", "spritesheet")
EXT = dict(gen8.EXT, label=".png", spritesheet=".png")

def source(r, full=True):
    c = ref8.Cart(gen8.lua(r, r.choice((1, 4, 10))), None, None, None, r.choice(gen8.VERSIONS))
    for n, (a, b) in ref8.Cart.SECT.items():
        k = r.randrange(4)
        if k == 0: continue
        if k == 1: c.rom[a] = r.randrange(256); c.rom[b - 1] = r.randrange(256)
        elif k == 2: c.rom[a:b] = bytes([r.randrange(1, 256)]) * (b - a)
        else: c.rom[a:b] = bytes(r.getrandbits(8) for _ in range(b - a))
    if r.random() < 0.6: c.label = gen8.label(r)
    for m in METAS:
        if r.random() < 0.45: c.meta[m] = ["%s %d" % (m, r.randrange(1000)) for _ in range(r.randint(1, 3))]
    if r.random() < 0.2: c.code = "-- a title\n--by me\n" + c.code
    return c

def put(files, p, f, c, r):
    if f == "label" or f == "spritesheet":
        l = bytearray(c.label) if c.label is not None else bytearray(r.choice((0, 5, 31)) for _ in range(16384))
        if f == "spritesheet" and r.random() < 0.7: l = bytearray(r.randrange(16) for _ in range(16384))
        d = ref8.png_write(128, 128, ref8.label_rgba(l))
    else: d = gen8.encode(c, f, r, name="one.p8", others=[("two.p8", source(r))] if f in ("js", "pod") and r.random() < 0.5 else ())
    if d is not None: files[W + p] = d
    return d is not None

def gen(r, ctx, i):
    files = {W + "pico8.dat": gen8.dat(0), W + "junk.p8.png": b"\x89PNG\r\n\x1a\n", W + "junk.p8": b"pico-8 cartridge // x\nversion 41\n__gfx__\nzz\n"}
    main = source(r); f0 = r.choice(("p8", "p8", "p8", "rom", "png", "lua"))
    start = "main" + EXT[f0]
    while not put(files, start, f0, main, r): main = source(r)
    pool = []
    for j in range(r.randint(1, 4)):
        f = r.choice(SRC); p = "m%d%s" % (j, EXT[f])
        if put(files, p, f, source(r), r): pool.append([p, f])
    files[W + "lab.png"] = ref8.png_write(128, 128, ref8.label_rgba(gen8.label(r) or bytearray([7] * 16384)))
    steps = []; npng = 0
    for n in range(r.choice((1, 1, 2, 3, 4))):
        of = r.choice(OUT)
        if of == "png": npng += 1
        if npng > 2: of = "p8"
        s = {"out": of, "how": r.choice(("file", "file", "stdout", "extra", "inplace", "stdin")), "merges": [], "seed": r.randrange(1 << 20), "n": n}
        for _ in range(r.choice((0, 1, 1, 2, 3))):
            if not pool: break
            j = r.randrange(len(pool)); f = pool[j][1]
            secs = r.sample(SECTIONS, r.choice((1, 1, 2, 3, 7)))
            if f == "label": secs = ["label"]
            if f == "spritesheet": secs = ["gfx"] + ([] if r.random() < 0.8 else ["map"])
            if r.random() < 0.25: secs.insert(r.randrange(len(secs) + 1), "meta:" + r.choice(METAS))
            s["merges"].append([j, secs, r.choice((",", ",", ", ", " "))])
        if r.random() < 0.2: s["label"] = "lab.png"
        if r.random() < 0.2: s["title"] = [r.choice(("Hello World", "a", "x-y z!")), "by bob"][:r.randint(1, 2)]
        if r.random() < 0.25: s["version"] = r.choice(gen8.VERSIONS); s["vform"] = r.random() < 0.5
        elif r.random() < 0.1: s["version"] = "latest"
        if of == "p8" and r.random() < 0.2: s["sections"] = r.sample(SECTIONS + ("meta:notes", "meta:title"), r.randint(1, 6))
        if r.random() < 0.15: s["bad"] = r.choice(("missing", "junk", "junkp8", "section", "label", "labelbad", "version", "dir"))
        elif r.random() < 0.2: s["fault"] = [r.choice(("EIO", "EACCES", "ENOENT", "EMFILE", "ESTALE")), r.random()]
        if r.random() < 0.3: s["knobs"] = {k: "random" for k in plan.frag(r) if k != "bufsize"}
        if r.random() < 0.15: s["keep"] = 1
        s["prior"] = r.random() < 0.5
        steps.append(s)
    return dict(files=files, start=[start, f0], pool=pool, steps=steps, kseed=0)

def read(fmt, data):
    if fmt in ("label", "spritesheet"):
        w, h, px = ref8.png_pixels(data)
        if (w, h) != (128, 128): raise ref8.Bad("image size")
        l = ref8.rgba_label(px, 128, 0, 0)
        if fmt == "label": return ref8.Cart("", None, l if any(l) else None)
        c = ref8.Cart()
        for i in range(0x2000): c.rom[i] = l[2 * i] & 15 | (l[2 * i + 1] & 15) << 4
        return c
    c = C05.decode(fmt, data)
    return C05.after_read(C05.project(c, fmt), fmt)

def vname(v):
    t = ref8.TUPLES[v]; return "v%d.%d.%d%s" % (t[0], t[1], t[2], chr(97 + t[3]) if t[3] else "")

def execute(spec, ctx):
    k = ctx.kernel(spec)
    cur, cf = spec["start"]; cart = read(cf, k.get(W + cur))
    srcs = [read(f, spec["files"][W + p]) for p, f in spec["pool"]]
    for si, s in enumerate(spec["steps"]):
        sp = dict(spec, steps=spec["steps"][:si + 1])
        want = cart.copy(); of = s["out"]; how = s["how"]
        if cf in ("label", "spritesheet"): return None
        if how == "inplace" and cf in ("js",): how = "file"
        if how in ("stdout", "stdin") and (of in ("js", "pod") or cf in ("js", "pod")): how = "file"
        if how == "inplace": of = cf
        out = cur if how == "inplace" else "o%d%s" % (s["n"], EXT[of])
        o = [[cur]] if how != "stdin" else [["-"]]
        stdin = k.get(W + cur) if how == "stdin" else b""
        if how == "stdin": o.append(["-F", cf])
        elif cf in ("tiny-rom", "code"): o.append(["-F", cf])
        if how == "inplace": o.append(["-i"])
        elif how == "extra": o += [["--extra-output", out, of.replace("-", "_")], ["--version"]]
        else:
            o.insert(1, [out] if how != "stdout" else ["-"])
            if how == "stdout" or of in ("tiny-rom", "code", "label", "spritesheet"): o.append(["-f", of])
        if of == "js": o.append(["--pico8-dat", "pico8.dat"])
        names = []
        if s.get("title"):
            for t in s["title"]: o.append(["--title", t])
            want.meta["title"] = list(s["title"])
        for j, secs, sep in s["merges"]:
            p, f = spec["pool"][j]; c = srcs[j]
            secs = [x for x in secs if not x.startswith("meta:") or x[5:] in c.meta]
            if s.get("title"): secs = [x for x in secs if x != "meta:title"]
            if not secs: continue
            names.append(W + p)
            o.append(["--merge", p, sep.join(secs)] + ([f.replace("-", "_")] if f in ("label", "spritesheet") else []))
            for x in secs:
                if x == "lua": want.code = c.code
                elif x == "label": want.label = c.label
                elif x.startswith("meta:"): want.meta[x[5:]] = list(c.meta[x[5:]])
                else: a, b = ref8.Cart.SECT[x]; want.rom[a:b] = c.rom[a:b]
        if s.get("label"):
            o.append(["--label", s["label"]]); names.append(W + s["label"])
            want.label = read("label", spec["files"][W + s["label"]]).label
        if s.get("version") == "latest": o.append(["--update-version"]); want.version = max(ref8.TUPLES)
        elif s.get("version"): o.append(["--output-version", vname(s["version"]) if s["vform"] else str(s["version"])]); want.version = s["version"]
        if s.get("keep"): o.append(["--keep-compression"])
        if s.get("sections") and of == "p8":
            o.append(["--output-sections", ",".join(s["sections"])])
            e = ref8.Cart("", None, None, None, want.version)
            for x in s["sections"]:
                if x == "lua": e.code = want.code
                elif x == "label": e.label = want.label
                elif x.startswith("meta:"):
                    if x[5:] in want.meta: e.meta[x[5:]] = want.meta[x[5:]]
                else: a, b = ref8.Cart.SECT[x]; e.rom[a:b] = want.rom[a:b]
            want = e
        bad = s.get("bad")
        if bad == "missing": o.append(["--merge", "nothere.p8", "gfx"])
        elif bad == "junk": o.append(["--merge", "junk.p8.png", "gfx"])
        elif bad == "junkp8": o.append(["--merge", "junk.p8", "sfx"])
        elif bad == "section": o.append(["--merge", "pico8.dat", "gfx", "lua"] if not spec["pool"] else ["--merge", spec["pool"][0][0], "gfx,colors"])
        elif bad == "label": o.append(["--label", "nolabel.png"])
        elif bad == "labelbad": o.append(["--label", "junk.p8.png"])
        elif bad == "version": o = [x for x in o if x[0] not in ("--output-version", "--update-version")] + [["--output-version", "0.2"]]
        elif bad == "dir": k.put(W + "adir/x", b"1"); o.append(["--merge", "adir", "gfx"])
        if bad == "section" and not spec["pool"]: bad = None; o.pop()
        if s["prior"] and how not in ("inplace", "stdout"): k.put(W + out, b"older\n" * 50)
        st = {"tool": "shrinko8", "opts": o, "stdin": stdin, "seed": s["seed"]}
        what = "step %d (%s): %s" % (si, cf, " ".join(a for g in o for a in g))
        snap = k.snapshot(); faults = ()
        if s.get("fault") and names:
            k2 = ctx.kernel({}); k2.restore(snap); b = ctx.step(k2, st, knobs=dict(s.get("knobs") or {}))
            rr = random.Random(s["seed"])
            ss = [i for i, (n, p, _) in enumerate(b.log) if p in names and n in ("open", "read")]
            if ss: faults = [{"at": rr.choice(ss), "f": s["fault"][0]}]
        r = ctx.step(k, st, faults=faults, knobs=dict(s.get("knobs") or {}))
        now = k.snapshot(); d = frame.diff_snap(snap, now)
        if r.status == "hang": return Viol("hang", what + " does not end", sp)
        if r.status != 0:
            if not bad and not r.fired and must(want, of): return Viol("refused", "%s fails (%s), though nothing is wrong: %s" % (what, r.status, common.tail(r)), sp)
            if d: return Viol("damage", "%s failed (%s; %s), but %s" % (what, r.status, common.where(r), d), sp)
            if how == "stdout" and r.out: return Viol("damage", "%s failed (%s), but wrote %s" % (what, r.status, frame.brief(r.out, 60)), sp)
            ctx.probes["refused:" + str(bad or ("fault" if r.fired else "size"))] += 1
            continue
        if bad: return Viol("accepted", "%s succeeds, though a source is unusable (%s)" % (what, bad), sp)
        if any(p != W + out for p in d): return Viol("damage", "%s changed %s" % (what, d), sp)
        data = r.out if how == "stdout" else k.get(W + out)
        try:
            if of in ("label", "spritesheet"): got = read(of, data)
            else: got = C05.decode(of, data)
            if got.code is None: got.code = ""
        except (ref8.Bad, ValueError, IndexError, KeyError, AttributeError, TypeError) as e:
            return Viol("undecodable", "%s leaves no valid %s: %s: %s; %s" % (what, of, type(e).__name__, e, frame.brief(data)), sp)
        if of == "label": df = [] if want.labelkey() == got.labelkey() else ["label"]
        elif of == "spritesheet": df = [] if want.sect("gfx") == got.sect("gfx") else ["gfx"]
        else: df = C05.differ(C05.project(want, of), got, of)
        if df: return Viol("wrong", "%s: the result has the wrong %s%s" % (what, ", ".join(df), C05.detail(want, got, df)), sp)
        ctx.probes["merged:" + of] += bool(names); ctx.probes["ok:" + of] += 1
        if how == "stdout": k.put(W + out, data)
        if of in ("label", "spritesheet"): continue
        v = want.version if want.version is not None else got.version
        cart = C05.after_read(C05.project(want, of), of)
        if "v" in C05.CARRY[of]: cart.version = v
        cur, cf = out, of
    return None

def must(cart, of):
    n = len(cart.code); return of in ("p8", "lua", "code", "label", "spritesheet") or n < 0x2800

def key(spec): return spec["start"][1] + ">" + ">".join("%s/%s/%s" % (s["out"], s["how"], "+".join(sorted({spec["pool"][j][1] + ":" + ",".join(sorted(q)) for j, q, _ in s["merges"]}))) for s in spec["steps"])
def shrink(spec):
    for c in frame.drop_each(spec["steps"], 1): yield dict(spec, steps=c)
    for i, s in enumerate(spec["steps"]):
        def sub(**q): return dict(spec, steps=spec["steps"][:i] + [dict(s, **q)] + spec["steps"][i + 1:])
        for q in ("label", "title", "version", "sections", "knobs", "fault", "keep"):
            if s.get(q): yield sub(**{q: None})
        if s["how"] != "file": yield sub(how="file")
        for c in frame.drop_each(s["merges"]): yield sub(merges=c)
        for j, m in enumerate(s["merges"]):
            for c in frame.drop_each(m[1], 1): yield sub(merges=s["merges"][:j] + [[m[0], c, m[2]]] + s["merges"][j + 1:])
def describe(spec): return {"start": spec["start"], "sources": spec["pool"], "steps": spec["steps"]}
