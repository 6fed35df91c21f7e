"""C02: runs touch only their outputs; failing runs leave outputs intact"""
import random
from .. import frame, genc, gen8, gen64, plan, ref8, ref64
from ..frame import Viol
from . import common

W = genc.W
BAD = ("missing", "garbage", "syntax", "include", "include_dir", "merge_missing", "merge_bad", "label_bad", "template_bad", "toolarge", "lint", "option", "surrogate_meta", "surrogate_meta",
       "export_missing_cart", "export_bad", "dat_bad", "dat_missing", "opt_format", "isdir", "script_missing", "template_bad", "hash")

KINDS = {"export_missing_cart": ("edit",), "export_bad": ("edit",), "dat_bad": ("export",), "dat_missing": ("export",), "hash": ("png",), "template_bad": ("png",),
         "toolarge": ("convert", "png", "inplace", "export"), "lint": ("convert", "png", "inplace", "export", "label"), "surrogate_meta": ("inplace", "convert", "multi")}
def break_cmd(c, r, how):
    """Turn a good command into one that must fail before output begins. -> description or None"""
    p8 = c.tool == "shrinko8"
    main_in = c.opts[0][0] if c.kind not in ("stdin", "url", "edit", "dump") and not c.opts[0][0].startswith("-") else None
    path = main_in and genc.W + main_in
    isf = path in c.files and isinstance(c.files[path], bytes)
    if how == "missing" and main_in and c.kind != "inplace" and isf: c.files.pop(path)
    elif how == "garbage" and isf and main_in and not main_in.endswith((".lua", ".p8", ".url", ".tiny", ".clip", ".js")): c.files[path] = bytes(r.randrange(256) for _ in range(r.choice((0, 3, 50, 500))))
    elif how == "isdir" and isf: c.files[path] = None; c.outs.pop(path, None)
    elif how == "syntax" and p8 and isf and main_in.endswith((".p8", ".lua")):
        bad = r.choice(("if then", "x = = 2", "local 3", "foo((", "\"unclosed", "[[ long", "end", "x=1 2", "for i=1 do end", "goto nowhere_1", "break", "?? x"))
        code = gen8.lua(r, 4) + "\n" + bad + "\n"
        c.files[path] = ref8.write_p8(ref8.Cart(code)) if main_in.endswith(".p8") else code.encode()
        if not any(o[0] in ("-m", "-M", "-c", "-l", "-U") for o in c.opts): c.opts.append([r.choice(("-m", "-c", "-l", "-U"))])
        if bad in ("break",) or bad.startswith("goto"): return None
    elif how in ("include", "include_dir") and p8 and isf and main_in.endswith((".p8", ".lua")) and c.kind != "include":
        inc = r.choice(("none.lua", "sub/none.lua", "none.p8", "main.lua:3", "have.p8:5")) if how == "include" else "idir"
        if inc == "main.lua:3": inc = "nothere.lua"
        if inc == "have.p8:5": c.files[W + "have.p8"] = ref8.write_p8(ref8.Cart("x=1\n-->8\ny=2"))
        if how == "include_dir": c.files[W + "idir"] = None
        code = gen8.lua(r, 2) + "\n#include " + inc + "\n" + gen8.lua(r, 2)
        c.files[path] = ref8.write_p8(ref8.Cart(code)) if main_in.endswith(".p8") else code.encode()
        if inc == "have.p8:5": return None if True else how
    elif how == "merge_missing" and main_in: c.opts.append(["--merge", "nope.p8" if p8 else "nope.p64", "gfx" if p8 else "*"])
    elif how == "merge_bad" and main_in:
        n = "mbad.rom" if p8 else "mbad.p64.png"
        c.files[W + n] = bytes(r.randrange(256) for _ in range(200)) if not p8 else b"\0" * r.randrange(0x4300)
        c.opts.append(["--merge", n, "gfx" if p8 else "*"])
        if p8: return None
    elif how == "label_bad" and p8 and main_in:
        c.files[W + "lab.png"] = r.choice((b"", b"not a png", ref8.png_write(64, 64, bytes(64 * 64 * 4)), ref8.png_write(128, 128, bytes(128 * 128 * 4))[:60]))
        c.opts.append(["--label", r.choice(("lab.png", "nolab.png"))])
    elif how == "template_bad" and len(c.outs) == 1 and any(f in ("png", "clip") for f in c.outs.values()):
        c.files[W + "tmp.png"] = r.choice((b"", b"nope", ref8.png_write(10, 10, bytes(400))))
        c.opts.append(["--template-image", r.choice(("tmp.png", "notmp.png"))])
    elif how == "toolarge" and p8 and c.outs and any(f in ("png", "rom", "url", "js", "pod", "clip") for f in c.outs.values()) and isf and main_in.endswith((".p8", ".lua")) and c.kind in ("convert", "png", "inplace", "export"):
        rr = random.Random(r.random())
        code = "x=\"" + "".join(rr.choice("abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ!@#$%^&*()_-+=<>,.?/|:;{}[]~` ") for _ in range(30000)) + "\""
        c.files[path] = ref8.write_p8(ref8.Cart(code)) if main_in.endswith(".p8") else code.encode()
        c.opts = [o for o in c.opts if o[0] in (main_in, "-i", "--in-place", "--pico8-dat", "-f", "--output-cart", "--fast-compression") or o[0] in [x[len(W):] for x in c.outs] or o[0] in ["./" + x[len(W):] for x in c.outs]]
    elif how == "lint" and isf and main_in.endswith((".p8", ".lua")) and p8 and c.kind in ("convert", "png", "inplace", "export", "label", "merge"):
        code = "x=1\nprint(undefined_thing_q)\nfunction f(a)\n local un=2\nend\n"
        c.files[path] = ref8.write_p8(ref8.Cart(code)) if main_in.endswith(".p8") else code.encode()
        if c.kind == "merge": return None
        c.opts = [o for o in c.opts if o[0] not in ("--no-lint-fail", "-l")] + [["-l"]]
    elif how == "option": c.opts.append(r.choice((["--no-such-option"], ["--count=3"], ["--unminify-indent", "x"], ["-f", "nope"], ["--output-version", "abc"], ["extra1", "extra2", "extra3"])))
    elif how == "opt_format": c.opts.append(["--extra-output", "xx.p8", "nope"])
    elif how == "export_missing_cart" and c.kind == "edit":
        for i, o in enumerate(c.opts):
            if o[0] in ("--replace-cart", "--delete-cart"): c.opts[i] = [o[0], "nosuch.p8"]; break
            if o[0] == "--rename-cart": c.opts[i] = [o[0], "nosuch.p8", "x.p8"]; break
            if o[0] == "--insert-cart": c.opts[i] = [o[0], "new.p8", "nosuch.p8"]; break
        else: return None
    elif how == "export_bad" and c.kind == "edit":
        p = [x for x in c.outs][0]; d = c.files[p]
        if p.endswith(".pod"): c.files[p] = r.choice((d[:len(d) // 2], b"", b"pod", d[:20]))
        else: c.files[p] = r.choice((d[:len(d) // 3], b"", b"no carts here"))
    elif how in ("dat_bad", "dat_missing") and c.kind == "export":
        n = W + ("pico8.dat" if p8 else "picotron.dat")
        if how == "dat_missing": c.files.pop(n)
        else: d = c.files[n]; c.files[n] = r.choice((b"", d[:100], d[:len(d) // 2], b"\0" * 500))
    elif how == "hash" and c.kind == "png" and p8 and isf and main_in.endswith(".png"): 
        c.files[path] = c.files[path][:len(c.files[path]) // 2]
    elif how == "script_missing": c.opts.append(["--script", "nothere.py"])
    elif how == "surrogate_meta" and p8 and isf and main_in.endswith(".p8") and "p8" in c.outs.values() and c.kind in ("inplace", "convert", "multi"):
        c.files[path] += b"__meta:notes__\n" + r.choice((b"caf\xe9\n", b"a\xffb\n", b"\xed\xa0\x80\n"))
    else: return None
    return how

def gen(r, ctx, i):
    if r.random() < 0.4:   # must fail early
        how = r.choice(BAD)
        for n in range(500):
            c = genc.command(r, KINDS.get(how), p64=0 if how in KINDS else 0.25)
            if break_cmd(c, r, how): break
        else: how = None
        if how is None:
            while not how:
                c = genc.command(r, p64=0.25); how = "missing" if break_cmd(c, r, "missing") else None
        spec = c.spec(); spec["how"] = how; spec["variants"] = [{}]
        vict(spec, r)
        return spec
    c = genc.command(r, p64=0.35)
    spec = c.spec(); vict(spec, r)
    k, _, base = common.run_cmd(ctx, spec)
    ss = plan.sites(base.log); nops = len(base.log); fm = plan.first_mutation(base)
    vs = [{}]
    for j in range(4):
        v = {"faults": [], "knobs": {}}; x = r.random()
        if x < 0.35:     # killed / interrupted, mostly around writing
            lo = max(0, fm - 3) if r.random() < 0.8 else 0
            v["faults"].append({"at": r.randrange(min(lo, nops - 1), nops), "f": r.choice(("crash", "crash", "crash_after", "int", "int_after", "memory"))})
            if r.random() < 0.5: v["knobs"] = plan.cap_frag(plan.frag(r), spec, base.log)
            if v["knobs"]: v["faults"][0]["at"] = int(v["faults"][0]["at"] * r.choice((1, 2, 5)))
        elif x < 0.5:
            n = sum(d for name, p, d in base.log if name == "write" and p.startswith("/sim"))
            v["knobs"]["disk_free"] = r.choice((0, 1, n // 2, max(0, n - 1), r.randrange(n + 1)))
        else:
            for _ in range(r.choice((1, 1, 2))):
                s = plan.pick(r, ss)
                if s: v["faults"].append(plan.fault(r, s))
        vs.append(v)
    spec["variants"] = vs
    return spec

VICT = {"/sim/work/victim.p8": b"victim", "/sim/other/victim.bin": b"v2", "/sim/victim": b"v3", "/sim/work/out/victim.lua": b"v4", "/sim/work/sub/victim": b"v5"}
def vict(spec, r):
    for p, d in VICT.items():
        if r.random() < 0.5: spec["files"].setdefault(p, d)

def execute(spec, ctx):
    outs, dirs = spec["outs"], spec["dirs"]
    early = spec.get("how")
    if early:
        k = ctx.kernel(spec); before = k.snapshot()
        v = spec["variants"][0]
        r = ctx.step(k, spec["cmd"]); after = k.snapshot()
        if r.status == 0: ctx.probes["early_but_succeeded:" + early] += 1; return None
        ctx.probes["early:" + early] += 1
        d = frame.diff_snap(before, after, ignore=[p for p, f in outs.items() if f == "text"])
        if d: return Viol("early", "the run failed (%s: %s) before output could begin, but %s" % (early, common.tail(r)[-160:], "; ".join("%s was %s (%s -> %s)" % (p, w, show(before.get(p, "missing")), show(after.get(p, "missing"))) for p, w in sorted(d.items()))))
        return None
    k = ctx.kernel(spec); before = k.snapshot()
    base = ctx.step(k, spec["cmd"]); want = k.snapshot()
    fm = plan.first_mutation(base)
    for v in spec["variants"]:
        sp = dict(spec, variants=[v])
        if v: 
            k = ctx.kernel(spec); r = ctx.step(k, spec["cmd"], faults=v.get("faults") or (), knobs=dict(v.get("knobs") or {})); after = k.snapshot()
        else: r, after = base, want
        what = common.where(r) or "no fault"
        if r.escapes: return Viol("escape", "the run reached outside (%s): %s" % (what, r.escapes[:3]), sp)
        diff = frame.diff_snap(before, after)
        for p, w in sorted(diff.items()):
            if p in outs or any(frame.under(p, d) for d in dirs): continue
            return Viol("stray", "%s was %s, but is no output of the command (%s; status %s)" % (p, w, what, r.status), sp)
        if not v: continue
        if r.status == 0: ctx.probes["ok"] += 1; continue
        ctx.probes["failed"] += 1
        readf = [f for f in r.fired if f["f"] not in ("short",) and r.log[f["at"]][0] in ("open", "read", "listdir", "connect", "recv", "send") and f["at"] < fm]
        if readf and not v.get("knobs") and r.log[readf[0]["at"]][:2] == base.log[readf[0]["at"]][:2] and readf[0] is r.fired[0]:
            ctx.probes["input_error"] += 1
            if diff: return Viol("early", "an input could not be read (%s), but %s" % (what, "; ".join("%s was %s" % x for x in sorted(diff.items()))), sp)
        if base.status != 0: continue
        for p in outs:
            a, b, n = before.get(p, b""), after.get(p, b""), want.get(p)
            if p in before and p not in after: return Viol("lost", "output %s was deleted (%s)" % (p, what), sp)
            if not isinstance(b, bytes) or not isinstance(n, bytes) or a == b or n.startswith(b): continue
            return Viol("mixed", "output %s is neither its old contents nor a prefix of the new (%s, status %s): %s, new %s" % (p, what, r.status, frame.brief(b), frame.brief(n)), sp)
    return None

def show(x): return x if isinstance(x, str) else "dir" if x is None else frame.brief(x, 60)
def key(spec):
    return "%s/%s/%s/%s" % (spec["tool"], spec["kind"], spec.get("how"), sorted(f["f"] + f.get("on", "").split(" ")[0] for v in spec["variants"] for f in v.get("faults", ())))
def shrink(spec): yield from frame.shrink_generic(spec)
def describe(spec): return dict(common.describe_cmd(spec), how=spec.get("how"), variants=spec["variants"])
