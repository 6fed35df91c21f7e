"""C14: one moment per export; nothing else depends on the clock"""
import io, struct, time, zipfile
from .. import frame, gen8, gen64, genc, ref8, ref64, runner
from ..frame import Viol, argv_of
from ..frontend import Real
from . import common

W = genc.W
ZONES = {"UTC": 0, "EST5": -5 * 3600, "JST-9": 9 * 3600, "<+0545>-5:45": 5 * 3600 + 45 * 60, "XXX-14": 14 * 3600, "YYY12": -12 * 3600}
# seconds since the epoch; the interesting ones: zero, before 1980, the two second steps, year ends, 32 bits, after 2107
CLOCKS = (0, 1, 86399, 3e8, 315532798, 315532799.5, 315532800, 315532801, 7.2e8, 951782399, 951868799.999, 1e9, 1.2e9, 1483228799, 1609459199, 1709164799, 1.7e9, 2147483646, 2147483648, 4e9, 4102444799,
          4354819197, 4354819199, 4354819200, 4.4e9, 1e10, 2e11)
MIN, MAX = (1980, 1, 1, 0, 0, 0), (2107, 12, 31, 23, 59, 58)

def clock(r): return r.choice((lambda: r.choice(CLOCKS), lambda: r.choice(CLOCKS) + r.randrange(-3, 4), lambda: r.randrange(315532800, 4354819200), lambda: r.randrange(10 ** 9, 2 * 10 ** 9) + r.random()))()

def plan_(r):
    p = {"tick": r.choice((0, 1e-4, 1e-4, 0.5, 3, 70, 4000, -0.5))}
    if r.random() < 0.4: p["read_tick"] = r.choice((0, 1, 2, 5, 86400))
    if r.random() < 0.6: p["jumps"] = [[r.choice((0, 0, 1, 2, 3, r.randrange(40))), r.choice((-1e6, -3600, -3, -2, 2, 3, 3600, 86400, 3e7, -3e8))] for _ in range(r.randint(1, 3))]
    return p

def export(r, d):
    """A full export of either tool -> (step, files, directory it writes)"""
    files = {}
    out = "exp%s.bin" % d
    if r.random() < 0.5:
        cart = gen8.small(r, "lua")
        if r.random() < 0.4: cart.label = gen8.label(r)
        f = r.choice(("p8", "p8", "rom")); files[W + "in%s" % d + gen8.EXT[f]] = gen8.encode(cart, f, r)
        files[W + "pico8.dat"] = gen8.dat(0)
        o = [["in%s" % d + gen8.EXT[f]], [out], ["--pico8-dat", "pico8.dat"]]; tool = "shrinko8"
        if r.random() < 0.3: files[W + "x%s.p8" % d] = ref8.write_p8(gen8.small(r)); o.append(["--extra-input", "x%s.p8" % d])
        if r.random() < 0.3: o.append(["--export-name", "game%d" % r.randrange(9)])
    else:
        c = gen64.small(r); gen64.put(files, c, "p64", W + "in%s.p64" % d, r); files[W + "picotron.dat"] = gen64.dat(0)
        o = [["in%s.p64" % d], [out], ["--picotron-dat", "picotron.dat"]]; tool = "shrinkotron"
        if r.random() < 0.3: o.append(["--export-name", "game%d" % r.randrange(9)])
    if r.random() < 0.2: o.append(["-m"])
    if r.random() < 0.2: o.append(["--clean-output-dir"]); files[W + out + "/old.zip"] = b"old"
    env = {"TZ": r.choice(list(ZONES))} if r.random() < 0.5 else None
    return {"tool": tool, "opts": o, "env": env}, files, out

def gen(r, ctx, i):
    s = {"clock": clock(r), "clock_plan": plan_(r)}
    x = r.random()
    if x < 0.2:     # anything else: the clock must not matter
        c = genc.command(r, p64=0.4)
        if not (c.dirs and "bin" in c.dirs.values()):
            s.update(c.spec()); s["kind"] = "other"
            s["variants"] = [{"clock": clock(r), "clock_plan": plan_(r)} for _ in range(2)]
            return s
    s["kind"] = "export"
    st, s["files"], out = export(r, ""); s["steps"] = [st]; s["outs"] = [out]
    if r.random() < 0.3:    # the program can be called many times by one process
        for j in range(r.choice((1, 1, 2))):
            st, f, out = export(r, str(j)); s["files"].update(f); s["steps"].append(st); s["outs"].append(out)
        s["clock_plan"]["tick"] = abs(s["clock_plan"]["tick"]) * 10
    for st in s["steps"]:
        if r.random() < 0.45:
            t = clock(r)
            if t > 1e10: t = 4e9
            st["env"] = dict(st["env"] or {}, PICO8_EXPORT_REPRO_TIME=r.choice(("%d" % t, "%d" % t, repr(float(t)), "%d.25" % t)))
    s["variants"] = [{"clock": clock(r), "clock_plan": plan_(r)} for _ in range(r.choice((1, 1, 2)))]
    if r.random() < 0.3: s["variants"][0]["listing"] = "shuffle"
    return s

def stamps(data):
    """A zip file -> ([(name, date and time as stored, twice)], the same bytes with the times blanked)"""
    z = bytearray(data); end = data.rindex(b"PK\5\6")
    n, size, off = struct.unpack_from("<HII", data, end + 10)
    out = []; p = off
    for _ in range(n):
        if data[p:p + 4] != b"PK\1\2": raise ref8.Bad("zip: no directory entry at %d" % p)
        t, d = struct.unpack_from("<HH", data, p + 12)
        nl, xl, cl = struct.unpack_from("<HHH", data, p + 28); lo, = struct.unpack_from("<I", data, p + 42)
        name = bytes(data[p + 46:p + 46 + nl])
        if data[lo:lo + 4] != b"PK\3\4": raise ref8.Bad("zip: no entry at %d" % lo)
        t2, d2 = struct.unpack_from("<HH", data, lo + 10)
        out.append((name, (d, t), (d2, t2)))
        z[p + 12:p + 16] = bytes(4); z[lo + 10:lo + 14] = bytes(4)
        p += 46 + nl + xl + cl
    with zipfile.ZipFile(io.BytesIO(data)) as zf:
        bad = zf.testzip()
        if bad: raise ref8.Bad("zip: bad contents of %s" % bad)
    return out, bytes(z)

def undos(d, t): return ((d >> 9) + 1980, d >> 5 & 15, d & 31, t >> 11, t >> 5 & 63, (t & 31) * 2)

def moment(sec, env):
    """What a zip file can say about a moment"""
    g = Real.gmtime(int(sec // 1) + ZONES[(env or {}).get("TZ", "UTC")])[:6]
    return max(MIN, min(MAX, g[:5] + (g[5] // 2 * 2,)))

def run_all(spec, ctx, over=None):
    sp = dict(spec, **(over or {}))
    k = ctx.kernel(sp)
    if len(spec["steps"]) == 1: r = ctx.step(k, spec["steps"][0]); rs = [r.last]
    else:
        r = ctx.run(k, calls=[runner.call(argv_of(s), s["tool"], b"", s.get("env")) for s in spec["steps"]]); rs = r.results
    return k, rs

def judge(spec, over, ctx):
    """-> (Viol or None, {path: bytes with the times blanked}, snapshot)"""
    k, rs = run_all(spec, ctx, over)
    snap = k.snapshot(); blank = dict(snap)
    what = "clock %s %s" % ((over or spec)["clock"], (over or spec)["clock_plan"])
    if len(rs) < len(spec["steps"]): return Viol("died", "the process ended early (%s)" % what), None, None
    lasts = []
    for j, (st, r, out) in enumerate(zip(spec["steps"], rs, spec["outs"])):
        repro = (st.get("env") or {}).get("PICO8_EXPORT_REPRO_TIME")
        if r.status != 0:
            return Viol("fails", "the export fails with status %s (%s%s): %s" % (r.status, what, ", PICO8_EXPORT_REPRO_TIME=" + repro if repro else "", r.err[-200:].decode("utf-8", "replace"))), None, None
        zips = [p for p in snap if frame.under(p, W + out) and p.endswith(".zip")]
        if len(zips) < 3: return Viol("zips", "only %s exist after the export" % zips), None, None
        seen = {}
        for p in zips:
            st_, blank[p] = stamps(snap[p])
            for name, a, b in st_: seen.setdefault(a, (p, name)); seen.setdefault(b, (p, name))
            ctx.probes["zip_entries"] += len(st_)
        if len(seen) != 1:
            (a, wa), (b, wb) = sorted(seen.items())[:2]
            return Viol("moments", "entries of one export carry different times (%s): %s of %s has %s, %s of %s has %s" % (what, wa[1], wa[0], undos(*a), wb[1], wb[0], undos(*b))), None, None
        got = undos(*list(seen)[0])
        if repro:
            ctx.probes["reproducible"] += 1
            if got != moment(float(repro), st.get("env")): return Viol("repro", "PICO8_EXPORT_REPRO_TIME=%s (TZ %s) gives %s instead of %s" % (repro, (st.get("env") or {}).get("TZ"), got, moment(float(repro), st.get("env")))), None, None
            continue
        vals = [v for g, v in k.clock_values if g == j + 1]
        ctx.probes["clocked"] += 1
        ok = set(moment(v, st.get("env")) for v in vals)
        if got not in ok: return Viol("when", "the export carries %s, but the clock was %s during it (%s)" % (got, sorted(ok)[:6] or "never read", what)), None, None
    return None, blank, snap

def execute(spec, ctx):
    if spec["kind"] == "other":
        k = ctx.kernel(spec); r = ctx.step(k, spec["cmd"]); want = (r.status, r.out, k.snapshot())
        for v in spec["variants"]:
            k = ctx.kernel(dict(spec, **v)); r = ctx.step(k, spec["cmd"]); got = (r.status, r.out, k.snapshot())
            ctx.probes["other_commands"] += 1
            if got != want:
                d = frame.diff_snap(want[2], got[2])
                return Viol("depends", "the clock changes %s (status %s/%s): %s" % ("files %s" % sorted(d) if d else "the output" if got[1] != want[1] else "the status", want[0], got[0], v), dict(spec, variants=[v]))
        return None
    v, want, wsnap = judge(spec, None, ctx)
    if v: v.narrow = dict(spec, variants=[]); return v
    for x in spec["variants"]:
        v, got, snap = judge(spec, x, ctx)
        if v: v.narrow = dict(spec, variants=[x]); return v
        d = frame.diff_snap(want, got)
        if d: return Viol("depends", "the clock changes more than the times of entries: %s (clock %s, then %s)" % (d, spec["clock"], x), dict(spec, variants=[x]))
        if all((s.get("env") or {}).get("PICO8_EXPORT_REPRO_TIME") for s in spec["steps"]):
            d = frame.diff_snap(wsnap, snap)
            if d: return Viol("reproduce", "with PICO8_EXPORT_REPRO_TIME set, the clock changes %s" % d, dict(spec, variants=[x]))
    return None

def shrink(spec):
    for s in frame.shrink_generic(spec):
        if spec["kind"] == "export" and len(s.get("steps", ())) != len(spec["steps"]): s = dict(s, outs=[spec["outs"][spec["steps"].index(t)] for t in s["steps"]])
        yield s
    if spec["kind"] == "export":
        for i, v in enumerate(spec["variants"]): yield dict(spec, clock=v["clock"], clock_plan=v["clock_plan"], variants=[])
        for i, s in enumerate(spec["steps"]):
            for e in s.get("env") or (): yield dict(spec, steps=spec["steps"][:i] + [dict(s, env={a: b for a, b in s["env"].items() if a != e})] + spec["steps"][i + 1:])
def describe(spec): return {"clock": spec["clock"], "clock_plan": spec["clock_plan"], "commands": [[s["tool"], argv_of(s), s.get("env")] for s in spec.get("steps") or [spec["cmd"]]], "variants": spec["variants"]}
def key(spec): return "%s/%s/%s/%s" % (spec["kind"], [(s["tool"], sorted(a for a in argv_of(s) if a.startswith("-")), sorted(s.get("env") or ())) for s in spec.get("steps") or [spec["cmd"]]], era(spec["clock"]), [(era(v["clock"]), sorted(v["clock_plan"])) for v in spec["variants"]])
def era(t): return "before" if t < 315532800 else "after" if t >= 4354819200 else "in"
