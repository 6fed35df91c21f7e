#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]      run a check
   check.py replay <file>                                       re-run a replay file
   check.py selfcheck                                           determinism of the simulator itself"""
import json, os, re, select, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sim import jsonb, catalog

PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
NW = 8

def have_setarch():
    try: return subprocess.run(["setarch", "-R", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
    except OSError: return False
PREFIX = ["setarch", "-R"] if have_setarch() else []

def spawn(args, hashseed):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "PICO8", "PICOTRON"))}
    env.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8", TZ="UTC", OMP_NUM_THREADS="1",
               PYTHONUTF8="1")
    return subprocess.Popen(PREFIX + [PY, "-X", "utf8", "-m", "sim.worker"] + [str(a) for a in args], cwd=HERE, env=env, stdin=subprocess.DEVNULL,
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)

def one(args, hashseed, timeout=300):
    p = spawn(args, hashseed)
    try: out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        killpg(p); return {"error": "timeout"}
    for ln in out.decode().splitlines():
        return jsonb.loads(ln)
    return {"error": "worker died: %s %s" % (p.returncode, err.decode()[-2000:])}

def killpg(p):
    try: os.killpg(p.pid, 9)
    except OSError: pass
    p.wait()

def known_findings():
    try:
        with open(os.path.join(HERE, "known_findings.json"), encoding="utf-8") as f: return json.load(f)
    except FileNotFoundError: return {"findings": [], "fixed": []}

def matches(f, pid, v):
    if "code" in f and f["code"] != "".join(v["spec"].get("chunks", [])): return False
    return f["property"] == pid and f["kind"] == v["kind"] and re.search(f["match"], v["msg"], re.S)

def run_check(pid, tier, seed):
    t0 = time.monotonic()
    meta = catalog.PROPS[pid]
    count, deadline, hard = meta[tier]
    ev_path = os.path.join(HERE, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    known = [f for f in known_findings()["findings"] if f["property"] == pid]
    print("check %s tier=%s seed=%s scenarios=%d" % (pid, tier, seed, count)); sys.stdout.flush()
    ws = [spawn(["batch", pid, tier, seed, w, NW, count, deadline], w) for w in range(NW)]
    bufs = {p.stdout: b"" for p in ws}; errs = {p.stderr: b"" for p in ws}
    ends = []; viols = []; knowns = {}; error = None
    who = {p.stdout: w for w, p in enumerate(ws)}
    open_ = set(bufs) | set(errs)
    while open_ and error is None and not viols:
        r, _, _ = select.select(list(open_), [], [], 1.0)
        if time.monotonic() - t0 > hard: error = "wall-clock limit of %d s reached" % hard; break
        for f in r:
            d = os.read(f.fileno(), 1 << 16)
            if not d: open_.discard(f); continue
            if f in errs: errs[f] += d; continue
            bufs[f] += d
            while b"\n" in bufs[f]:
                ln, bufs[f] = bufs[f].split(b"\n", 1)
                m = jsonb.loads(ln.decode())
                if "viol" in m:
                    v = m["viol"]; v["hashseed"] = who[f]
                    k = next((f2 for f2 in known if matches(f2, pid, v)), None)
                    if k: knowns[k["id"]] = knowns.get(k["id"], 0) + 1
                    else: viols.append(v)
                elif "end" in m: ends.append(m["end"])
                elif "error" in m: error = m["error"]
    if not viols and error is None and len(ends) < NW:
        error = "a worker ended early: " + b" | ".join(errs.values()).decode("utf-8", "replace")[-1500:]
    for p in ws: killpg(p)
    status = 0
    if viols:
        v = min(viols, key=lambda v: v["i"])
        status = report(pid, tier, seed, v)
    elif error is not None:
        print("HARNESS ERROR: " + error); status = 3
    for f in known:   # listed findings are shown whether or not this seed met them
        print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    evidence(ev_path, pid, tier, seed, meta, count, ends, viols, knowns, time.monotonic() - t0)
    done = sum(e["done"] for e in ends)
    if status == 0 and done < count * 0.2:
        print("HARNESS ERROR: only %d of %d scenarios ran in time" % (done, count)); status = 3
    if status == 0: print("OK %s: %d scenarios, %d simulated runs, %.0f s" % (pid, done, sum(e["runs"] for e in ends), time.monotonic() - t0))
    return status

def report(pid, tier, seed, v):
    rdir = os.path.join(HERE, "replays"); os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, "%s-%s-%d.json" % (pid, seed, v["i"]))
    def save(spec, kind, msg, **kw):
        with open(path, "w", encoding="utf-8") as f:
            f.write(jsonb.dumps(dict(property=pid, seed=seed, scenario=v["i"], hashseed=v["hashseed"], kind=kind, msg=msg, spec=spec, **kw), indent=1))
    save(v["spec"], v["kind"], v["msg"], narrow=v.get("narrow"))
    print("violation in scenario %d (%s): %s" % (v["i"], v["kind"], v["msg"])); sys.stdout.flush()
    ok = False
    m = one(["min", pid, path, 60], v["hashseed"], 240)
    if "min" in m:
        save(m["min"]["spec"], m["min"]["kind"], m["min"]["msg"], minimised=True, tries=m["min"]["tries"])
        r = one(["replay", pid, path], v["hashseed"])
        ok = "replay" in r and r["replay"]["kind"] == m["min"]["kind"]
        if ok: print("minimised: " + m["min"]["msg"])
    if not ok:
        save(v["spec"], v["kind"], v["msg"], minimised=False)
        r = one(["replay", pid, path], v["hashseed"])
        ok = "replay" in r and r["replay"]["kind"] == v["kind"]
    if not ok:
        print("HARNESS ERROR: the violation did not reproduce in a fresh process (replay gave %r)" % (r,))
        return 3
    print("seed=%s scenario=%d; replay with: ./check.py replay %s" % (seed, v["i"], path))
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1

def evidence(path, pid, tier, seed, meta, count, ends, viols, knowns, wall):
    def add(k):
        out = {}
        for e in ends:
            for a, b in e[k].items(): out[a] = out.get(a, 0) + b
        return dict(sorted(out.items()))
    runs = sum(e["runs"] for e in ends); done = sum(e["done"] for e in ends)
    keys = set(x for e in ends for x in e["keys"]); shapes = set(x for e in ends for x in e["shapes"])
    cov = dict(evaluations=done, distinct_nontrivial=len(keys), rule=meta["rule"],
               samples=[s for e in ends for s in e["samples"]][:8] or ["(stopped at the first violation)"],
               scenarios_planned=count, simulated_processes=runs, simulated_processes_per_hour=int(runs / wall * 3600) if wall else 0,
               seeds_per_hour=int(done / wall * 3600) if wall else 0, simulated_seconds=round(sum(e["simtime"] for e in ends), 3),
               system_calls=sum(e["ops"] for e in ends), faults_fired=add("faults"), faults_configured=add("configured"),
               exit_statuses=add("status"), probes=add("probes"), distinct_call_histories=len(shapes),
               distinct_call_histories_measure="hash of a process's sequence of (system call, file name), faults fired and exit status",
               known_findings_met=knowns, event_log_digests=[e["digest"][:16] for e in ends],
               real_code=meta.get("real", catalog.REAL), stubbed=meta.get("stub", catalog.STUB))
    ev = dict(property=pid, tier=tier, seed=seed, level=meta.get("level", "exploration"), coverage=cov,
              assumptions=meta.get("assumptions", []) + catalog.ASSUME, wall_s=round(wall, 2), violations=len(viols))
    tmp = path + ".tmp"
    with open(tmp, "w", encoding="utf-8") as f: json.dump(ev, f, indent=1, default=lambda o: o[:40].decode("latin-1") if isinstance(o, bytes) else str(o)[:80])
    os.replace(tmp, path)

def replay(path):
    with open(path, encoding="utf-8") as f: d = jsonb.loads(f.read())
    r = one(["replay", d["property"], path], d["hashseed"])
    if "replay" not in r: print("HARNESS ERROR: %r" % (r,)); return 3
    r = r["replay"]
    if r["kind"] is None: print("no violation"); return 0
    print(r["msg"]); print("event log %s" % r["digest"])
    print("VIOLATION property=%s replay=%s" % (d["property"], path))
    return 1

def selfcheck(n=16, props=None):
    """The same scenarios twice, with different hash seeds and worker layouts: event logs must agree"""
    bad = 0
    for pid in props or sorted(catalog.PROPS):
        if catalog.PROPS[pid].get("module_only"): continue
        runs = [[spawn(["batch", pid, "quick", 7, w, k, n, 500], hs) for w in range(k)] for k, hs in ((n // 2, 0), (n // 2, 0), (n // 2, 99))]
        res = []
        for ps in runs:
            d = []
            for p in ps:
                out, err = p.communicate(timeout=800)
                last = out.decode().splitlines()[-1] if out else "{}"
                m = jsonb.loads(last)
                if "end" not in m: print(m, err[-500:])
                d.append(m.get("end", {}).get("digest"))
            res.append(d)
        same = res[0] == res[1] and None not in res[0]; hs = res[0] == res[2]
        print("selfcheck %s: repeat %s, other hash seed %s" % (pid, "same" if same else "DIFFERENT", "same" if hs else "DIFFERENT"))
        if not same: bad = 1
    return bad

def selftest():
    """The simulator starts and runs the tool"""
    m = one(["gen", sorted(catalog.PROPS)[0], 1, 0], 0)
    print("ok" if "spec" in m else m)
    return 0 if "spec" in m else 3

def scan(pid, count, seed):
    """All violations of many scenarios, briefly (for development)"""
    ws = [spawn(["batch", pid, "quick", seed, w, NW, count, 3000], w) for w in range(NW)]
    outs = []
    import threading
    def rd(p): outs.append(p.communicate())
    ts = [threading.Thread(target=rd, args=(p,)) for p in ws]
    [t.start() for t in ts]; [t.join() for t in ts]
    vs = []; runs = done = 0; pr = {}; stt = {}
    for o, e in outs:
        for ln in o.decode().splitlines():
            m = jsonb.loads(ln)
            if "viol" in m: vs.append(m["viol"])
            elif "end" in m:
                runs += m["end"]["runs"]; done += m["end"]["done"]
                for a, b in m["end"]["probes"].items(): pr[a] = pr.get(a, 0) + b
                for a, b in m["end"]["status"].items(): stt[a] = stt.get(a, 0) + b
            else: print(m["error"])
    for v in sorted(vs, key=lambda v: v["i"])[:int(os.environ.get("SHOW", "10"))]:
        print("%d %s: %s" % (v["i"], v["kind"], v["msg"][:700]))
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        with open(os.path.join(HERE, "replays", "scan-%s-%d.json" % (pid, v["i"])), "w", encoding="utf-8") as f:
            f.write(jsonb.dumps(dict(property=pid, seed=seed, scenario=v["i"], hashseed=0, kind=v["kind"], msg=v["msg"], spec=v["narrow"] or v["spec"]), indent=1))
    print("%d violations, %d scenarios, %d runs, probes %s, statuses %s" % (len(vs), done, runs, pr, stt))
    return 0

def main():
    a = sys.argv[1:]
    if a and a[0] == "scan": return scan(a[1], int(a[2]), a[3] if len(a) > 3 else "1")
    if not a: print(__doc__); return 2
    if a[0] == "replay": return replay(a[1])
    if a[0] == "selftest": return selftest()
    if a[0] == "selfcheck": return selfcheck(props=a[1:] or None)
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1"))
    for i, x in enumerate(a):
        if x == "--tier": tier = a[i + 1]
        if x == "--seed": seed = int(a[i + 1])
    return run_check(a[0], tier, seed)

if __name__ == "__main__":
    sys.exit(main())
