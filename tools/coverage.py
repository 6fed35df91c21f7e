#!/opt/venv/bin/python
"""Which lines of /repo the checks never reach (development only): coverage.py N PID...   scans N scenarios of each property"""
import os, subprocess, sys, types
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = "/repo"
def lines_of(code, out):
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            if c.co_name not in ("<module>",):
                body = {l for _, _, l in c.co_lines() if l and l != c.co_firstlineno}
                out |= body
            lines_of(c, out)
def main():
    n, pids = sys.argv[1], sys.argv[2:]
    tmp = "/tmp/simcov"; subprocess.run(["mkdir", "-p", tmp])
    ps = []
    for p in pids:
        ps.append(subprocess.Popen([HERE + "/check.py", "scan", p, n, "991"], cwd=HERE, env=dict(os.environ, SIM_COV=tmp + "/" + p), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
    for p in ps: p.wait()
    hit = {}; names = sorted(f for f in os.listdir(REPO) if f.endswith(".py"))
    for f in os.listdir(tmp):
        data = open(tmp + "/" + f, "rb").read()
        for i, name in enumerate(names): hit.setdefault(name, set()).update(j for j in range(4096) if data[(i << 12) + j])
    tot = miss = 0
    for name in sorted(os.listdir(REPO)):
        if not name.endswith(".py") or name.startswith(("run_tests", "run_bbs", "run_site", "run_pico", "run_prep", "test_")): continue
        src = open(REPO + "/" + name, encoding="utf-8").read(); want = set()
        lines_of(compile(src, name, "exec"), want)
        # lines at class level run at import
        gone = sorted(want - hit.get(name, set())); tot += len(want); miss += len(gone)
        print("== %s: %d of %d lines not reached" % (name, len(gone), len(want)))
        text = src.splitlines()
        for l in gone: print("  %4d %s" % (l, text[l - 1][:130]))
    print("total: %d of %d not reached" % (miss, tot))
main()
