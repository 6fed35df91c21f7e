#!/opt/venv/bin/python
"""Plant seeded bugs: plant.py DEFS.py [ID...]  (development only; confirms each in a scratch copy of /repo)
DEFS.py defines BUGS: list of dict(id, property, edits=[(file, old, new)], demo, needs, breaks)"""
import json, os, runpy, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''import os, sys, subprocess, tempfile, shutil, atexit
REPO = os.getcwd()
PY = "/opt/venv/bin/python"
TMP = tempfile.mkdtemp(prefix="demo")
atexit.register(shutil.rmtree, TMP, True)
def path(name): return os.path.join(TMP, name)
def put(name, data):
    os.makedirs(os.path.dirname(path(name)), exist_ok=True)
    with open(path(name), "wb") as f: f.write(data.encode("utf-8") if isinstance(data, str) else data)
def get(name):
    try:
        with open(path(name), "rb") as f: return f.read()
    except FileNotFoundError: return None
def run(*args, tool="shrinko8", cwd="", env=None, timeout=60, **kw):
    return subprocess.run([PY, "-X", "utf8", os.path.join(REPO, tool + ".py"), *args], cwd=path(cwd), capture_output=True, timeout=timeout, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **(env or {})), **kw)
def need(cond, msg):
    if not cond: print("BROKEN: " + msg); sys.exit(1)
'''
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
R = "/tmp/plant_repo"
def tests():
    sh("rm", "-rf", R + "/test_output")
    code = open("/opt/vp/driver.py").read().replace("/repo", R)
    with open("/tmp/plant_driver.py", "w") as f: f.write(code)
    sh("/opt/venv/bin/python", "/tmp/plant_driver.py", "/tmp/plant_report.txt", cwd=R, env=dict(os.environ, LANG="C.UTF-8", TZ="UTC", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1"))
    sh("/usr/bin/python3", "/opt/vp/results.py", "/tmp/plant.json", "lines:/tmp/plant_report.txt")
    ok = set(json.load(open("/tmp/plant.json"))["passed"]); want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return "tests ok" if want <= ok else "TESTS FAIL: %s" % sorted(want - ok)[:5]
def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]; only = sys.argv[2:]
    for b in bugs:
        if only and b["id"] not in only: continue
        d = os.path.join(HERE, "seeded", b["id"]); os.makedirs(d, exist_ok=True)
        assert not sh("git", "-C", "/repo", "status", "--porcelain").stdout.strip(), "dirty"
        sh("rm", "-rf", R); sh("cp", "-a", "/repo", R)
        with open(d + "/demo.py", "w") as f: f.write(HEAD + b["demo"].lstrip("\n"))
        with open(d + "/demo.sh", "w") as f: f.write('#!/bin/sh\nexec /opt/venv/bin/python -X utf8 "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        with open(d + "/meta.json", "w") as f: json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, f, indent=1)
        c = sh("sh", d + "/demo.sh", cwd=R)
        if c.returncode: print(b["id"], "DEMO FAILS ON CLEAN:", c.stdout[-500:], c.stderr[-800:]); continue
        for file, old, new in b["edits"]:
            p = R + "/" + file
            with open(p, newline="") as f: s = f.read()
            if "\r\n" in s: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert s.count(old) == 1, (b["id"], file, s.count(old))
            with open(p, "w", newline="") as f: f.write(s.replace(old, new))
        with open(d + "/patch.diff", "wb") as f: f.write(subprocess.run(["git", "-C", R, "diff"], capture_output=True).stdout)
        c = sh("sh", d + "/demo.sh", cwd=R)
        demo = "demo ok (%s)" % (c.stdout.strip().splitlines() or c.stderr.strip().splitlines() or [""])[-1][:150] if c.returncode else "DEMO PASSES WITH PATCH"
        t = "" if os.environ.get("NOTEST") else tests()
        for pid in os.environ.get("PROPS", b["property"]).split(","):
            c = sh(os.path.join(HERE, "check.py"), pid, "--tier", "quick", cwd=HERE, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", VERIF_REPO=R))
            v = [l for l in c.stdout.splitlines() if "VIOLATION" in l]
            print(b["id"], pid, "|", demo, "|", t, "|", "CAUGHT %s" % [l.strip()[:200] for l in c.stdout.splitlines() if l.strip()][-3:] if c.returncode == 1 and v else "MISSED rc=%d %s" % (c.returncode, c.stdout[-300:] + c.stderr[-300:]), flush=True)
        sh("rm", "-rf", R)
if __name__ == "__main__": main()
