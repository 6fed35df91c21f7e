"""Helpers shared by the property modules"""
import re
from .. import frame, genc

def describe_cmd(spec):
    st = spec["cmd"]
    return {"tool": st.get("tool"), "argv": frame.argv_of(st), "files": {p: (len(d) if d is not None else "dir") for p, d in spec["files"].items()}}

def run_cmd(ctx, spec, **over):
    k = ctx.kernel(spec); before = k.snapshot()
    r = ctx.step(k, spec["cmd"], **over)
    return k, before, r

def tail(r): return (r.err[-300:] or r.out[-200:]).decode("utf-8", "replace")

def where(r):
    """What was injected, where it really hit"""
    return "; ".join("%s at %s %s" % (f["f"], r.log[f["at"]][0], r.log[f["at"]][1]) for f in r.fired)
