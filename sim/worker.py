"""One worker interpreter. Its PYTHONHASHSEED is fixed by the driver."""
import importlib, os, random, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import runner, frame, jsonb
from sim.frontend import Real, send_msg, recv_msg

def emit(fd, obj):
    b = (jsonb.dumps(obj) + "\n").encode()
    while b: b = b[Real.os_write(fd, b):]

def load(pid): return importlib.import_module("sim.props." + pid)

def scenario_rng(seed, pid, i): return random.Random("%s/%s/%s" % (seed, pid, i))

def serve():
    """Runs steps sent by another worker: the same machine, another hash seed"""
    rfd, wfd = os.dup(0), os.dup(1)
    devnull = os.open("/dev/null", os.O_RDWR); os.dup2(devnull, 0); os.dup2(devnull, 1)
    runner.warm()
    ctx = frame.Ctx()
    try:
        while True:
            spec, st, over = recv_msg(rfd)
            k = ctx.kernel(spec)
            r = ctx.step(k, st, **over)
            last = r.last
            send_msg(wfd, (k.snapshot(), last.status, last.out, last.err, r.log, k.simtime))
    except EOFError: pass
    except BaseException: send_msg(wfd, traceback.format_exc())
    Real._exit(0)

def main():
    mode, pid = sys.argv[1], sys.argv[2]
    if mode == "serve": return serve()
    out = os.dup(1)
    devnull = os.open("/dev/null", os.O_WRONLY); os.dup2(devnull, 1)
    runner.warm()
    prop = load(pid)
    ctx = frame.Ctx()
    try:
        if mode == "batch":
            tier, seed, widx, nw, count, deadline = sys.argv[3], sys.argv[4], int(sys.argv[5]), int(sys.argv[6]), int(sys.argv[7]), float(sys.argv[8])
            t0 = Real.monotonic(); done = 0; nontriv = set(); samples = []
            for i in range(widx, count, nw):
                if Real.monotonic() - t0 > deadline: break
                rng = scenario_rng(seed, pid, i)
                spec = prop.gen(rng, ctx, i)
                v = frame.execute(prop, spec, ctx)
                done += 1
                key = prop.key(spec) if hasattr(prop, "key") else None
                if key is not None: nontriv.add(key)
                if len(samples) < 1: samples.append(prop.describe(spec))
                if v is not None:
                    emit(out, {"viol": {"i": i, "kind": v.kind, "msg": v.msg, "spec": spec, "narrow": v.narrow}})
            emit(out, {"end": dict(ctx.stats(), done=done, keys=sorted(nontriv), shapes=sorted(ctx.shapes), samples=samples,
                                   digest=ctx.events.hexdigest())})
        elif mode == "gen":
            seed, i = sys.argv[3], int(sys.argv[4])
            emit(out, {"spec": prop.gen(scenario_rng(seed, pid, i), ctx, i)})
        elif mode == "min":
            with Real.open(sys.argv[3], encoding="utf-8") as f: d = jsonb.loads(f.read())
            v = frame.Viol(d["kind"], d["msg"], d.get("narrow"))
            spec, v, tries = frame.minimise(prop, d["spec"], v, ctx, float(sys.argv[4]))
            emit(out, {"min": {"spec": spec, "kind": v.kind, "msg": v.msg, "tries": tries}})
        elif mode == "replay":
            with Real.open(sys.argv[3], encoding="utf-8") as f: d = jsonb.loads(f.read())
            v = frame.execute(prop, d["spec"], ctx)
            emit(out, {"replay": {"kind": v.kind if v else None, "msg": v.msg if v else None, "digest": ctx.events.hexdigest()}})
    except BaseException:
        emit(out, {"error": traceback.format_exc()})
        Real._exit(3)
    Real._exit(0)

if __name__ == "__main__": main()
