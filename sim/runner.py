"""Runs the real tool as processes of the simulated machine.

The worker interpreter imports the repository once (warm) and forks one child per
simulated process.  The child is the program: real code, with every system call sent to
the kernel that lives in the worker.  run() serves one child; run_many() serves several
and lets a seeded scheduler decide which pending system call executes next."""
import gc, os, random, resource, select, signal, sys, time
from . import kernel as K, frontend as F
from .frontend import Real, Conn

REPO = os.environ.get("VERIF_REPO", "/repo")
CPU_LIMIT = 60     # real CPU seconds per simulated process: far above anything legitimate
MEM_LIMIT = 3 << 30

mains = {}

def warm():
    """Import the program under test"""
    F.install()
    F.res_prefixes.append(REPO)
    F.res_prefixes.append(os.path.realpath(REPO))
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    import PIL.Image
    PIL.Image.preinit(); PIL.Image.init()
    import encodings.idna, encodings.ascii, encodings.latin_1, encodings.utf_8_sig, encodings.utf_16, encodings.cp1252
    import shrinko8, shrinkotron
    mains["shrinko8"] = shrinko8
    mains["shrinkotron"] = shrinkotron
    import zipfile, tempfile, zlib, urllib.request, http.client, importlib.util
    tempfile.tempdir = "/sim/tmp"
    gc.collect(); gc.freeze()

_res_cache = {}
def resources(path):
    if path.startswith("/sim"): return None
    if path not in _res_cache:
        try:
            with Real.open(path, "rb") as f: _res_cache[path] = f.read()
        except OSError: _res_cache[path] = None
    return _res_cache[path]

class StepLimit(BaseException): pass

class Result:
    """What one call of the tool did"""
    __slots__ = ("status", "out", "err", "exc", "steps")
    def __repr__(m): return "Result(status=%r, out=%r, err=%r, exc=%r)" % (m.status, m.out[:200], m.err[-300:], m.exc)

class Run:
    """What one simulated process did"""
    def __init__(m, proc): m.proc = proc; m.results = []
    @property
    def last(m): return m.results[-1]
    @property
    def status(m): return m.last.status
    @property
    def out(m): return m.last.out
    @property
    def err(m): return m.last.err
    @property
    def exc(m): return m.last.exc
    @property
    def log(m): return m.proc.log
    @property
    def fired(m): return m.proc.fired
    @property
    def escapes(m): return m.proc.escapes

def call(argv, tool="shrinko8", stdin=b"", env=None, cwd=None, faults=()):
    return {"tool": tool, "argv": list(argv), "stdin": stdin, "env": env, "cwd": cwd, "faults": faults}

def child_main(conn, calls, opts):
    status = None
    if COV: coverage_start()
    try:
        resource.setrlimit(resource.RLIMIT_CPU, (opts.get("cpu", CPU_LIMIT), opts.get("cpu", CPU_LIMIT) + 5))
        resource.setrlimit(resource.RLIMIT_AS, (opts.get("mem", MEM_LIMIT),) * 2)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        Conn.active = conn
        F.cwd_cache[0] = opts.get("cwd", "/sim/work")
        F.bufsize[0] = opts.get("bufsize", 8192)
        for i, c in enumerate(calls):
            if i: F.send_msg(conn.wfd, ("next", i)); F.recv_msg(conn.rfd)
            run_call(conn, c, opts)
    except F.SimCrash:
        pass
    except BaseException as e:
        import traceback
        try: F.send_msg(conn.wfd, ("harness", "".join(traceback.format_exception(e))))
        except BaseException: pass
    finally:
        Conn.active = None
        if COV: coverage_end()
        try: F.send_msg(conn.wfd, ("bye",))
        except BaseException: pass
        Real._exit(0)

def run_call(conn, c, opts):
    import traceback
    for k in list(os.environ):
        if k.startswith(("PICO8", "PICOTRON")) or k in ("TZ", "SOURCE_DATE_EPOCH"): del os.environ[k]
    os.environ["TMPDIR"] = "/sim/tmp"; os.environ["HOME"] = "/sim"; os.environ["TZ"] = "UTC"
    for k, v in (c.get("env") or {}).items(): os.environ[k] = v
    if c.get("cwd"): F.cwd_cache[0] = c["cwd"]
    time.tzset()
    random.seed(opts.get("rseed", 0))
    std = F.Std()
    sys.argv = [c["tool"] + ".py"] + list(c["argv"])
    exc = None
    limit = opts.get("step_limit")
    steps = [0]
    if limit: start_steps(limit, steps)
    try:
        try:
            code = mains[c["tool"]].main(list(c["argv"]))
            sys_exit = code
        except SystemExit as e:
            sys_exit = e.code
        if sys_exit is None: status = 0
        elif isinstance(sys_exit, int): status = sys_exit & 0xff
        else:
            print(sys_exit, file=sys.stderr); status = 1
    except F.SimCrash:
        if limit: stop_steps()
        F.send_msg(conn.wfd, ("done", "crash", None, steps[0])); raise
    except StepLimit:
        status = "hang"; exc = "StepLimit"
    except KeyboardInterrupt:
        status = 130; exc = "KeyboardInterrupt"
    except BaseException as e:
        status = 1; exc = type(e).__name__
        if isinstance(e, AssertionError) and "unknown fault" in str(e): raise
        try:
            tb = traceback.format_exception(e)
            sys.stderr.write("".join(tb[-12:]))
        except F.SimCrash:
            F.send_msg(conn.wfd, ("done", "crash", None, steps[0])); raise
        except BaseException: pass
        e = None
    if limit: stop_steps()
    # interpreter shutdown: flush the standard streams, drop everything
    try:
        try: sys.stdout.flush()
        except F.SimCrash: raise
        except BaseException as e2:
            if status != "hang": status = 120
            exc = exc or "flush:" + type(e2).__name__
        try: sys.stderr.flush()
        except F.SimCrash: raise
        except BaseException: pass
        sys.last_value = sys.last_traceback = None
        gc.collect()
    except F.SimCrash:
        F.send_msg(conn.wfd, ("done", "crash", None, steps[0])); raise
    F.send_msg(conn.wfd, ("done", status, exc, steps[0]))

# ---- deterministic work measure: backward jumps and calls of Python code ----
TOOL = 3
def start_steps(limit, steps):
    mon = sys.monitoring
    mon.use_tool_id(TOOL, "simsteps")
    def jump(code, off, dest):
        if dest < off:
            steps[0] += 1
            if steps[0] > limit: raise StepLimit()
    def start(code, off):
        steps[0] += 1
        if steps[0] > limit: raise StepLimit()
    mon.register_callback(TOOL, mon.events.JUMP, jump)
    mon.register_callback(TOOL, mon.events.PY_START, start)
    mon.set_events(TOOL, mon.events.JUMP | mon.events.PY_START)

def stop_steps():
    mon = sys.monitoring
    try:
        mon.set_events(TOOL, 0); mon.free_tool_id(TOOL)
    except ValueError: pass

# ---- which lines of the program the simulated runs reach (development only: tools/coverage.py) ----
COV = os.environ.get("SIM_COV")
if COV:
    import mmap
    cov_files = {REPO + "/" + f: i for i, f in enumerate(sorted(f for f in os.listdir(REPO) if f.endswith(".py")))}
    with open(COV, "ab") as f: f.truncate(len(cov_files) << 12)
    with open(COV, "r+b") as f: cov_map = mmap.mmap(f.fileno(), 0)
def coverage_start():
    mon = sys.monitoring; mon.use_tool_id(4, "simcov")
    def line(code, no):
        i = cov_files.get(code.co_filename)
        if i is not None: cov_map[(i << 12) + no] = 1
        return mon.DISABLE
    mon.register_callback(4, mon.events.LINE, line); mon.set_events(4, mon.events.LINE)
def coverage_end(): sys.monitoring.set_events(4, 0)

class HarnessError(Exception): pass

class Child:
    def __init__(m, kernel, proc, calls, opts):
        m.kernel, m.proc, m.calls = kernel, proc, calls
        m.run = Run(proc)
        r1, w1 = Real.pipe(); r2, w2 = Real.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        m.pid = Real.fork()
        if m.pid == 0:
            Real.os_close(w1); Real.os_close(r2)
            child_main(Conn(r1, w2), calls, opts)
        Real.os_close(r1); Real.os_close(w2)
        m.rfd, m.wfd = r2, w1
        m.pending = None
        m.finished = False

    def cut(m):
        """Result of the current call from what reached the kernel"""
        r = Result(); r.out = bytes(m.proc.out); r.err = bytes(m.proc.err); r.exc = None; r.steps = 0; r.status = None
        return r

    def pump(m):
        """Receive until the child wants a system call or ends"""
        while True:
            try: msg = F.recv_msg(m.rfd)
            except EOFError:
                m.end("hang"); return
            if msg[0] == "call": m.pending = msg; return
            if msg[0] == "done":
                r = m.cut(); r.status = msg[1]; r.exc = msg[2]; r.steps = msg[3]
                if m.proc.hung: r.status = "hang"
                m.run.results.append(r)
            elif msg[0] == "next":
                pr = m.proc
                del pr.out[:]; del pr.err[:]
                c = m.calls[msg[1]]
                if c.get("cwd"): pr.cwd = c["cwd"]
                pr.starts.append(pr.nops)
                pr.faults = {}
                for f in c.get("faults") or (): pr.faults.setdefault(f["at"] + pr.nops, []).append(f)
                pr.fds = {}
                h = K.Handle(kind="pipe", rd=True, path="<stdin>"); h.data = bytes(c.get("stdin") or b""); pr.fds[0] = h
                for fd, sink in ((1, pr.out), (2, pr.err)):
                    h = K.Handle(kind="sink", wr=True, path=("<stdout>", "<stderr>")[fd - 1]); h.sink = sink; pr.fds[fd] = h
                F.send_msg(m.wfd, ("ok",))
            elif msg[0] == "harness":
                m.end(None); raise HarnessError(msg[1])
            elif msg[0] == "bye":
                m.end("crash"); return

    def end(m, status):
        if m.finished: return
        m.finished = True; m.pending = None
        Real.os_close(m.rfd); Real.os_close(m.wfd)
        _, st = Real.waitpid(m.pid, 0)
        if len(m.run.results) < len(m.calls) and status is not None:
            r = m.cut(); r.status = status
            if os.WIFSIGNALED(st):
                sig = os.WTERMSIG(st)
                r.status = "hang" if sig in (signal.SIGXCPU, signal.SIGKILL) else "signal %d" % sig
            m.run.results.append(r)

    def step(m):
        """Execute the pending system call"""
        _, name, args = m.pending
        m.pending = None
        try: reply = ("ok", m.kernel.syscall(m.proc, name, *args))
        except K.SimErr as e: reply = ("err", e.eno)
        except K.ProcKilled: reply = ("kill",)
        except K.ProcSignal as e: reply = ("sig", e.what)
        except BaseException:
            m.kill(); raise
        try: F.send_msg(m.wfd, reply)
        except BrokenPipeError: pass
        m.pump()

    def kill(m):
        try: os_kill(m.pid, signal.SIGKILL)
        except OSError: pass
        m.end(None)

os_kill = os.kill

def run(kernel, argv, tool="shrinko8", stdin=b"", env=None, faults=(), knobs=None, seed=0, cwd="/sim/work", calls=None, **opts):
    """One simulated process, alone on the machine"""
    if kernel.resources is None: kernel.resources = resources
    proc = kernel.new_proc(cwd=cwd, stdin=stdin, faults=faults, knobs=knobs, seed=seed)
    calls = calls or [call(argv, tool, stdin, env)]
    if not proc.fds[0].data and calls[0].get("stdin"): proc.fds[0].data = bytes(calls[0]["stdin"])
    opts["cwd"] = cwd; opts.setdefault("rseed", seed)
    if knobs and "bufsize" in knobs: opts["bufsize"] = knobs["bufsize"]
    ch = Child(kernel, proc, calls, opts)
    ch.pump()
    while not ch.finished: ch.step()
    return ch.run

def run_many(kernel, specs, sched, trace=None):
    """Several simulated processes; sched(list of runnable indexes) -> index decides who goes next"""
    if kernel.resources is None: kernel.resources = resources
    chs = []
    for s in specs:
        proc = kernel.new_proc(cwd=s.get("cwd", "/sim/work"), stdin=s.get("stdin", b""), faults=s.get("faults", ()),
                               knobs=s.get("knobs"), seed=s.get("seed", 0))
        c = call(s["argv"], s.get("tool", "shrinko8"), s.get("stdin", b""), s.get("env"))
        chs.append(Child(kernel, proc, [c], {"cwd": s.get("cwd", "/sim/work"), "rseed": s.get("seed", 0)}))
    for c in chs: c.pump()
    try:
        while True:
            live = [i for i, c in enumerate(chs) if not c.finished]
            if not live: break
            i = sched(live)
            if trace is not None: trace.append((i, chs[i].pending[1]))
            chs[i].step()
    except BaseException:
        for c in chs:
            if not c.finished: c.kill()
        raise
    return [c.run for c in chs]
