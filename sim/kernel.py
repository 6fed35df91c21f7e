"""The simulated machine: file system, pipes, network, clock and processes.

A Kernel holds everything that is durable (the file system) and everything that is
outside the program under test (stdin contents, web servers, the clock).  Programs run
as Procs; every system call of a program goes through Kernel.syscall, one at a time,
where it is logged, may be hit by an injected fault, and takes effect atomically.
Nothing here reads a real clock, real randomness or the real file system (read-only
program resources excepted: those are handed in as bytes by the loader)."""
import errno, os as _os, random

SIM = "/sim"

class SimErr(Exception):
    """A system call fails with this errno"""
    def __init__(m, eno): m.eno = eno

class ProcKilled(Exception):
    """The process is gone (crash fault)"""

class ProcSignal(Exception):
    """A signal-like exception is raised inside the process"""
    def __init__(m, what): m.what = what

_ino = [100]
def _next_ino():
    _ino[0] += 1
    return _ino[0]

class File:
    kind = "f"
    __slots__ = ("data", "mtime", "ino")
    def __init__(m, data=b"", mtime=0): m.data = bytearray(data); m.mtime = mtime; m.ino = _next_ino()

class Dir:
    kind = "d"
    __slots__ = ("ents", "mtime", "ino")
    def __init__(m): m.ents = {}; m.mtime = 0; m.ino = _next_ino()

class Link:
    kind = "l"
    __slots__ = ("target", "mtime")
    def __init__(m, target): m.target = target; m.mtime = 0

class Handle:
    __slots__ = ("node", "pos", "rd", "wr", "app", "path", "kind", "data", "sink", "net", "sent", "dead", "writes", "label")
    def __init__(m, node=None, rd=False, wr=False, app=False, path="", kind="file"):
        m.node = node; m.pos = 0; m.rd = rd; m.wr = wr; m.app = app; m.path = path; m.kind = kind
        m.data = b""; m.sink = None; m.net = None; m.sent = b""; m.dead = None; m.writes = 0; m.label = path

class Proc:
    """One run of a program: descriptors, working directory, fault plan, log"""
    def __init__(m, pid, cwd="/sim/work", stdin=b"", faults=(), knobs=None, seed=0):
        m.pid = pid; m.cwd = cwd; m.fds = {}; m.next_fd = 3
        m.nops = 0                      # number of system calls so far
        m.log = []                      # (name, path, detail)
        m.fired = []                    # faults that fired
        m.escapes = []                  # attempts to change something outside /sim
        m.mutated = []                  # (op, path) of every successful mutation
        m.faults = {}                   # op index -> fault dict
        for f in faults: m.faults.setdefault(f["at"], []).append(f)
        m.knobs = dict(knobs or {})
        m.rng = random.Random("knobs/%s" % seed)
        m.out = bytearray(); m.err = bytearray()
        h = Handle(kind="pipe", rd=True, path="<stdin>"); h.data = bytes(stdin); m.fds[0] = h
        h = Handle(kind="sink", wr=True, path="<stdout>"); h.sink = m.out; m.fds[1] = h
        h = Handle(kind="sink", wr=True, path="<stderr>"); h.sink = m.err; m.fds[2] = h
        m.killed = False; m.pending_int = False
        m.hung = False
        m.nreads = 0
        m.starts = [0]                  # index of the first system call of each call of the program

E = errno
ERRNO = {n: getattr(errno, n) for n in (
    "EIO", "ENOSPC", "EACCES", "EMFILE", "ENOENT", "EPIPE", "EDQUOT", "EROFS", "EBUSY", "EPERM", "ENOMEM",
    "ECONNREFUSED", "ECONNRESET", "ETIMEDOUT", "EISDIR", "ENOTDIR", "ENETUNREACH", "ESTALE", "EFBIG", "EINTR")}

class Kernel:
    MAX_OPS = 60000

    def __init__(m, clock=1.7e9, clock_plan=None, listing="sorted", seed=0):
        m.root = Dir(); m.root.ents["work"] = Dir(); m.root.ents["tmp"] = Dir()
        m.now = clock                   # simulated seconds since the epoch
        m.clock0 = clock
        m.clock_plan = clock_plan or {} # {"tick": s per op, "read_tick": s per clock read, "jumps": [[nth clock read, delta]]}
        m.clock_reads = 0
        m.clock_values = []             # what the clock was seen to be: (number of the call in its process, value)
        m.simtime = 0.0                 # total simulated time that passed
        m.listing = listing
        m.lrng = random.Random("listing/%s" % seed)
        m.net = {}                      # url -> dict(status, body, headers, chunked)
        m.next_pid = 1
        m.resources = None              # callable: real path -> bytes (read-only program resources) or None
        m.history = []                  # global event order: (pid, op, path)

    # ---- construction helpers for scenarios (not system calls) ----
    def put(m, path, data):
        comps = m._comps(path)
        d = m.root
        for c in comps[:-1]:
            d = d.ents.setdefault(c, Dir())
        if data is None: d.ents.setdefault(comps[-1], Dir())
        else: d.ents[comps[-1]] = File(data)

    def symlink(m, path, target):
        comps = m._comps(path); d = m.root
        for c in comps[:-1]: d = d.ents.setdefault(c, Dir())
        d.ents[comps[-1]] = Link(target)

    def remove(m, path):
        comps = m._comps(path); d = m.root
        for c in comps[:-1]:
            d = d.ents.get(c)
            if not isinstance(d, Dir): return
        d.ents.pop(comps[-1], None)

    def get(m, path):
        try: _, _, node = m._walk(path, "/sim/work")
        except SimErr: return None
        return bytes(node.data) if isinstance(node, File) else None

    def _comps(m, path):
        if not path.startswith("/"): path = SIM + "/work/" + path
        comps = [c for c in path.split("/") if c and c != "."]
        assert comps[0] == "sim", path
        return comps[1:]

    def snapshot(m):
        """{path: bytes, or None for a directory, or ('->', target)}"""
        out = {}
        def rec(d, p):
            for n, c in d.ents.items():
                q = p + "/" + n
                if isinstance(c, Dir): out[q] = None; rec(c, q)
                elif isinstance(c, Link): out[q] = ("->", c.target)
                else: out[q] = bytes(c.data)
        rec(m.root, SIM)
        return out

    def restore(m, snap):
        m.root = Dir()
        for p in sorted(snap):
            v = snap[p]
            if isinstance(v, tuple): m.symlink(p, v[1])
            else: m.put(p, v)

    def new_proc(m, **kw):
        pid = m.next_pid; m.next_pid += 1
        return Proc(pid, **kw)

    # ---- path resolution ----
    def resolve(m, path, cwd):
        """-> (is_sim, absolute un-normalised path)"""
        if not path.startswith("/"): path = cwd + "/" + path
        return path

    def is_sim(m, path, cwd):
        """Does the path lead into the simulated file system? (lexical)"""
        p = _os.path.normpath(m.resolve(path, cwd))
        if p.startswith("//"): p = p[1:]
        return p == SIM or p.startswith(SIM + "/")

    def _walk(m, path, cwd, follow=True, depth=0):
        """-> (parent Dir or None, name, node or None); raises SimErr"""
        if "\0" in path: raise SimErr(E.EINVAL)
        p = m.resolve(path, cwd)
        comps = [c for c in p.split("/") if c not in ("", ".")]
        trailing = p.endswith("/")
        stack = [None, m.root]  # "/" , "/sim"
        # position: the leading 'sim' component (the path is known to be inside)
        i = 0
        # skip real-part prefix: handle things like /sim or /x/../sim lexically
        pre = []
        while i < len(comps):
            if comps[i] == "..":
                if pre: pre.pop()
            else: pre.append(comps[i])
            i += 1
            if pre == ["sim"]: break
        if pre != ["sim"]: raise SimErr(E.ENOENT)
        names = []
        cur = m.root; parents = []
        while i < len(comps):
            c = comps[i]; last = i == len(comps) - 1
            if not isinstance(cur, Dir): raise SimErr(E.ENOTDIR)
            if c == "..":
                if parents:
                    cur = parents.pop(); names.pop(); i += 1; continue
                # leaves /sim: only lexical re-entry is supported
                rest = comps[i + 1:]
                if rest[:1] == ["sim"]:
                    cur = m.root; parents = []; names = []; i += 2; continue
                raise SimErr(E.ENOENT)
            if len(c.encode("utf-8", "surrogateescape")) > 255: raise SimErr(E.ENAMETOOLONG)
            node = cur.ents.get(c)
            if isinstance(node, Link) and (follow or not last or trailing):
                if depth > 20: raise SimErr(E.ELOOP)
                base = SIM + "".join("/" + n for n in names)
                t = node.target if node.target.startswith("/") else base + "/" + node.target
                rest = "/".join(comps[i + 1:])
                full = t + ("/" + rest if rest else "")
                if not m.is_sim(full, "/"): raise SimErr(E.EACCES)
                return m._walk(full, "/", follow, depth + 1)
            if last:
                if node is not None and trailing and not isinstance(node, Dir): raise SimErr(E.ENOTDIR)
                return cur, c, node
            if node is None: raise SimErr(E.ENOENT)
            parents.append(cur); names.append(c); cur = node; i += 1
        return (parents[-1] if parents else None), (names[-1] if names else ""), cur

    def canon(m, path, cwd):
        """Canonical path used in logs and oracles"""
        p = _os.path.normpath(m.resolve(path, cwd))
        return p[1:] if p.startswith("//") else p

    # ---- system calls ----
    MUTATING = {"mkdir", "rmdir", "unlink", "rename", "symlink", "link", "truncate", "chmod", "utime"}

    def syscall(m, pr, name, *args):
        """Execute one system call of a process. Returns a value, or raises SimErr / ProcKilled / ProcSignal"""
        if pr.killed: raise ProcKilled()
        idx = pr.nops; pr.nops += 1
        tick = m.clock_plan.get("tick", 0.0001)
        m.now += tick; m.simtime += abs(tick)
        if pr.nops > m.MAX_OPS:
            pr.hung = True; pr.killed = True
            raise ProcKilled()
        path = m._label(pr, name, args)
        entry = [name, path, m._detail(name, args)]
        pr.log.append(entry)
        m.history.append((pr.pid, name, path))
        if pr.pending_int:
            pr.pending_int = False; raise ProcSignal("int")
        fl = pr.faults.get(idx, ())
        short = None
        after = []
        for f in fl:
            k = f["f"]
            if k == "crash":
                pr.killed = True; pr.fired.append(f); raise ProcKilled()
            elif k in ("crash_after", "int_after"):
                after.append(f)
            elif k == "int":
                pr.fired.append(f); raise ProcSignal("int")
            elif k == "memory":
                pr.fired.append(f); raise ProcSignal("memory")
            elif k == "vanish":     # the file is removed by somebody else just before this call
                pr.fired.append(f)
                if path.startswith(SIM + "/"): m.remove(path)
            elif k == "replace":    # somebody else replaces the file just before this call
                pr.fired.append(f); m.put(f["path"], f["data"])
            elif k == "mutate":     # somebody else runs a callback-free change: list of (path, data|None=delete)
                pr.fired.append(f)
                for p, d in f["changes"]:
                    m.remove(p)
                    if d is not False: m.put(p, d)
            elif k == "short":
                if name in ("read", "write"): pr.fired.append(f); short = max(1, int(f.get("n", 1)))
            elif k == "eof":
                if name == "read": pr.fired.append(f); return b""
            elif k == "torn":       # part of the data is written, then the call and all later ones on it fail
                if name == "write":
                    pr.fired.append(f)
                    h = pr.fds.get(args[0])
                    if h:
                        n = int(len(args[1]) * f.get("frac", 0.5))
                        if n: m._write(pr, h, args[1][:n])
                        h.dead = ERRNO[f.get("e", "ENOSPC")]
                    raise SimErr(ERRNO[f.get("e", "ENOSPC")])
            elif k == "lost":       # close reports that buffered data could not be stored; a suffix is lost
                if name == "close":
                    pr.fired.append(f)
                    h = pr.fds.pop(args[0], None)
                    if h and h.wr and isinstance(h.node, File):
                        n = int(len(h.node.data) * f.get("frac", 0.5)); del h.node.data[n:]
                    raise SimErr(ERRNO[f.get("e", "EIO")])
            elif k in ERRNO:
                pr.fired.append(f)
                h = pr.fds.get(args[0]) if name in ("read", "write", "recv", "send") else None
                if h is not None and f.get("sticky", 1): h.dead = ERRNO[k]
                if name == "close": pr.fds.pop(args[0], None)
                raise SimErr(ERRNO[k])
            else:
                raise AssertionError("unknown fault %r" % (k,))
        res = getattr(m, "sys_" + name)(pr, *args) if short is None else getattr(m, "sys_" + name)(pr, *args, short=short)
        for f in after:
            pr.fired.append(f)
            if f["f"] == "crash_after": pr.killed = True; raise ProcKilled()
            if name == "write": pr.pending_int = True   # a finished write is always accounted for before signal handlers run
            else: raise ProcSignal("int")
        return res

    def _label(m, pr, name, args):
        if name in ("read", "write", "close", "lseek", "ftruncate", "fstat", "fsync", "recv", "send", "dup"):
            h = pr.fds.get(args[0])
            return h.label if h else "?"
        if args and isinstance(args[0], str): return m.canon(args[0], pr.cwd)
        return ""

    def _detail(m, name, args):
        if name in ("write", "send"): return len(args[1])
        if name == "read" or name == "recv": return args[1]
        if name == "open": return args[1]
        if name == "rename": return args[1]
        if name == "lseek": return list(args[1:])
        return None

    def _fd(m, pr, fd):
        h = pr.fds.get(fd)
        if h is None: raise SimErr(E.EBADF)
        return h

    def _note(m, pr, op, path):
        pr.mutated.append((op, m.canon(path, pr.cwd)))

    def _escape(m, pr, op, path):
        pr.escapes.append((op, m.canon(path, pr.cwd)))
        raise SimErr(E.EACCES)

    def sys_open(m, pr, path, flags):
        """flags: any of r w + a x t(runc) c(reate)"""
        wr = "w" in flags
        if not m.is_sim(path, pr.cwd):
            if wr: m._escape(pr, "open-write", path)
            data = m.resources(m.canon(path, pr.cwd)) if m.resources else None
            if data is None: raise SimErr(E.ENOENT)
            h = Handle(node=File(data), rd=True, path=m.canon(path, pr.cwd))
            h.label = "res:" + h.path
        else:
            par, name, node = m._walk(path, pr.cwd)
            if isinstance(node, Dir):
                if wr: raise SimErr(E.EISDIR)
                raise SimErr(E.EISDIR)
            if node is None:
                if "c" not in flags: raise SimErr(E.ENOENT)
                if path.endswith("/"): raise SimErr(E.EISDIR)
                node = File(mtime=m.now); par.ents[name] = node; m._note(pr, "create", path)
            else:
                if "x" in flags: raise SimErr(E.EEXIST)
                if "t" in flags:
                    del node.data[:]; node.mtime = m.now
                    m._note(pr, "trunc", path)
            h = Handle(node=node, rd="r" in flags, wr=wr, app="a" in flags, path=m.canon(path, pr.cwd))
        fd = pr.next_fd; pr.next_fd += 1
        pr.fds[fd] = h
        return fd

    def _chunk(m, pr, n, avail):
        """How many bytes does this read return, out of n wanted and avail available?"""
        k = pr.knobs.get("read_chunk")
        if not k: return min(n, avail)
        if k == "random":
            top = pr.rng.choice((1, 7, 64, 500, 4096, 65536))
            c = pr.rng.randint(1, top)
        else: c = k
        return min(n, avail, max(1, c))

    def sys_read(m, pr, fd, n, short=None):
        h = m._fd(pr, fd)
        if h.dead: raise SimErr(h.dead)
        if not h.rd: raise SimErr(E.EBADF)
        if h.kind == "pipe":
            k = min(n, len(h.data), short) if short else m._chunk(pr, n, len(h.data))
            res = h.data[:k]; h.data = h.data[k:]
        else:
            avail = max(0, len(h.node.data) - h.pos)
            k = min(n, avail, short) if short else m._chunk(pr, n, avail)
            res = bytes(h.node.data[h.pos:h.pos + k]); h.pos += k
        if not res and n: pr.nreads += 1
        return res

    def _write(m, pr, h, data):
        if h.kind == "sink":
            h.sink += data
        else:
            f = h.node
            if h.app: h.pos = len(f.data)
            if h.pos > len(f.data): f.data += b"\0" * (h.pos - len(f.data))
            f.data[h.pos:h.pos + len(data)] = data
            h.pos += len(data); f.mtime = m.now
        h.writes += 1
        if h.kind != "sink": m._note(pr, "write", h.path)

    def sys_write(m, pr, fd, data, short=None):
        h = m._fd(pr, fd)
        if h.dead: raise SimErr(h.dead)
        if not h.wr: raise SimErr(E.EBADF)
        k = len(data)
        if short: k = min(k, short)
        else:
            c = pr.knobs.get("write_chunk")
            if c == "random": c = pr.rng.randint(1, pr.rng.choice((1, 7, 64, 500, 4096, 65536)))
            if c: k = min(k, max(1, c))
        lim = pr.knobs.get("disk_free")
        if lim is not None and h.kind == "file":
            if lim <= 0 and k:
                pr.fired.append({"f": "disk_full", "at": pr.nops - 1}); raise SimErr(E.ENOSPC)
            k = min(k, lim); pr.knobs["disk_free"] = lim - k
        m._write(pr, h, data[:k])
        return k

    def sys_close(m, pr, fd):
        m._fd(pr, fd); del pr.fds[fd]

    def sys_dup(m, pr, fd):
        h = m._fd(pr, fd); n = pr.next_fd; pr.next_fd += 1; pr.fds[n] = h; return n

    def sys_lseek(m, pr, fd, off, whence):
        h = m._fd(pr, fd)
        if h.kind != "file": raise SimErr(E.ESPIPE)
        pos = off if whence == 0 else h.pos + off if whence == 1 else len(h.node.data) + off
        if pos < 0: raise SimErr(E.EINVAL)
        h.pos = pos
        return pos

    def sys_ftruncate(m, pr, fd, n):
        h = m._fd(pr, fd)
        if not h.wr or h.kind != "file": raise SimErr(E.EINVAL)
        d = h.node.data
        if n < len(d): del d[n:]
        else: d += b"\0" * (n - len(d))
        m._note(pr, "truncate", h.path)

    def sys_fsync(m, pr, fd): m._fd(pr, fd)

    def sys_isatty(m, pr, fd): return False

    def _stat(m, node):
        if isinstance(node, Dir): return ("d", 4096, node.mtime, node.ino)
        if isinstance(node, Link): return ("l", len(node.target), 0, 0)
        return ("f", len(node.data), node.mtime, node.ino)

    def sys_fstat(m, pr, fd):
        h = m._fd(pr, fd)
        if h.kind != "file": return ("p", 0, 0, 0)
        return m._stat(h.node)

    def sys_stat(m, pr, path, follow=True):
        _, _, node = m._walk(path, pr.cwd, follow)
        if node is None: raise SimErr(E.ENOENT)
        return m._stat(node)

    def sys_access(m, pr, path, mode):
        try: _, _, node = m._walk(path, pr.cwd)
        except SimErr: return False
        return node is not None

    def sys_listdir(m, pr, path):
        _, _, node = m._walk(path, pr.cwd)
        if node is None: raise SimErr(E.ENOENT)
        if not isinstance(node, Dir): raise SimErr(E.ENOTDIR)
        names = sorted(node.ents)
        if m.listing == "reverse": names.reverse()
        elif m.listing == "shuffle": m.lrng.shuffle(names)
        elif m.listing == "insertion": names = list(node.ents)
        return [(n, node.ents[n].kind) for n in names]

    def _mut(m, pr, op, path):
        if not m.is_sim(path, pr.cwd): m._escape(pr, op, path)

    def sys_mkdir(m, pr, path):
        m._mut(pr, "mkdir", path)
        par, name, node = m._walk(path, pr.cwd)
        if node is not None or par is None: raise SimErr(E.EEXIST)
        par.ents[name] = Dir(); m._note(pr, "mkdir", path)

    def sys_rmdir(m, pr, path):
        m._mut(pr, "rmdir", path)
        par, name, node = m._walk(path, pr.cwd, False)
        if node is None: raise SimErr(E.ENOENT)
        if not isinstance(node, Dir): raise SimErr(E.ENOTDIR)
        if node.ents: raise SimErr(E.ENOTEMPTY)
        if par is None: raise SimErr(E.EBUSY)
        del par.ents[name]; m._note(pr, "rmdir", path)

    def sys_unlink(m, pr, path):
        m._mut(pr, "unlink", path)
        par, name, node = m._walk(path, pr.cwd, False)
        if node is None: raise SimErr(E.ENOENT)
        if isinstance(node, Dir): raise SimErr(E.EISDIR)
        del par.ents[name]; m._note(pr, "unlink", path)

    def sys_rename(m, pr, a, b):
        m._mut(pr, "rename-from", a); m._mut(pr, "rename-to", b)
        pa, na, xa = m._walk(a, pr.cwd, False)
        pb, nb, xb = m._walk(b, pr.cwd, False)
        if xa is None: raise SimErr(E.ENOENT)
        if xa is xb: return
        if isinstance(xb, Dir):
            if not isinstance(xa, Dir): raise SimErr(E.EISDIR)
            if xb.ents: raise SimErr(E.ENOTEMPTY)
        elif isinstance(xa, Dir) and xb is not None: raise SimErr(E.ENOTDIR)
        del pa.ents[na]; pb.ents[nb] = xa
        m._note(pr, "rename", a); m._note(pr, "rename", b)

    def sys_symlink(m, pr, target, path):
        m._mut(pr, "symlink", path)
        par, name, node = m._walk(path, pr.cwd, False)
        if node is not None: raise SimErr(E.EEXIST)
        par.ents[name] = Link(target); m._note(pr, "symlink", path)

    def sys_link(m, pr, a, b):
        m._mut(pr, "link", b)
        _, _, xa = m._walk(a, pr.cwd, False)
        if xa is None: raise SimErr(E.ENOENT)
        par, name, node = m._walk(b, pr.cwd, False)
        if node is not None: raise SimErr(E.EEXIST)
        par.ents[name] = xa; m._note(pr, "link", b)

    def sys_readlink(m, pr, path):
        _, _, node = m._walk(path, pr.cwd, False)
        if node is None: raise SimErr(E.ENOENT)
        if not isinstance(node, Link): raise SimErr(E.EINVAL)
        return node.target

    def sys_truncate(m, pr, path, n):
        m._mut(pr, "truncate", path)
        _, _, node = m._walk(path, pr.cwd)
        if node is None: raise SimErr(E.ENOENT)
        if not isinstance(node, File): raise SimErr(E.EISDIR)
        del node.data[n:]; m._note(pr, "truncate", path)

    def sys_chmod(m, pr, path, mode):
        m._mut(pr, "chmod", path)
        _, _, node = m._walk(path, pr.cwd)
        if node is None: raise SimErr(E.ENOENT)

    def sys_utime(m, pr, path, t):
        m._mut(pr, "utime", path)
        _, _, node = m._walk(path, pr.cwd)
        if node is None: raise SimErr(E.ENOENT)

    def sys_getcwd(m, pr): return pr.cwd

    def sys_chdir(m, pr, path):
        _, _, node = m._walk(path, pr.cwd)
        if not isinstance(node, Dir): raise SimErr(E.ENOENT)
        pr.cwd = m.canon(path, pr.cwd)

    def sys_clock(m, pr, which):
        n = m.clock_reads; m.clock_reads += 1
        if which != "time": return m.simtime
        t = m.clock_plan.get("read_tick", 0)
        m.now += t; m.simtime += abs(t)
        for at, delta in m.clock_plan.get("jumps", ()):
            if at == n: m.now += delta
        m.clock_values.append((len(pr.starts), m.now))
        return m.now

    def sys_urandom(m, pr, n):
        return bytes(pr.rng.randrange(256) for _ in range(n))

    def sys_forbid(m, pr, what, detail):
        pr.escapes.append((what, detail))
        raise SimErr(E.EPERM)

    # ---- network ----
    def sys_connect(m, pr, host, port):
        h = Handle(kind="sock", rd=True, wr=True, path="net:%s:%s" % (host, port))
        h.net = (host, port)
        fd = pr.next_fd; pr.next_fd += 1; pr.fds[fd] = h
        return fd

    def sys_send(m, pr, fd, data):
        h = m._fd(pr, fd)
        if h.dead: raise SimErr(h.dead)
        h.sent += data
        if b"\r\n\r\n" in h.sent and h.data == b"" and h.net:
            line = h.sent.split(b"\r\n", 1)[0].decode("latin1").split(" ")
            host, port = h.net
            scheme = "https" if port == 443 else "http"
            url = "%s://%s%s" % (scheme, host, line[1])
            r = m.net.get(url)
            if r is None:
                h.data = b"HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\nConnection: close\r\n\r\n"
            else:
                body = r["body"]; st = r.get("status", 200)
                if r.get("location"):
                    h.data = b"HTTP/1.1 %d Moved\r\nLocation: %s\r\nContent-Length: 5\r\nConnection: close\r\n\r\nmoved" % (st, r["location"].encode())
                elif r.get("close"):        # no length: the end of the connection is the end of the data
                    h.data = b"HTTP/1.0 200 OK\r\nContent-Type: application/octet-stream\r\n\r\n" + body
                elif st != 200:
                    h.data = b"HTTP/1.1 %d Error\r\nContent-Length: %d\r\nConnection: close\r\n\r\n" % (st, len(body)) + body
                elif r.get("chunked"):
                    crng = random.Random("chunk/%s" % r.get("seed", 0))
                    out = b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n"
                    i = 0
                    while i < len(body):
                        k = crng.choice((1, 10, 300, 5000)); c = body[i:i + k]; i += k
                        out += b"%x\r\n" % len(c) + c + b"\r\n"
                    h.data = out + b"0\r\n\r\n"
                else:
                    h.data = b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\nConnection: close\r\n\r\n" % len(body) + body
                cut = r.get("cut")
                if cut is not None and st == 200:   # the connection drops inside the body (http.client takes an end inside the headers for the end of the headers)
                    head = h.data.index(b"\r\n\r\n") + 4
                    n = head + int((len(h.data) - head) * cut); h.data = h.data[:min(n, len(h.data) - 1)]
                    pr.fired.append({"f": "net_cut", "at": pr.nops - 1})
            h.net = None
        return len(data)

    def sys_recv(m, pr, fd, n):
        h = m._fd(pr, fd)
        if h.dead: raise SimErr(h.dead)
        k = m._chunk(pr, n, len(h.data))
        res = h.data[:k]; h.data = h.data[k:]
        return res
