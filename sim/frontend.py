"""Puts a Python process on the simulated machine.

install() replaces the operating-system entry points of the interpreter (open, os.*,
time.*, sockets, ...) by versions that send every call to a Kernel.  Paths outside /sim
are never changed: reads of read-only program resources go through the kernel too (so
that they can fail), reads of the interpreter's own files go to the real system, and any
attempt to change something outside /sim is recorded and refused."""
import builtins, errno, io, os, pickle, posixpath, shutil, socket, stat as statmod, struct, sys, tempfile, time, types
import _io
from . import kernel as K

FD0 = 1 << 20

class SimCrash(BaseException):
    """The simulated process was killed"""

class Real:
    """The real entry points, kept for the harness itself"""
    open = builtins.open
    os_open, os_read, os_write, os_close, os_stat, os_lstat = os.open, os.read, os.write, os.close, os.stat, os.lstat
    listdir, scandir, unlink, mkdir, getcwd, chdir, readlink, access = os.listdir, os.scandir, os.unlink, os.mkdir, os.getcwd, os.chdir, os.readlink, os.access
    rename, rmdir, fstat, lseek, isatty, fsync, dup = os.rename, os.rmdir, os.fstat, os.lseek, os.isatty, os.fsync, os.dup
    time, monotonic, perf_counter, localtime, gmtime, sleep, time_ns, ctime, strftime = (time.time, time.monotonic, time.perf_counter,
        time.localtime, time.gmtime, time.sleep, time.time_ns, time.ctime, time.strftime)
    fork, _exit, pipe, waitpid, getpid = os.fork, os._exit, os.pipe, os.waitpid, os.getpid

# ---- the connection to the kernel ----
class Conn:
    """Talks to a kernel in another process over a pair of pipes"""
    active = None
    def __init__(m, rfd, wfd):
        m.rfd, m.wfd = rfd, wfd
        m.dead = False
    def call(m, name, *args):
        if m.dead: raise SimCrash()
        send_msg(m.wfd, ("call", name, args))
        msg = recv_msg(m.rfd)
        kind = msg[0]
        if kind == "ok": return msg[1]
        if kind == "err": raise K.SimErr(msg[1])
        if kind == "kill": m.dead = True; raise SimCrash()
        if kind == "sig":
            if msg[1] == "int": raise KeyboardInterrupt()
            if msg[1] == "memory": raise MemoryError("injected")
        raise AssertionError(msg)

def send_msg(fd, obj):
    b = pickle.dumps(obj, 4)
    b = struct.pack("<I", len(b)) + b
    while b: b = b[Real.os_write(fd, b):]

def recv_msg(fd):
    def rd(n):
        out = b""
        while len(out) < n:
            c = Real.os_read(fd, n - len(out))
            if not c: raise EOFError
            out += c
        return out
    n, = struct.unpack("<I", rd(4))
    return pickle.loads(rd(n))

def call(name, *args, path=None, path2=None):
    c = Conn.active
    try:
        return c.call(name, *args)
    except K.SimErr as e:
        if name in ("connect",) and e.eno == errno.ENOENT:
            raise socket.gaierror(-2, "Name or service not known") from None
        if path2 is not None: raise OSError(e.eno, os.strerror(e.eno), path, None, path2) from None
        if path is not None: raise OSError(e.eno, os.strerror(e.eno), path) from None
        raise OSError(e.eno, os.strerror(e.eno)) from None

cwd_cache = ["/sim/work"]
res_prefixes = []       # real directories whose (non-python) files are program resources

def _p(path):
    p = os.fspath(path)
    if isinstance(p, bytes): p = os.fsdecode(p)
    # plain str only: the repository uses str subclasses
    p = str.__str__(p) if type(p) is str else "".join(p)
    return p

def is_sim(path):
    p = path if path.startswith("/") else cwd_cache[0] + "/" + path
    p = posixpath.normpath(p)
    if p.startswith("//"): p = p[1:]
    return p == K.SIM or p.startswith(K.SIM + "/")

def absol(path):
    p = path if path.startswith("/") else cwd_cache[0] + "/" + path
    return p

def is_resource(path):
    p = posixpath.normpath(absol(path))
    if p.endswith((".py", ".pyc", ".so", ".pyi")): return False
    return any(p.startswith(x + "/") for x in res_prefixes)

def on():
    return Conn.active is not None

# ---- raw file objects ----
class SimRaw(io.RawIOBase):
    def __init__(m, fd, name, mode, rd, wr, seekable=True, closefd=True):
        m._fd = fd; m.name = name; m.mode = mode
        m._rd, m._wr, m._seek, m._closefd = rd, wr, seekable, closefd
        m._conn = Conn.active
    def readable(m): return m._rd
    def writable(m): return m._wr
    def seekable(m): return m._seek
    def fileno(m): return m._fd + FD0
    def isatty(m): return False
    @property
    def closefd(m): return m._closefd
    def _chk(m):
        if m.closed: raise ValueError("I/O operation on closed file")
    def readinto(m, b):
        m._chk()
        if not m._rd: raise io.UnsupportedOperation("not readable")
        n = len(b)
        data = call("read", m._fd, n)
        b[:len(data)] = data
        return len(data)
    def read(m, n=-1):
        m._chk()
        if n is None or n < 0: return m.readall()
        return call("read", m._fd, n)
    def write(m, b):
        m._chk()
        if not m._wr: raise io.UnsupportedOperation("not writable")
        return call("write", m._fd, bytes(b))
    def seek(m, pos, whence=0):
        m._chk()
        return call("lseek", m._fd, pos, whence)
    def tell(m):
        m._chk()
        return call("lseek", m._fd, 0, 1)
    def truncate(m, n=None):
        m._chk()
        if n is None: n = m.tell()
        call("ftruncate", m._fd, n)
        return n
    def close(m):
        if m.closed: return
        try:
            if m._closefd and Conn.active is not None and Conn.active is m._conn and not Conn.active.dead:
                call("close", m._fd)
        finally:
            io.RawIOBase.close(m)
    def __repr__(m): return "<SimRaw %r %r>" % (m.name, m.mode)

bufsize = [8192]

def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if not on(): return Real.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    fd = None
    if isinstance(file, int):
        if file < FD0: 
            if file in (0, 1, 2): fd = file
            else: return Real.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        else: fd = file - FD0
        name = file
    else:
        name = file
        path = _p(file)
    modes = set(mode)
    if modes - set("axrwb+tU") or len(mode) > len(modes): raise ValueError("invalid mode: %r" % mode)
    creating, reading, writing, appending = "x" in modes, "r" in modes, "w" in modes, "a" in modes
    updating, text, binary = "+" in modes, "t" in modes, "b" in modes
    if text and binary: raise ValueError("can't have text and binary mode at once")
    if creating + reading + writing + appending != 1: raise ValueError("must have exactly one of create/read/write/append mode")
    if binary and encoding is not None: raise ValueError("binary mode doesn't take an encoding argument")
    if binary and errors is not None: raise ValueError("binary mode doesn't take an errors argument")
    if binary and newline is not None: raise ValueError("binary mode doesn't take a newline argument")
    rd = reading or updating
    wr = creating or writing or appending or updating
    if fd is None:
        if "\0" in path: raise ValueError("embedded null byte")
        if opener is not None:
            fl = {(1, 0): os.O_RDONLY, (0, 1): os.O_WRONLY, (1, 1): os.O_RDWR}[(int(rd), int(wr))]
            if creating: fl |= os.O_CREAT | os.O_EXCL
            if writing: fl |= os.O_CREAT | os.O_TRUNC
            if appending: fl |= os.O_CREAT | os.O_APPEND
            fd = opener(file, fl)
            if fd < FD0: return Real.open(fd, mode, buffering, encoding, errors, newline)
            fd -= FD0
        else:
            if not is_sim(path) and not wr and not is_resource(path):
                if Conn.active.dead: raise SimCrash()
                return Real.open(file, mode, buffering, encoding, errors, newline)
            flags = ("r" if rd else "") + ("w" if wr else "") + ("a" if appending else "") + \
                    ("x" if creating else "") + ("t" if writing else "") + ("c" if not reading else "")
            fd = call("open", absol(path), flags, path=file)
    raw = SimRaw(fd, name, mode, rd, wr, closefd=closefd, seekable=fd > 2)
    try:
        line_buffering = buffering == 1 and not binary
        if buffering < 0 or buffering == 1: buffering = bufsize[0]
        if buffering == 0:
            if binary: return raw
            raise ValueError("can't have unbuffered text I/O")
        if updating: buf = io.BufferedRandom(raw, buffering)
        elif wr: buf = io.BufferedWriter(raw, buffering)
        else: buf = io.BufferedReader(raw, buffering)
        if binary: return buf
        t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line_buffering)
        t.mode = mode
        if appending:
            try: t.seek(0, 2)
            except OSError: pass
        return t
    except BaseException:
        raw.close()
        raise

# ---- os functions ----
def mkstat(t):
    kind, size, mtime, ino = t
    mode = {"f": statmod.S_IFREG | 0o644, "d": statmod.S_IFDIR | 0o755, "l": statmod.S_IFLNK | 0o777, "p": statmod.S_IFIFO | 0o600}[kind]
    return os.stat_result((mode, ino, 77, 1, 0, 0, size, int(mtime), int(mtime), int(mtime), float(mtime), float(mtime), float(mtime),
                           int(mtime * 1e9), int(mtime * 1e9), int(mtime * 1e9)))

class DirEntry:
    def __init__(m, d, name, kind):
        m.name = name; m.path = posixpath.join(d, name); m._k = kind
    def is_dir(m, *, follow_symlinks=True):
        if m._k == "l" and follow_symlinks: return os.path.isdir(m.path)
        return m._k == "d"
    def is_file(m, *, follow_symlinks=True):
        if m._k == "l" and follow_symlinks: return os.path.isfile(m.path)
        return m._k == "f"
    def is_symlink(m): return m._k == "l"
    def is_junction(m): return False
    def stat(m, *, follow_symlinks=True): return os.stat(m.path, follow_symlinks=follow_symlinks)
    def inode(m): return m.stat().st_ino
    def __fspath__(m): return m.path

class ScanDir:
    def __init__(m, it): m.it = iter(it)
    def __iter__(m): return m
    def __next__(m): return next(m.it)
    def __enter__(m): return m
    def __exit__(m, *_): pass
    def close(m): pass

def _abs_of(p):
    return absol(p)

def s_stat(path, *, dir_fd=None, follow_symlinks=True):
    if on():
        if isinstance(path, int):
            if path >= FD0: return mkstat(call("fstat", path - FD0))
            if path in (0, 1, 2): return mkstat(call("fstat", path))
            return Real.os_stat(path)
        p = _p(path)
        if "\0" in p: raise ValueError("embedded null byte")
        if is_sim(p): return mkstat(call("stat", absol(p), follow_symlinks, path=path))
        if Conn.active.dead: raise SimCrash()
        return Real.os_stat(absol(p), follow_symlinks=follow_symlinks)
    return Real.os_stat(path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)

def s_lstat(path, *, dir_fd=None):
    return s_stat(path, dir_fd=dir_fd, follow_symlinks=False)

def s_fstat(fd):
    if on() and (fd >= FD0 or fd in (0, 1, 2)): return mkstat(call("fstat", fd - FD0 if fd >= FD0 else fd))
    return Real.fstat(fd)

def s_listdir(path="."):
    if on():
        p = _p(path)
        if is_sim(p): return [n for n, k in call("listdir", absol(p), path=path)]
        return Real.listdir(absol(p))
    return Real.listdir(path)

def s_scandir(path="."):
    if on():
        p = _p(path)
        if is_sim(p): return ScanDir([DirEntry(p, n, k) for n, k in call("listdir", absol(p), path=path)])
        return Real.scandir(absol(p))
    return Real.scandir(path)

def _mk(name, realf, sysname=None, nargs=1):
    def f(path, *a, **kw):
        if on():
            p = _p(path)
            return call(sysname or name, absol(p), path=path)
        return realf(path, *a, **kw)
    f.__name__ = name
    return f

def s_mkdir(path, mode=0o777, *, dir_fd=None):
    if on(): return call("mkdir", absol(_p(path)), path=path)
    return Real.mkdir(path, mode, dir_fd=dir_fd)

real_rename, real_replace, real_link, real_symlink = os.rename, os.replace, os.link, os.symlink
def s_rename(a, b, **kw):
    if on(): return call("rename", absol(_p(a)), absol(_p(b)), path=a, path2=b)
    return real_rename(a, b, **kw)
def s_link(a, b, **kw):
    if on(): return call("link", absol(_p(a)), absol(_p(b)), path=a, path2=b)
    return real_link(a, b, **kw)
def s_symlink(a, b, *x, **kw):
    if on(): return call("symlink", _p(a), absol(_p(b)), path=b)
    return real_symlink(a, b, *x, **kw)
def s_readlink(path, **kw):
    if on():
        p = _p(path)
        if is_sim(p): return call("readlink", absol(p), path=path)
        return Real.readlink(absol(p))
    return Real.readlink(path, **kw)
def s_access(path, mode, **kw):
    if on():
        p = _p(path)
        if is_sim(p): return call("access", absol(p), mode)
        if mode & os.W_OK: return False
        return Real.access(absol(p), mode)
    return Real.access(path, mode, **kw)
real_chmod, real_utime, real_truncate = os.chmod, os.utime, os.truncate
def s_chmod(path, mode, **kw):
    if on():
        if isinstance(path, int): return None
        return call("chmod", absol(_p(path)), mode, path=path)
    return real_chmod(path, mode, **kw)
def s_utime(path, *a, **kw):
    if on():
        if isinstance(path, int): return None
        return call("utime", absol(_p(path)), 0, path=path)
    return real_utime(path, *a, **kw)
def s_truncate(path, n):
    if on():
        if isinstance(path, int): return call("ftruncate", path - FD0, n)
        return call("truncate", absol(_p(path)), n, path=path)
    return real_truncate(path, n)
real_ftruncate = os.ftruncate
def s_ftruncate(fd, n):
    if on() and fd >= FD0: return call("ftruncate", fd - FD0, n)
    return real_ftruncate(fd, n)

def s_getcwd():
    if on(): return cwd_cache[0]
    return Real.getcwd()
def s_chdir(path):
    if on():
        p = absol(_p(path))
        call("chdir", p, path=path); cwd_cache[0] = posixpath.normpath(p)
        return
    Real.chdir(path)

def s_os_open(path, flags, mode=0o777, *, dir_fd=None):
    if on():
        p = _p(path)
        acc = flags & 3
        rd, wr = acc in (os.O_RDONLY, os.O_RDWR), acc in (os.O_WRONLY, os.O_RDWR)
        if not is_sim(p) and not wr and not flags & os.O_CREAT and not is_resource(p): return Real.os_open(absol(p), flags, mode)
        fl = ("r" if rd else "") + ("w" if wr else "") + ("a" if flags & os.O_APPEND else "") + ("x" if flags & os.O_EXCL else "") + \
             ("t" if flags & os.O_TRUNC else "") + ("c" if flags & os.O_CREAT else "")
        return call("open", absol(p), fl, path=path) + FD0
    return Real.os_open(path, flags, mode, dir_fd=dir_fd)

def s_os_read(fd, n):
    if on() and (fd >= FD0 or fd == 0): return call("read", fd - FD0 if fd >= FD0 else fd, n)
    return Real.os_read(fd, n)
def s_os_write(fd, b):
    if on() and (fd >= FD0 or fd in (1, 2)): return call("write", fd - FD0 if fd >= FD0 else fd, bytes(b))
    return Real.os_write(fd, b)
def s_os_close(fd):
    if on() and fd >= FD0: return call("close", fd - FD0)
    return Real.os_close(fd)
def s_lseek(fd, pos, how):
    if on() and fd >= FD0: return call("lseek", fd - FD0, pos, how)
    return Real.lseek(fd, pos, how)
def s_fsync(fd):
    if on() and fd >= FD0: return call("fsync", fd - FD0)
    return Real.fsync(fd)
def s_isatty(fd):
    if on(): return False
    return Real.isatty(fd)
real_dup = os.dup
def s_dup(fd):
    if on() and (fd >= FD0 or fd <= 2): return call("dup", fd - FD0 if fd >= FD0 else fd) + FD0
    return real_dup(fd)
real_urandom = os.urandom
def s_urandom(n):
    if on(): return call("urandom", n)
    return real_urandom(n)

def forbid(name, realf):
    def f(*a, **kw):
        if on(): call("forbid", name, repr(a)[:200])
        return realf(*a, **kw)
    f.__name__ = name
    return f

# ---- clock ----
def s_time():
    return call("clock", "time") if on() else Real.time()
def s_time_ns():
    return int(call("clock", "time") * 1e9) if on() else Real.time_ns()
def s_mono():
    return call("clock", "mono") if on() else Real.monotonic()
def s_perf():
    return call("clock", "mono") if on() else Real.perf_counter()
def s_localtime(t=None):
    return Real.localtime(s_time() if t is None and on() else t)
def s_gmtime(t=None):
    return Real.gmtime(s_time() if t is None and on() else t)
def s_ctime(t=None):
    return Real.ctime(s_time() if t is None and on() else t)
def s_strftime(fmt, t=None):
    return Real.strftime(fmt, s_localtime() if t is None else t)
def s_sleep(t):
    if on(): call("clock", "mono"); return
    Real.sleep(t)

# ---- network ----
class SimSocket:
    def __init__(m, fd): m.fd = fd
    def setsockopt(m, *_): pass
    def settimeout(m, *_): pass
    def gettimeout(m): return None
    def sendall(m, data):
        if hasattr(data, "read"): data = data.read()
        call("send", m.fd, bytes(data))
    def send(m, data): m.sendall(data); return len(data)
    def recv(m, n): return call("recv", m.fd, n)
    def makefile(m, mode="r", buffering=None, **kw):
        sock = m
        class Raw(io.RawIOBase):
            def readable(s): return True
            def readinto(s, b):
                d = sock.recv(len(b)); b[:len(d)] = d; return len(d)
        return io.BufferedReader(Raw(), bufsize[0])
    def close(m): pass
    def shutdown(m, *_): pass
    def fileno(m): return m.fd + FD0

def s_create_connection(address, *a, **kw):
    if on():
        return SimSocket(call("connect", address[0], address[1]))
    return real_create_connection(address, *a, **kw)
real_create_connection = socket.create_connection

installed = [False]

def install():
    if installed[0]: return
    installed[0] = True
    builtins.open = sim_open; io.open = sim_open; _io.open = sim_open
    os.stat, os.lstat, os.fstat, os.listdir, os.scandir = s_stat, s_lstat, s_fstat, s_listdir, s_scandir
    os.mkdir = s_mkdir
    os.rmdir = _mk("rmdir", os.rmdir)
    os.unlink = _mk("unlink", os.unlink); os.remove = _mk("remove", os.remove, "unlink")
    os.rename = s_rename; os.replace = s_rename; os.link = s_link; os.symlink = s_symlink
    os.readlink = s_readlink; os.access = s_access; os.chmod = s_chmod; os.utime = s_utime
    os.truncate = s_truncate; os.ftruncate = s_ftruncate
    os.getcwd = s_getcwd; os.chdir = s_chdir
    os.open, os.read, os.write, os.close, os.lseek = s_os_open, s_os_read, s_os_write, s_os_close, s_lseek
    os.fsync = s_fsync; os.fdatasync = s_fsync; os.isatty = s_isatty; os.dup = s_dup
    os.urandom = s_urandom
    for n in ("system", "popen", "execv", "execve", "posix_spawn", "posix_spawnp", "chown", "lchown", "mkfifo", "mknod",
              "kill", "killpg", "chroot", "fork", "forkpty"):
        if hasattr(os, n): setattr(os, n, forbid(n, getattr(os, n)))
    import subprocess
    subprocess.Popen.__init__ = forbid("subprocess", subprocess.Popen.__init__)
    import urllib.request, http.client, ssl
    shutil._use_fd_functions = False
    if hasattr(shutil.rmtree, "avoids_symlink_attacks"): shutil.rmtree.avoids_symlink_attacks = False
    shutil._USE_CP_SENDFILE = False
    time.time, time.time_ns, time.monotonic, time.perf_counter = s_time, s_time_ns, s_mono, s_perf
    time.localtime, time.gmtime, time.ctime, time.strftime, time.sleep = s_localtime, s_gmtime, s_ctime, s_strftime, s_sleep
    import datetime as dtm
    real_dt, real_date = dtm.datetime, dtm.date
    class datetime(real_dt):
        @classmethod
        def now(cls, tz=None): return cls.fromtimestamp(s_time(), tz)
        @classmethod
        def utcnow(cls): return cls.utcfromtimestamp(s_time())
        @classmethod
        def today(cls): return cls.fromtimestamp(s_time())
    class date(real_date):
        @classmethod
        def today(cls): return cls.fromtimestamp(s_time())
    datetime.__module__ = "datetime"; date.__module__ = "datetime"
    dtm.datetime = datetime; dtm.date = date
    socket.create_connection = s_create_connection
    real_wrap = ssl.SSLContext.wrap_socket
    def wrap(self, sock, *a, **kw):
        if isinstance(sock, SimSocket): return sock
        return real_wrap(self, sock, *a, **kw)
    ssl.SSLContext.wrap_socket = wrap

class Std:
    """Fresh standard streams for one run"""
    def __init__(m):
        m.old = (sys.stdin, sys.stdout, sys.stderr)
        def w(fd, errors, lb):
            raw = SimRaw(fd, "<stdout>" if fd == 1 else "<stderr>", "wb", False, True, seekable=False, closefd=False)
            return io.TextIOWrapper(io.BufferedWriter(raw, bufsize[0]), "utf-8", errors, "\n", line_buffering=lb, write_through=False)
        raw = SimRaw(0, "<stdin>", "rb", True, False, seekable=False, closefd=False)
        sys.stdin = io.TextIOWrapper(io.BufferedReader(raw, bufsize[0]), "utf-8", "surrogateescape", "\n")
        sys.stdout = w(1, "surrogateescape", False)
        sys.stderr = w(2, "backslashreplace", True)
        sys.__stdin__, sys.__stdout__, sys.__stderr__ = sys.stdin, sys.stdout, sys.stderr
