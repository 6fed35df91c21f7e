"""Seeded choice of faults for a process whose fault-free history of system calls is known"""
from .kernel import SIM

READ_ERR = ("EIO", "EIO", "ESTALE", "ENOMEM")
WRITE_ERR = ("ENOSPC", "EIO", "EDQUOT", "torn", "torn", "ENOSPC")
OPEN_R = ("EACCES", "EMFILE", "ENOENT", "EIO", "EISDIR")
OPEN_W = ("EACCES", "EMFILE", "ENOSPC", "EROFS", "EISDIR", "EDQUOT")
META = ("EACCES", "EIO", "ENOENT")
DIR_W = ("EACCES", "ENOSPC", "EROFS", "EDQUOT", "EIO")

def sites(log):
    """(index, class, name, path) of every system call that can meaningfully fail"""
    out = []
    wr = set()
    for i, (name, path, det) in enumerate(log):
        if name == "open":
            w = "w" in det
            if w: wr.add(path)
            out.append((i, "open_w" if w else "open_r", name, path))
        elif name == "read": out.append((i, "read", name, path))
        elif name == "write": out.append((i, "write", name, path))
        elif name == "close": out.append((i, "close_w" if path in wr else "close_r", name, path))
        elif name == "listdir": out.append((i, "list", name, path))
        elif name in ("stat", "access", "readlink", "fstat"): out.append((i, "stat", name, path))
        elif name in ("mkdir", "rmdir", "unlink", "rename", "symlink", "truncate"): out.append((i, "dirmod", name, path))
        elif name in ("connect", "send", "recv"): out.append((i, "net", name, path))
    return out

KINDS = {"open_r": OPEN_R, "open_w": OPEN_W, "read": READ_ERR, "write": WRITE_ERR, "close_r": ("EIO",), "close_w": ("EIO", "ENOSPC", "lost", "lost", "EDQUOT"),
         "list": META, "stat": META, "dirmod": DIR_W, "net": ("ECONNRESET", "ETIMEDOUT", "ECONNREFUSED")}

def fault(r, site, extra=()):
    i, cls, name, path = site
    k = r.choice(KINDS[cls] + tuple(extra))
    f = {"at": i, "f": k, "on": "%s %s" % (name, path)}
    if k == "torn": f["frac"] = r.choice((0, 0.01, 0.3, 0.5, 0.9, 0.999)); f["e"] = r.choice(("ENOSPC", "EIO"))
    if k == "lost": f["frac"] = r.choice((0, 0.2, 0.7, 0.99)); f["e"] = r.choice(("ENOSPC", "EIO"))
    if path == "<stdout>" and k in ("ENOSPC", "EIO", "EDQUOT") and r.random() < 0.5: f["f"] = "EPIPE"
    return f

def pick(r, ss, classes=None, weight=True):
    """A site: first a class, then a file, then an occurrence, so that rare calls are not drowned"""
    if classes: ss = [s for s in ss if s[1] in classes]
    if not ss: return None
    c = r.choice(sorted(set(s[1] for s in ss)))
    ss = [s for s in ss if s[1] == c]
    p = r.choice(sorted(set(s[3] for s in ss)))
    ss = [s for s in ss if s[3] == p]
    return r.choice((ss[0], ss[-1], r.choice(ss)))

def frag(r):
    """Fragmentation knobs: short reads and writes the operating system may return"""
    k = {}
    if r.random() < 0.7: k["read_chunk"] = r.choice(("random", "random", 1, 13, 512, 4000)) 
    if r.random() < 0.7: k["write_chunk"] = r.choice(("random", "random", 1, 7, 1000))
    if r.random() < 0.4: k["bufsize"] = r.choice((64, 512, 16384, 1 << 17))
    return k

def cap_frag(knobs, spec, log):
    """Tiny fragments only where the run moves little data"""
    nin = sum(len(d) for d in spec["files"].values() if isinstance(d, bytes)) + len(spec["cmd"].get("stdin") or b"") + sum(len(v["body"]) for v in (spec.get("net") or {}).values())
    nout = sum(d for name, _, d in log if name == "write")
    for key, n in (("read_chunk", 3 * nin), ("write_chunk", nout)):
        v = knobs.get(key)
        if isinstance(v, int) and n // v > 6000: knobs[key] = "random"
    return knobs

def first_mutation(run):
    """Index of the first system call that changed the file system (from the log of a fault-free run)"""
    for i, (name, path, det) in enumerate(run.log):
        if name == "open" and ("t" in det or "c" in det) and "w" in det: return i
        if name == "write" and path.startswith(SIM): return i
        if name in ("mkdir", "rmdir", "unlink", "rename", "symlink", "truncate", "ftruncate", "link"): return i
    return len(run.log)
