"""A simulated Picotron console around lua54: like console.py, but whole numbers are 64-bit integers and others
doubles, and what a program shows tells them apart"""
import math, os, struct, sys, threading, traceback
from . import console, lua54
from .lua54 import Fn, Halt, LuaError, Syntax, Table, to_int, to_number, tostr, truthy, type_of

API = console.API + ["window", "vid", "notify"]
READS = console.READS
STEPS = 60000

PRELUDE = r"""
function all(c)
  if c == nil or #c == 0 then return function() end end
  local i, prev = 1
  return function()
    if c[i] == prev then i += 1 end
    while i <= #c and c[i] == nil do i += 1 end
    prev = c[i] return prev
  end
end
function foreach(c, f) for v in all(c) do f(v) end end
function add(t, v, i)
  if t == nil then return end
  local n = #t
  if i == nil or i > n then t[n + 1] = v return v end
  for j = n, i, -1 do t[j + 1] = t[j] end
  t[i] = v return v
end
function deli(t, i)
  if t == nil then return end
  local n = #t
  if i == nil then i = n end
  if i < 1 or i > n then return end
  local v = t[i]
  for j = i, n - 1 do t[j] = t[j + 1] end
  t[n] = nil
  return v
end
function del(t, v)
  if t == nil then return end
  for i = 1, #t do if t[i] == v then return deli(t, i) end end
end
function count(t, v)
  if v == nil then return #t end
  local n = 0
  for x in all(t) do if x == v then n += 1 end end
  return n
end
function pack(...) return {n = select("#", ...), ...} end
"""

class Session:
    def __init__(m, code, S):
        m.S = S; m.out = []; m.n = 0; m.reads = m.nrnd = m.now = m.frame = 0; m.menu = {}
        m.vm = vm = lua54.Vm(STEPS * S.get("more", 1)); vm.peeks = lambda o, a: m.hash([ord(o), a]) & 255
        m.stop = S.get("stop") or 0; m.fail = set(S.get("fail", ())); m.skip = set(S.get("skip", ())); m.menus = {int(k): v for k, v in S.get("menu", {}).items()}
        m.code = code

    def show(m, v):
        t = type(v)
        if t is float: return "nan" if v != v else v.hex()
        if t is str: return '"%d:%s"' % (len(v), v)
        if t is int or v is None or t is bool: return tostr(v)
        return type_of(v)
    def event(m, parts):
        m.n += 1
        if m.n > console.EVENTS: m.vm.dead = m.vm.dead or "events"
        if m.vm.dead: raise Halt
        m.out.append(" ".join(m.show(p) for p in parts))
        if m.stop == m.n: m.vm.dead = "stopped"; raise Halt
        if m.n in m.fail: m.out.append("!fails"); raise LuaError("injected")
    def hash(m, args):
        h = m.S["salt"]
        for v in args:
            if type(v) is float: v = int(v * 16) if v == v and abs(v) < 1e15 else 77
            if type(v) is int: h = ((h * 31 + v * 7) ^ (h >> 5)) & 0xffffff
        return h

    def api(m, k):
        def f(args):
            m.event([k] + args)
            a = args + [None] * 3
            if k == "menuitem" and type(a[0]) is int: m.menu[a[0]] = a[2]
            if k == "print": return [len(m.out) & 127]
            if k in ("color", "camera", "cursor"): return [0]
            return []
        return f
    def read(m, k):
        S = m.S
        def f(args):
            m.event([k] + args); m.reads += 1
            x = args[0] if args else None
            if k in ("btn", "btnp"):
                b = S["btn"][(m.frame + (m.reads if S.get("late") else 0)) % len(S["btn"])]
                if not args: return [b]
                i = to_int(x)
                return [i is not None and 0 <= i < 6 and b >> i & 1 == 1]
            if k in ("t", "time"): m.now += S["tick"]; return [float(m.now + m.frame * S["step"])]
            if k == "rnd":
                m.nrnd += 1; v = float(S["rnd"][m.nrnd % len(S["rnd"])])
                if type(x) is Table: return [x.get(int(v * x.border()) + 1)]
                return [v * x if type(x) in (int, float) else v]
            h = m.hash(args)
            if k == "fget": return [h & 1 == 1] if len(args) > 1 else [h & 255]
            if k in ("pget", "sget"): return [h & 15]
            if k in ("stat", "dget"): return [h]
            return [h & 255]
        return f

    def install(m):
        vm, env = m.vm, m.vm.env
        def put(name, f): env.set(name, Fn(f, name))
        def arg(a, i, d=None): return a[i] if i < len(a) and a[i] is not None else d
        def num(a, i, d=None):
            v = arg(a, i, d)
            if type(v) is str: v = to_number(v)
            if type(v) not in (int, float): raise LuaError("number expected")
            return v
        def integer(a, i, d=None):
            v = to_int(num(a, i, d))
            if v is None: raise LuaError("number has no integer representation")
            return v
        def string(a, i, d=None):
            v = arg(a, i, d)
            if type(v) in (int, float): v = tostr(v)
            if type(v) is not str: raise LuaError("string expected")
            return v
        def table(a, i):
            v = arg(a, i)
            if type(v) is not Table: raise LuaError("table expected")
            return v
        def rounder(f):
            def g(a):
                v = num(a, 0, 0)
                if type(v) is int: return [v]
                if v != v or v in (math.inf, -math.inf): return [v]
                i = f(v); return [i if -1 << 63 <= i < 1 << 63 else float(i)]
            return g
        def mid(a):
            x, y, z = num(a, 0, 0), num(a, 1, 0), num(a, 2, 0)
            return [sorted((x, y, z))[1]] if len({x, y, z}) == 3 else [y if (x < y) == (y < z) else x if (x < y) != (x < z) else z]
        def absolute(a):
            v = num(a, 0, 0); return [lua54.wrap(abs(v)) if type(v) is int else abs(v)]
        put("flr", rounder(math.floor)); put("ceil", rounder(math.ceil)); put("abs", absolute); put("mid", mid)
        put("max", lambda a: [num(a, 0, 0) if num(a, 0, 0) > num(a, 1, 0) else num(a, 1, 0)])
        put("min", lambda a: [num(a, 0, 0) if num(a, 0, 0) < num(a, 1, 0) else num(a, 1, 0)])
        put("sgn", lambda a: [-1 if num(a, 0, 0) < 0 else 1])
        put("sqrt", lambda a: [math.sqrt(num(a, 0, 0)) if num(a, 0, 0) >= 0 else 0.0])
        put("sin", lambda a: [-math.sin(float(num(a, 0, 0)) * 2 * math.pi)]); put("cos", lambda a: [math.cos(float(num(a, 0, 0)) * 2 * math.pi)])
        put("atan2", lambda a: [math.atan2(float(num(a, 0, 0)), float(num(a, 1, 0)))])
        put("type", lambda a: [type_of(arg(a, 0))])
        def ts(a):
            if not a: return [""]
            return [tostr(a[0]) if a[0] is not None else "[nil]"]
        put("tostr", ts); put("tostring", lambda a: [tostr(arg(a, 0))])
        def tn(a):
            v = arg(a, 0)
            return [v] if type(v) in (int, float) else [to_number(v)] if type(v) is str else []
        put("tonum", tn); put("tonumber", tn)
        def sub(a):
            s = string(a, 0); i = integer(a, 1, 1); n = len(s)
            j = (i if len(a) > 2 and a[2] is not None and type(a[2]) not in (int, float) else integer(a, 2, -1))
            if i < 0: i = max(n + i + 1, 1)
            elif i == 0: i = 1
            if j < 0: j = n + j + 1
            return [s[i - 1:max(j, 0)] if j >= i else ""]
        put("sub", sub)
        put("chr", lambda a: ["".join(chr(to_int(v) & 255) for v in a)])
        def ordf(a):
            s = string(a, 0); i = integer(a, 1, 1); k = integer(a, 2, 1)
            return [ord(s[j - 1]) if 1 <= j <= len(s) else None for j in range(i, i + min(k, 100))]
        put("ord", ordf)
        def split(a):
            s = string(a, 0); sep = arg(a, 1, ","); conv = a[2] if len(a) > 2 and a[2] is not None else True
            if type(sep) in (int, float): k = max(1, int(sep)); parts = [s[j:j + k] for j in range(0, len(s), k)]
            elif sep == "": parts = list(s)
            else: parts = s.split(sep)
            t = Table()
            for j, p in enumerate(parts):
                v = to_number(p) if conv else None
                t.set(j + 1, p if v is None else v)
            return [t]
        put("split", split)
        put("select", lambda a: [len(a) - 1] if a and a[0] == "#" else a[integer(a, 0):] if integer(a, 0) > 0 else a[integer(a, 0):])
        def unpack(a):
            t = table(a, 0); i = integer(a, 1, 1); j = integer(a, 2, t.border())
            if j - i > 500: raise LuaError("too many results to unpack")
            return [t.get(x) for x in range(i, j + 1)]
        put("unpack", unpack)
        def nextf(a):
            t = table(a, 0); k = arg(a, 1); ks = t.keys()
            if k is None: i = 0
            else:
                k = lua54.key_of(k)
                if k not in ks: raise LuaError("invalid key to 'next'")
                i = ks.index(k) + 1
            return [lua54.unkey(ks[i]), t.h[ks[i]]] if i < len(ks) else [None]
        put("next", nextf)
        def pairs(a):
            h = lua54.meta_of(vm, arg(a, 0), "__pairs")
            if h is not None: return (vm.call(h, [a[0]]) + [None] * 3)[:3]
            t = table(a, 0); ks = t.keys(); pos = [0]
            def step(_):
                while pos[0] < len(ks):
                    k = ks[pos[0]]; pos[0] += 1
                    if k in t.h: return [lua54.unkey(k), t.h[k]]
                return [None]
            return [Fn(step), t, None]
        put("pairs", pairs)
        def istep(a):
            i = a[1] + 1; v = vm.index(a[0], i)
            return [i, v] if v is not None else [None]
        put("ipairs", lambda a: [Fn(istep), a[0], 0]); put("inext", lambda a: istep([a[0], arg(a, 1, 0)]))
        def setmeta(a):
            t = table(a, 0); mt = arg(a, 1)
            if t.meta is not None and t.meta.get("__metatable") is not None: raise LuaError("cannot change a protected metatable")
            t.meta = mt; return [t]
        put("setmetatable", setmeta)
        def getmeta(a):
            v = arg(a, 0); mt = v.meta if type(v) is Table else vm.smeta if type(v) is str else None
            return [mt.get("__metatable") or mt] if mt is not None else [None]
        put("getmetatable", getmeta)
        put("rawget", lambda a: [table(a, 0).get(arg(a, 1))]); put("rawlen", lambda a: [len(a[0]) if type(a[0]) is str else table(a, 0).border()])
        def rawset(a): table(a, 0).set(a[1], arg(a, 2)); return [a[0]]
        put("rawset", rawset)
        put("rawequal", lambda a: [a[0] is a[1] if type(a[0]) in (Table, Fn) else type(a[0]) is type(a[1]) and a[0] == a[1]])
        def check(a):
            if not truthy(arg(a, 0)): raise LuaError(arg(a, 1, "assertion failed!"))
            return a
        put("assert", check)
        def error(a): raise LuaError(arg(a, 0))
        put("error", error)
        def pcall(a):
            d = vm.depth
            try: return [True] + vm.call(arg(a, 0), a[1:])
            except LuaError as e: vm.depth = d; return [False, "error" if type(e.v) is str else e.v]
        put("pcall", pcall)
        def cocreate(a):
            if type(arg(a, 0)) is not Fn: raise LuaError("function expected")
            return [lua54.Co(vm, a[0])]
        put("cocreate", cocreate)
        def coresume(a):
            ok, vals = arg(a, 0).resume(a[1:]) if isinstance(arg(a, 0), lua54.Co) else (False, [])
            return [True] + vals if ok else [False, "error"]
        put("coresume", coresume)
        put("costatus", lambda a: [a[0].status])
        def yield_(a):
            if vm.current is None: m.vm.dead = "yielded"; m.out.append("yielded"); raise Halt
            got = vm.current.yield_(a)
            if vm.dead: raise Halt
            return got
        put("yield", yield_)
        for n in ("peek", "peek2", "peek4", "peek8"): put(n, (lambda n: lambda a: [m.hash([len(n)] + a) & 255])(n))
        for k in API: put(k, m.api(k))
        for k in READS: put(k, m.read(k))
        st = Table(); env.set("string", st); vm.smeta = Table(); vm.smeta.set("__index", st)
        for n, f in (("sub", sub), ("len", lambda a: [len(string(a, 0))]), ("upper", lambda a: [string(a, 0).upper() if string(a, 0).isascii() else string(a, 0)]), ("lower", lambda a: [string(a, 0).lower() if string(a, 0).isascii() else string(a, 0)]),
                     ("rep", lambda a: [string(a, 0) * max(0, min(integer(a, 1), 50))]), ("byte", ordf), ("char", lambda a: ["".join(chr(to_int(v) & 255) for v in a)])): st.set(n, Fn(f, n))
        mt = Table(); env.set("math", mt)
        for n, v in (("pi", math.pi), ("huge", math.inf), ("maxinteger", (1 << 63) - 1), ("mininteger", -1 << 63)): mt.set(n, v)
        def floor(a): v = num(a, 0); return [v if type(v) is int else math.floor(v) if v == v and abs(v) < 2.0 ** 63 else v]
        mt.set("floor", Fn(floor)); mt.set("type", Fn(lambda a: ["integer" if type(arg(a, 0)) is int else "float" if type(arg(a, 0)) is float else None])); mt.set("tointeger", Fn(lambda a: [to_int(arg(a, 0)) if type(arg(a, 0)) is not str else None]))
        tb = Table(); env.set("table", tb); tb.set("unpack", Fn(unpack))
        def concat(a): t = table(a, 0); sep = arg(a, 1, ""); return [sep.join(string([t.get(i)], 0) for i in range(1, t.border() + 1))]
        tb.set("concat", Fn(concat))
        vm.call(vm.load(PRELUDE), []); tb.set("pack", env.get("pack"))
        env.set("_G", env)
        vm.left = STEPS * m.S.get("more", 1)

    def call(m, what, f, args=()):
        vm = m.vm
        if vm.dead: return
        try: vm.call(f, list(args)); m.out.append("= " + what)
        except LuaError: vm.dead = "error"; m.out.append("= " + what + " error")
        except Halt:
            if vm.dead == "yielded": m.out[-1] = "= " + what + " yielded"
        except RecursionError: vm.dead = "memory"
        vm.depth = 0

    def run(m):
        m.install(); vm, S = m.vm, m.S
        try: main = vm.load(m.code)
        except Syntax as e: return "syntax", str(e)
        m.call("main", main); g = vm.env.get
        if not vm.dead:
            if g("_init") is not None: m.call("init", g("_init"))
            for i in range(1, S["frames"] + 1):
                m.frame = i; u = g("_update") if g("_update60") is None else g("_update60"); k = m.menus.get(i)
                if k and type(m.menu.get(k)) is Fn: m.call("menu", m.menu[k], [S["btn"][(i - 1) % len(S["btn"])]])
                if u is not None: m.call("update", u)
                if g("_draw") is not None and i not in m.skip: m.call("draw", g("_draw"))
                if u is None and g("_draw") is None: break
        return vm.dead or "ended", "\n".join(m.out)

def _one(code, s):
    res = []
    def go():
        try: res.append(Session(code, s).run())
        except RecursionError: res.append(("memory", ""))
        except BaseException: res.append(("vm:" + traceback.format_exc()[-800:], ""))
    t = threading.Thread(target=go); t.start(); t.join()
    st, tr = res[0]
    return st, tr.encode("latin-1", "replace")

def play(programs, schedules, seconds=120):
    """Like console.play"""
    rd, wr = os.pipe(); pid = os.fork()
    if pid == 0:
        try:
            import signal
            os.close(rd); signal.signal(signal.SIGALRM, signal.SIG_DFL); signal.alarm(seconds)
            sys.setrecursionlimit(12000); threading.stack_size(128 << 20)
            rows = [[_one(c.decode("latin-1"), s) for s in schedules] for c in programs]
            data = b"".join(struct.pack("<II", len(st.encode()), len(tr)) + st.encode() + tr for row in rows for st, tr in row)
            with os.fdopen(wr, "wb") as h: h.write(data)
            os._exit(0)
        except BaseException: traceback.print_exc()
        finally: os._exit(1)
    os.close(wr)
    return console.collect(rd, pid, len(programs), len(schedules))
