"""A simulated Pico-8 console: plays a cart's code on the real z8lua VM, with everything around the
code (buttons, clock, random numbers, screen, sound, menu, memory) simulated and seeded.

play(programs, schedules) -> for each program, for each schedule, the trace of what the program
did: every call of the console's API with its arguments, and how each callback ended.  The code of the
cart is the real thing; the console is a stub that answers from the schedule.  Each call forks a child, since
a VM is the one part of this that could crash or hang for real."""
import os, signal, struct, traceback
from lupaz8 import luaz8

API = """print spr sfx music circfill circ pset rectfill rect cls map mset sset fset camera color pal palt printh dset poke poke2 poke4 line oval ovalfill menuitem fillp tline
clip cursor flip holdframe memcpy memset reload cstore cartdata sspr srand extcmd serial load save run stop rrect rrectfill""".split()
READS = "btn btnp rnd stat t time mget pget sget fget dget".split()
PURE = """abs add all assert atan2 band bnot bor bxor ceil chr cocreate coresume cos costatus count del deli flr foreach getmetatable inext ipairs lshr max mid min next ord pack pairs peek peek2 peek4
rawequal rawget rawlen rawset rotl rotr select setmetatable sgn shl shr sin split sqrt sub tonum tostr type unpack yield""".split()
# what Pico-8 itself turns into locals in front of the cart
LOCALS = """time sub chr ord tostr tonum add del deli clip color pal palt fillp pget pset sget sset fget fset circ circfill rect rectfill oval ovalfill line spr sspr mget mset tline
peek poke peek2 poke2 peek4 poke4 memcpy memset max min mid flr ceil cos sin atan2 srand band bor bxor bnot shl shr lshr rotl rotr""".split()

BUDGET, EVENTS = 1600, 1500       # steps of 250 instructions; calls of the API

PRELUDE = r"""
local API, READS, PURE, LOCALS, BUDGET, EVENTS = ...
local type, tostr, select, sub, pcall, load, setmetatable, error, rawequal, cocreate, coresume, costatus, pairs = type, tostr, select, sub, pcall, load, setmetatable, error, rawequal, cocreate, coresume, costatus, pairs
local sethook, concat, G, tostring, next, insert = debug.sethook, table.concat, _G, tostring, next, table.insert
local memset, poke4 = memset, poke4
local MEMORY = {poke = poke, poke2 = poke2, poke4 = poke4, memset = memset, memcpy = memcpy}
return function(code, S)
  local out, n, left, dead = {}, 0, BUDGET * S.more, false
  local nreads, nrnd, now, frame = 0, 0, 0, 0
  local menu = {}
  local halt = {}
  local function tick()
    left = left - 1
    if left < 0 and not dead then dead = 'budget' end
    if dead then error(halt, 0) end
  end
  local function show(v)
    local t = type(v)
    if t == 'number' then return tostr(v, true)
    elseif t == 'string' then return '"' .. #v .. ':' .. v .. '"'
    elseif t == 'nil' or t == 'boolean' then return tostring(v)
    else return t end
  end
  local function event(...)
    n = n + 1
    if n > EVENTS then dead = dead or 'events' end
    if dead then error(halt, 0) end
    local parts = {}
    for i = 1, select('#', ...) do parts[i] = show((select(i, ...))) end
    out[#out + 1] = concat(parts, ' ')
    if S.stop == n then dead = 'stopped'; error(halt, 0) end
    if S.fail[n] then out[#out + 1] = '!fails'; error('injected', 0) end
  end
  memset(0, S.salt & 255, 0x7fff); memset(0x7fff, S.salt >> 8, 0x7fff); memset(0xfffe, S.salt & 63, 2)
  for i = 1, 999 do poke4(i * 55, i * S.salt * 7.1) end
  local env = {}
  for _, k in pairs(PURE) do env[k] = G[k] end
  for _, k in pairs(API) do
    env[k] = function(...)
      event(k, ...)
      if k == 'menuitem' then local i, l, f = ...; if type(i) == 'number' then menu[i] = f end end
      if MEMORY[k] then return MEMORY[k](...) end
      if k == 'print' then return #out & 127 end
      if k == 'color' or k == 'camera' or k == 'cursor' then return 0 end
    end
  end
  local function hash(...)
    local h = S.salt
    for i = 1, select('#', ...) do local v = select(i, ...); if type(v) == 'number' then h = (h * 31 + v * 7 + (v << 3)) ^^ (h >>> 5) end end
    return h
  end
  for _, k in pairs(READS) do
    env[k] = function(...)
      event(k, ...)
      nreads = nreads + 1
      if k == 'btn' or k == 'btnp' then
        local m = S.btn[(frame + (S.late and nreads or 0)) % #S.btn + 1] or 0
        if select('#', ...) == 0 then return m end
        local b = ...
        return type(b) == 'number' and b >= 0 and b < 6 and (m & (1 << b)) != 0
      elseif k == 't' or k == 'time' then now = now + S.tick; return now + frame * S.step
      elseif k == 'rnd' then
        nrnd = nrnd + 1
        local v = S.rnd[nrnd % #S.rnd + 1]; local x = ...
        if type(x) == 'table' then return x[(v * #x) \ 1 + 1] end
        if type(x) == 'number' then return (v * (x & 0x7f.ffff)) end
        return v
      elseif k == 'fget' then
        local h = hash(...) & 255
        if select('#', ...) > 1 then return h & 1 == 1 end
        return h
      elseif k == 'pget' or k == 'sget' then return hash(...) & 15
      elseif k == 'stat' or k == 'dget' then return hash(...)
      else return hash(...) & 255 end
    end
  end
  env.cocreate = function(f) local c = cocreate(f); sethook(c, tick, '', 250); return c end
  local function sticky(ok, ...)
    if dead then error(halt, 0) end
    if not ok then return false, 'error' end
    return ok, ...
  end
  env.coresume = function(...) return sticky(coresume(...)) end
  env.tostr = function(v, ...) local t = type(v); if t == 'table' or t == 'function' or t == 'thread' then return '[' .. t .. ']' end return tostr(v, ...) end
  for k, v in pairs(S.globals) do env[k] = v end
  env._ENV = nil
  local head = 'local ' .. concat(LOCALS, ',') .. '=' .. concat(LOCALS, ',') .. '; '
  local f, err = load(head .. code, '=cart', 't', env)
  if not f then return 'syntax', err end
  local function call(what, f, ...)
    if dead then return end
    local n0 = #out
    local c = cocreate(f); sethook(c, tick, '', 250)
    local ok = coresume(c, ...)
    if dead then return end
    if ok and costatus(c) != 'dead' then dead = 'yielded'; out[#out + 1] = '= ' .. what .. ' yielded'
    elseif ok then out[#out + 1] = '= ' .. what
    else dead = 'error'; out[#out + 1] = '= ' .. what .. ' error' end
  end
  call('main', f)
  if not dead then
    if env._init then call('init', env._init) end
    for i = 1, S.frames do
      frame = i
      local u = env._update60 or env._update
      local m = S.menu[i]
      if m and menu[m] and type(menu[m]) == 'function' then call('menu', menu[m], S.btn[i] or 0) end
      if u then call('update', u) end
      if env._draw and not S.skip[i] then call('draw', env._draw) end
      if not u and not env._draw then break end
    end
  end
  return dead or 'ended', concat(out, '\n')
end
"""

def _vm():
    vm = luaz8.LuaRuntime(unpack_returned_tuples=True, encoding=None, register_eval=False, max_memory=64 << 20)
    t = lambda names: vm.table_from([n.encode() for n in names])
    made = vm.execute(b"return load(" + lit(PRELUDE.encode()) + b", '=console', 't')")
    return vm, made(t(API), t(READS), t(PURE), t(LOCALS), BUDGET, EVENTS)

def lit(b): return b"[==========[\n" + b + b"]==========]"

def _table(vm, v):
    if isinstance(v, dict):
        t = vm.table()
        for k, x in v.items(): t[k.encode() if isinstance(k, str) else k] = _table(vm, x)
        return t
    if isinstance(v, (list, tuple)): return vm.table_from([_table(vm, x) for x in v])
    if isinstance(v, str): return v.encode("latin-1")
    return v

def _one(vm, f, code, s):
    S = {"more": s.get("more", 1), "stop": s.get("stop") or 0, "fail": {n: True for n in s.get("fail", ())}, "btn": s["btn"], "late": bool(s.get("late")), "tick": s["tick"], "step": s["step"], "rnd": s["rnd"], "salt": s["salt"], "frames": s["frames"],
         "menu": {int(k): v for k, v in s.get("menu", {}).items()}, "skip": {n: True for n in s.get("skip", ())}, "globals": {}}
    try: st, tr = f(code, _table(vm, S))
    except MemoryError: return "memory", b""
    except Exception as e: return "vm:%r" % (e,), b""
    return st.decode(), tr

def schedule(r):
    """A seeded way for a session to go"""
    n = r.choice((1, 2, 3, 5))
    s = {"frames": n, "btn": [r.choice((0, 0, 1, 2, 16, 32, 63, r.randrange(64))) for _ in range(r.randint(1, 6))], "late": r.random() < 0.3, "tick": r.choice((0, 0, 0.0001, 0.5, -1)), "step": r.choice((1 / 30, 1 / 60, 0, 20, -300)),
         "rnd": [r.choice((0, 0.25, 0.5, 0.75, 0.9999, round(r.random(), 4))) for _ in range(r.randint(1, 7))], "salt": r.randrange(1, 30000), "skip": [i for i in range(1, n + 1) if r.random() < 0.15], "menu": {i: r.randint(1, 3) for i in range(1, n + 1) if r.random() < 0.3}}
    k = r.randrange(5)
    if k == 0: s["stop"] = r.choice((1, 2, 3, r.randint(1, 40), r.randint(1, 200)))
    elif k == 1: s["fail"] = sorted({r.choice((1, 2, 3, r.randint(1, 40), r.randint(1, 200))) for _ in range(r.choice((1, 1, 3)))})
    return s

def play(programs, schedules, seconds=40):
    """-> [[(status, trace bytes) for each schedule] for each program]"""
    rd, wr = os.pipe(); pid = os.fork()
    if pid == 0:
        try:
            os.close(rd); signal.signal(signal.SIGALRM, signal.SIG_DFL); signal.alarm(seconds)
            out = []
            for code in programs:
                row = []
                for s in schedules:
                    vm, f = _vm(); row.append(_one(vm, f, code, s))
                out.append(row)
            data = b"".join(struct.pack("<II", len(st.encode()), len(tr)) + st.encode() + tr for row in out for st, tr in row)
            with os.fdopen(wr, "wb") as h: h.write(data)
            os._exit(0)
        except BaseException: traceback.print_exc()
        finally: os._exit(1)
    os.close(wr)
    return collect(rd, pid, len(programs), len(schedules))

def collect(rd, pid, np, ns):
    """What the child played"""
    data = bytearray()
    while True:
        b = os.read(rd, 1 << 20)
        if not b: break
        data += b
    os.close(rd); _, rc = os.waitpid(pid, 0)
    if rc: raise RuntimeError("the VM ended with %s" % rc)
    p = 0; out = []
    for _ in range(np):
        row = []
        for _ in range(ns):
            a, b = struct.unpack_from("<II", data, p); p += 8; row.append((bytes(data[p:p + a]).decode(), bytes(data[p + a:p + a + b]))); p += a + b
        out.append(row)
    return out
