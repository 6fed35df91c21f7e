"""A small Lua 5.4, with Picotron's extensions: whole numbers are 64-bit, others are doubles.

Written from Lua's manual (and Picotron's), independent of the code under test.  A chunk is compiled to Python
closures; strings are latin-1 (a character is a byte).  Coroutines are threads that hand over to each other, so
that everything is deterministic."""
import math, re, threading

class LuaError(Exception):
    def __init__(m, v): m.v = v
class Halt(BaseException): pass
class Syntax(Exception): pass

class Table:
    __slots__ = ("h", "n", "meta")
    def __init__(m): m.h = {}; m.n = 0; m.meta = None
    def get(m, k): return m.h.get(key_of(k))
    def set(m, k, v):
        if v is None: m.h.pop(key_of(k), None)
        else:
            if k is None: raise LuaError("index is nil")
            if k != k: raise LuaError("index is NaN")
            m.h[key_of(k)] = v
    def border(m):
        h, n = m.h, m.n
        while n + 1 in h: n += 1
        while n > 0 and n not in h: n -= 1
        m.n = n; return n
    def keys(m):
        n = m.border()
        return list(range(1, n + 1)) + [k for k in m.h if not (type(k) is int and 1 <= k <= n)]

class Bool(tuple): pass
KT, KF = Bool((True,)), Bool((False,))
def key_of(k):
    t = type(k)
    if t is float:
        if k.is_integer() and -2.0 ** 63 <= k < 2.0 ** 63: return int(k)
        return k
    if t is bool: return KT if k else KF
    return k
def unkey(k): return k[0] if type(k) is Bool else k

class Fn:
    __slots__ = ("f", "name")
    def __init__(m, f, name="?"): m.f = f; m.name = name

def wrap(i): return ((i + (1 << 63)) & ((1 << 64) - 1)) - (1 << 63)
def type_of(v):
    t = type(v)
    if v is None: return "nil"
    if t is bool: return "boolean"
    if t is int or t is float: return "number"
    if t is str: return "string"
    if t is Table: return "table"
    if t is Fn: return "function"
    return "thread"

def fmt_float(v):
    if v != v: return "nan" if math.copysign(1, v) > 0 else "-nan"
    if v in (math.inf, -math.inf): return "inf" if v > 0 else "-inf"
    s = "%.14g" % v
    return s if re.search(r"[.einf]", s) else s + ".0"
def tostr(v):
    t = type(v)
    if t is str: return v
    if t is int: return str(v)
    if t is float: return fmt_float(v)
    if v is None: return "nil"
    if t is bool: return "true" if v else "false"
    return "[" + type_of(v) + "]"

NUM = re.compile(r"\s*([-+]?)(0[xX](?:[0-9a-fA-F]*\.?[0-9a-fA-F]*)(?:[pP][-+]?\d+)?|0[bB][01]*\.?[01]*|(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)\s*\Z")
def to_number(s):
    """What a numeral is worth -> int, float or None"""
    g = NUM.match(s)
    if not g: return None
    sign, b = g.groups(); b = b.lower()
    try:
        if b[:2] == "0x":
            if "." in b or "p" in b:
                man, _, ex = b[2:].partition("p"); i, _, f = man.partition(".")
                if not i + f: return None
                v = _ldexp(int(i + f, 16), int(ex or 0) - 4 * len(f))
            else: v = wrap(int(b[2:], 16))
        elif b[:2] == "0b":
            i, dot, f = b[2:].partition(".")
            if not i + f: return None
            v = _ldexp(int(i + f, 2), -len(f)) if dot else wrap(int(i, 2))
        elif "." in b or "e" in b: v = float(b)
        else:
            v = int(b)
            if v >= 1 << 63: v = float(v)
    except ValueError: return None
    if sign == "-": v = wrap(-v) if type(v) is int else -v
    return v
def _ldexp(i, e):
    """i * 2**e, rounded once"""
    from fractions import Fraction
    if i == 0: return 0.0
    if e + i.bit_length() > 1100: return math.inf
    if e + i.bit_length() < -1200: return 0.0
    try: return float(Fraction(i) * Fraction(2) ** e)
    except OverflowError: return math.inf

# ---- lexer ----
KEYWORDS = set("and break do else elseif end false for function goto if in local nil not or repeat return then true until while".split())
OPS = sorted("+= -= *= /= //= \\= %= ^= ..= |= &= ^^= <<= >>= == ~= != <= >= // :: << >> .. ... ^^ + - * / \\ % ^ # & ~ | < > = ( ) { } [ ] ; : , . @ $ ?".split(), key=len, reverse=True)
OP_RE = re.compile("|".join(re.escape(o) for o in OPS))
SPACE_RE = re.compile(r"[ \t\r\n\f\v]+")
NUM_RE = re.compile(r"0[xX](?:[pP][-+]|[\w.])*|(?:[eE][-+]|[\w.])+")
LONG_RE = re.compile(r"\[(=*)\[")
ESC = {"*": "\1", "#": "\2", "-": "\3", "|": "\4", "+": "\5", "^": "\6", "a": "\a", "b": "\b", "t": "\t", "n": "\n", "v": "\v", "f": "\f", "r": "\r", "\\": "\\", '"': '"', "'": "'", "\n": "\n"}

def utf8(v):
    if v < 0x80: return chr(v)
    out = []; first = 0x3f
    while True:
        out.append(0x80 | v & 0x3f); v >>= 6; first >>= 1
        if v <= first: break
    out.append((~first << 1) & 0xff | v)
    return "".join(map(chr, reversed(out)))

def lex(s):
    """-> [(kind, value, line)]: kinds name, key, num, str, op, end"""
    out = []; p = 0; n = len(s); line = 1
    while p < n:
        c = s[p]
        if c in " \t\r\n\f\v":
            g = SPACE_RE.match(s, p); line += g.group(0).count("\n"); p = g.end(); continue
        if c == "-" and s.startswith("--", p):
            g = LONG_RE.match(s, p + 2)
            if g:
                e = s.find("]" + g.group(1) + "]", g.end())
                if e < 0: raise Syntax("unfinished comment")
                line += s.count("\n", p, e); p = e + len(g.group(1)) + 2
            else:
                e = s.find("\n", p); p = n if e < 0 else e
            continue
        if c.isascii() and (c.isalpha() or c == "_"):
            e = p + 1
            while e < n and s[e].isascii() and (s[e].isalnum() or s[e] == "_"): e += 1
            w = s[p:e]; out.append(("key" if w in KEYWORDS else "name", w, line)); p = e; continue
        if c.isdigit() and c.isascii() or c == "." and s[p + 1:p + 2].isdigit():
            g = NUM_RE.match(s, p); v = to_number(g.group(0))
            if v is None: raise Syntax("malformed number " + g.group(0))
            out.append(("num", v, line)); p = g.end(); continue
        if c in "\"'":
            e = p + 1; buf = []
            while True:
                ch = s[e:e + 1]
                if ch in ("", "\n"): raise Syntax("unfinished string")
                if ch == c: break
                if ch != "\\": buf.append(ch); e += 1; continue
                x = s[e + 1:e + 2]
                if x == "z":
                    e += 2
                    while s[e:e + 1] and s[e] in " \t\r\n\f\v": line += s[e] == "\n"; e += 1
                elif x == "x":
                    if not re.fullmatch("[0-9a-fA-F]{2}", s[e + 2:e + 4]): raise Syntax("bad \\x")
                    buf.append(chr(int(s[e + 2:e + 4], 16))); e += 4
                elif x.isdigit() and x.isascii():
                    g = re.compile(r"\d{1,3}").match(s, e + 1); v = int(g.group(0))
                    if v > 255: raise Syntax("escape too large")
                    buf.append(chr(v)); e = g.end()
                elif x == "u":
                    g = re.compile(r"\{([0-9a-fA-F]+)\}").match(s, e + 2)
                    if not g or int(g.group(1), 16) >= 1 << 31: raise Syntax("bad \\u")
                    buf.append(utf8(int(g.group(1), 16))); e = g.end()
                elif x in ESC and x: line += x == "\n"; buf.append(ESC[x]); e += 2
                else: raise Syntax("invalid escape \\" + x)
            out.append(("str", "".join(buf), line)); p = e + 1; continue
        if c == "[":
            g = LONG_RE.match(s, p)
            if g:
                e = s.find("]" + g.group(1) + "]", g.end())
                if e < 0: raise Syntax("unfinished long string")
                t = re.sub(r"\r\n|\n\r|\r|\n", "\n", s[g.end():e])
                out.append(("str", t[1:] if t[:1] == "\n" else t, line)); line += s.count("\n", p, e); p = e + len(g.group(1)) + 2; continue
        g = OP_RE.match(s, p)
        if not g: raise Syntax("unexpected %r" % c)
        out.append(("op", g.group(0), line)); p = g.end()
    out.append(("end", "<eof>", line))
    return out

# ---- operations ----
def arith_num(v):
    t = type(v)
    if t is int or t is float: return v
    if t is str: return to_number(v)
    return None
def meta_of(vm, v, name):
    if type(v) is Table: mt = v.meta
    elif type(v) is str: mt = vm.smeta
    else: mt = None
    return mt.get(name) if mt is not None else None
def metabin(vm, name, a, b, why="perform arithmetic on"):
    f = meta_of(vm, a, name)
    if f is None: f = meta_of(vm, b, name)
    if f is None: raise LuaError("attempt to %s" % why)
    return first(vm.call(f, [a, b]))
def first(l): return l[0] if l else None

def fdiv(a, b):
    if b == 0:
        if a == 0 or a != a: return math.nan
        return math.copysign(math.inf, a) * math.copysign(1, b)
    try: return a / b
    except OverflowError: return math.inf
def ffloor(v): return v if v != v or v in (math.inf, -math.inf) or v.is_integer() else float(math.floor(v))
def fmod(a, b):
    if b == 0 or a in (math.inf, -math.inf) or a != a or b != b: return math.nan
    r = math.fmod(a, b)
    if (b < 0) if r > 0 else (r < 0 and b != r and not b < 0): r += b
    return r
def fpow(a, b):
    try: return math.pow(a, b)
    except OverflowError: return -math.inf if a < 0 and b % 2 == 1 else math.inf
    except ValueError:
        if a == 0: return math.copysign(math.inf, a) if b % 2 == 1 else math.inf
        return math.nan
def to_int(v):
    """For bitwise operators -> int or None"""
    if type(v) is str: v = to_number(v)
    if type(v) is int: return v
    if type(v) is float and v.is_integer() and -2.0 ** 63 <= v < 2.0 ** 63: return int(v)
    return None
def shl(a, b):
    a &= (1 << 64) - 1
    if b <= -64 or b >= 64: return 0
    return wrap(a << b) if b >= 0 else wrap(a >> -b)

def make_ops(vm):
    def ar(name, fi, ff):
        def op(a, b):
            ta, tb = type(a), type(b)
            if ta is int and tb is int and fi: return fi(a, b)
            if (ta is int or ta is float) and (tb is int or tb is float): return ff(float(a), float(b))
            x, y = arith_num(a), arith_num(b)
            if x is None or y is None: return metabin(vm, name, a, b)
            return op(x, y)
        return op
    def iquot(a, b):
        if b == 0: raise LuaError("attempt to perform 'n//0'")
        return wrap(a // b)
    def imod(a, b):
        if b == 0: raise LuaError("attempt to perform 'n%%0'")
        return a % b
    def fmul(a, b): return a * b
    def bit(name, f):
        def op(a, b):
            if type(a) is Table or type(b) is Table: return metabin(vm, name, a, b)
            x, y = to_int(a), to_int(b)
            if x is None or y is None:
                if arith_num(a) is None or arith_num(b) is None: return metabin(vm, name, a, b, "perform bitwise operation on")
                raise LuaError("number has no integer representation")
            return f(x, y)
        return op
    idiv = ar("__idiv", iquot, lambda a, b: ffloor(fdiv(a, b)))
    def concat(a, b):
        ta, tb = type(a), type(b)
        if (ta is str or ta is int or ta is float) and (tb is str or tb is int or tb is float):
            s = tostr(a) + tostr(b)
            vm.spend(len(s) // 500)
            return s
        return metabin(vm, "__concat", a, b, "concatenate")
    def lt(a, b):
        ta, tb = type(a), type(b)
        if (ta is int or ta is float) and (tb is int or tb is float) or ta is str and tb is str: return a < b
        return truthy(metabin(vm, "__lt", a, b, "compare"))
    def le(a, b):
        ta, tb = type(a), type(b)
        if (ta is int or ta is float) and (tb is int or tb is float) or ta is str and tb is str: return a <= b
        return truthy(metabin(vm, "__le", a, b, "compare"))
    def eq(a, b):
        ta, tb = type(a), type(b)
        if ta is not tb: return ta in (int, float) and tb in (int, float) and a == b
        if ta is Table:
            if a is b: return True
            f = meta_of(vm, a, "__eq")
            if f is None: f = meta_of(vm, b, "__eq")
            return truthy(first(vm.call(f, [a, b]))) if f is not None else False
        return a is b if ta not in (int, float, str, bool) else a == b
    ne = lambda a, b: not eq(a, b)
    ops = {"+": ar("__add", lambda a, b: wrap(a + b), lambda a, b: a + b), "-": ar("__sub", lambda a, b: wrap(a - b), lambda a, b: a - b), "*": ar("__mul", lambda a, b: wrap(a * b), fmul), "/": ar("__div", None, fdiv),
           "//": idiv, "\\": idiv, "%": ar("__mod", imod, fmod), "^": ar("__pow", None, fpow), "&": bit("__band", lambda a, b: a & b), "|": bit("__bor", lambda a, b: a | b), "^^": bit("__bxor", lambda a, b: a ^ b),
           "~": bit("__bxor", lambda a, b: a ^ b), "<<": bit("__shl", shl), ">>": bit("__shr", lambda a, b: shl(a, -b)), "..": concat, "==": eq, "~=": ne, "!=": ne, "<": lt, "<=": le, ">": lambda a, b: lt(b, a), ">=": lambda a, b: le(b, a)}
    def neg(a):
        if type(a) is int: return wrap(-a)
        if type(a) is float: return -a
        x = arith_num(a)
        return neg(x) if x is not None else metabin(vm, "__unm", a, a)
    def bnot(a):
        if type(a) is Table: return metabin(vm, "__bnot", a, a)
        x = to_int(a)
        if x is None: raise LuaError("number has no integer representation")
        return ~x
    def length(a):
        if type(a) is str: return len(a)
        f = meta_of(vm, a, "__len")
        if f is not None: return first(vm.call(f, [a]))
        if type(a) is Table: return a.border()
        raise LuaError("attempt to get length")
    un = {"-": neg, "~": bnot, "#": length, "not": lambda a: not truthy(a)}
    for o in "@%$*":
        un[o] = (lambda o: lambda a: vm.peek(o, a))(o)
    return ops, un

def truthy(v): return v is not None and v is not False

# ---- compiler ----
BIN = {"or": (1, 1), "and": (2, 2), "<": (3, 3), ">": (3, 3), "<=": (3, 3), ">=": (3, 3), "~=": (3, 3), "!=": (3, 3), "==": (3, 3), "|": (4, 4), "^^": (5, 5), "~": (5, 5), "&": (6, 6), "<<": (7, 7), ">>": (7, 7), "..": (9, 8), "+": (10, 10), "-": (10, 10),
       "*": (11, 11), "/": (11, 11), "//": (11, 11), "\\": (11, 11), "%": (11, 11), "^": (14, 13)}
UNARY = 12
BREAK = ("break",)

class Fs:
    """A function that is being compiled"""
    def __init__(m, up, vararg): m.up = up; m.vararg = vararg; m.blocks = [{}]; m.n = 0; m.upvals = {}; m.labels = []; m.gotos = []
    def new(m, name, attr=None): i = m.n; m.n += 1; m.blocks[-1][name] = (i, attr); return i
    def find(m, name):
        for b in reversed(m.blocks):
            if name in b: return ("l",) + b[name]
        if name in m.upvals: return ("u",) + m.upvals[name][:2]
        if m.up is None: return None
        f = m.up.find(name)
        if f is None: return None
        m.upvals[name] = (len(m.upvals), f[2], f); return ("u", len(m.upvals) - 1, f[2])

class Compiler:
    def __init__(m, vm, src): m.vm = vm; m.toks = lex(src); m.i = 0; m.ops, m.uns = vm.ops, vm.uns; m.depth = 0; m.eol = None
    def k(m): return m.toks[m.i][0]
    def v(m): return m.toks[m.i][1]
    def line(m): return m.toks[m.i][2]
    def at(m, *vals): t = m.toks[m.i]; return t[0] in ("op", "key") and t[1] in vals
    def take(m, val):
        if m.at(val): m.i += 1; return True
        return False
    def ended(m): return m.eol is not None and m.line() != m.eol        # a shorthand ends where its line does
    def within(m, eol, f, *a):
        had = m.eol; m.eol = eol
        try: return f(*a)
        finally: m.eol = had
    def need(m, val):
        if not m.take(val): raise Syntax("%r expected near %r at line %d" % (val, m.v(), m.line()))
    def name(m):
        if m.k() != "name": raise Syntax("name expected near %r at line %d" % (m.v(), m.line()))
        m.i += 1; return m.toks[m.i - 1][1]

    def chunk(m):
        m.fs = Fs(None, True)
        env = m.fs.new("_ENV")
        body = m.block(("<eof>",))
        if m.k() != "end": raise Syntax("unexpected %r at line %d" % (m.v(), m.line()))
        n = m.fs.n; vm = m.vm
        if m.fs.gotos: raise Syntax("no visible label '%s'" % m.fs.gotos[0][0])
        def main(args):
            R = [None] * n; R[0] = [vm.env]
            s = body((R, (), args))
            return s[1] if s else []
        return Fn(main, "main")

    # statements: f(frame) -> None | BREAK | ("return", values) | ("goto", label)
    def block(m, ends, line=None, scope=True, after=None):
        if scope: m.fs.blocks.append({})
        stmts = []; labels = {}; tbc = []; before = len(m.fs.gotos)
        m.depth += 1
        if m.depth > 150: raise Syntax("too deep")
        while not m.at(*ends) and m.k() != "end" and (line is None or m.line() == line):
            if m.take(";"): continue
            if m.take("::"):
                n = m.name(); m.need("::")
                if n in labels: raise Syntax("label %s already defined" % n)
                for bs in m.fs.labels:
                    if n in bs: raise Syntax("label %s already defined" % n)
                labels[n] = len(stmts); continue
            last = m.at("return")
            fs = m.fs; fs.labels.append(labels)
            try: st = m.statement(tbc, line)
            finally: fs.labels.pop()
            if st: stmts.append(st)
            if last: break
        extra = after() if after else None
        if scope: m.fs.blocks.pop()
        m.depth -= 1
        m.fs.gotos[before:] = [g for g in m.fs.gotos[before:] if g[0] not in labels]
        run = m.sequence(stmts, labels)
        if tbc: run = m.closing(run, tbc)
        return (run, extra) if after else run

    def sequence(m, stmts, labels):
        stmts = tuple(stmts); spend = m.vm.spend
        if not labels:
            def run(F):
                for s in stmts:
                    r = s(F)
                    if r is not None: return r
            return run
        def run(F):
            i = 0
            while i < len(stmts):
                r = stmts[i](F)
                if r is not None:
                    if r[0] == "goto" and r[1] in labels: spend(1); i = labels[r[1]]; continue
                    return r
                i += 1
        return run

    def closing(m, run, tbc):
        vm = m.vm
        def closed(F):
            for i in tbc: F[0][i] = None
            err = None; r = None
            try: r = run(F)
            except LuaError as e: err = e
            for i in reversed(tbc):
                c = F[0][i]
                if c is None or not truthy(c[0]): continue
                f = meta_of(vm, c[0], "__close")
                try: vm.call(f, [c[0], err.v if err else None])
                except LuaError as e: err = e
            if err: raise err
            return r
        return closed

    def statement(m, tbc, line):
        fs = m.fs
        if m.k() == "key":
            w = m.v()
            if w == "if": return m.if_()
            if w == "while": return m.while_()
            if w == "do":
                m.i += 1; b = m.block(("end",)); m.need("end"); return b
            if w == "for": return m.for_()
            if w == "repeat": return m.repeat()
            if w == "function": return m.function()
            if w == "local": return m.local(tbc)
            if w == "return": return m.return_(line)
            if w == "break": m.i += 1; return lambda F: BREAK
            if w == "goto":
                m.i += 1; r = ("goto", m.name()); fs.gotos.append((r[1], m.toks[m.i][2]))
                def go(F): return r
                return go
        if m.at("?"):
            l = m.line(); m.i += 1; args = m.within(l, m.exprlist) if m.line() == l and m.k() != "end" else None; vm = m.vm
            g = m.variable("print")
            def pr(F): vm.call(g(F), args(F) if args else [])
            return pr
        return m.exprstat()

    def if_(m):
        m.i += 1; paren = m.at("("); c = m.expr()
        if paren and not m.at("then"): return m.short_if(c, m.toks[m.i - 1][2])
        if not m.take("then"): m.need("then")
        arms = []; b = m.block(("elseif", "else", "end")); arms.append((c, b)); other = None
        while True:
            if m.take("elseif"):
                c = m.expr(); m.need("then"); arms.append((c, m.block(("elseif", "else", "end"))))
            elif m.take("else"): other = m.block(("end",)); m.need("end"); break
            else: m.need("end"); break
        arms = tuple(arms)
        def run(F):
            for c, b in arms:
                if truthy(c(F)): return b(F)
            if other: return other(F)
        return run

    def short_if(m, c, line):
        b = m.within(line, m.block, ("else",), line); other = None
        if m.at("else") and m.line() == line: m.i += 1; other = m.within(line, m.block, (), line)
        def run(F):
            if truthy(c(F)): return b(F)
            if other: return other(F)
        return run

    def while_(m):
        m.i += 1; paren = m.at("("); c = m.expr(); spend = m.vm.spend
        if paren and not m.at("do"): line = m.toks[m.i - 1][2]; b = m.within(line, m.block, (), line)
        else: m.need("do"); b = m.block(("end",)); m.need("end")
        def run(F):
            while truthy(c(F)):
                spend(1); r = b(F)
                if r is not None:
                    if r is BREAK: break
                    return r
        return run

    def repeat(m):
        m.i += 1; spend = m.vm.spend
        def after():
            m.need("until"); return m.expr()
        b, c = m.block(("until",), after=after)
        def run(F):
            while True:
                spend(1); r = b(F)
                if r is not None:
                    if r is BREAK: break
                    return r
                if truthy(c(F)): break
        return run

    def for_(m):
        m.i += 1; n = [m.name()]; spend = m.vm.spend; vm = m.vm; fs = m.fs
        if m.take("="):
            a = m.expr(); m.need(","); z = m.expr(); st = m.expr() if m.take(",") else None
            m.need("do"); fs.blocks.append({}); i = fs.new(n[0]); b = m.block(("end",)); fs.blocks.pop(); m.need("end")
            def run(F):
                R = F[0]
                x, y, s = fornum(a(F)), fornum(z(F)), fornum(st(F)) if st else 1
                if s == 0: raise LuaError("'for' step is zero")
                if type(x) is int and type(s) is int:
                    if type(y) is float:
                        if y != y: return
                        if y >= 2.0 ** 63: y = (1 << 63) - 1
                        elif y < -2.0 ** 63: y = -(1 << 63)
                        else: y = math.floor(y) if s > 0 else math.ceil(y)
                    gen = range(x, y + (1 if s > 0 else -1), s)
                else: gen = frange(float(x), float(y), float(s))
                for v in gen:
                    spend(1); R[i] = [v]; r = b(F)
                    if r is not None:
                        if r is BREAK: break
                        return r
            return run
        while m.take(","): n.append(m.name())
        m.need("in"); es = m.exprlist(); m.need("do"); fs.blocks.append({}); idx = [fs.new(x) for x in n]; b = m.block(("end",)); fs.blocks.pop(); m.need("end"); k = len(idx)
        def run(F):
            R = F[0]; vals = es(F) + [None] * 4; f, s, c, closing = vals[:4]; err = None; res = None
            try:
                while True:
                    spend(1); got = vm.call(f, [s, c])
                    c = got[0] if got else None
                    if c is None: break
                    for j in range(k): R[idx[j]] = [got[j] if j < len(got) else None]
                    r = b(F)
                    if r is not None:
                        if r is not BREAK: res = r
                        break
            except LuaError as e: err = e
            if truthy(closing):
                f = meta_of(vm, closing, "__close")
                if f is None: raise LuaError("not closable")
                vm.call(f, [closing, err.v if err else None])
            if err: raise err
            return res
        return run

    def function(m):
        m.i += 1; n = m.name(); get = m.variable(n); setter = None; vm = m.vm; method = False
        if not m.at(".", ":"): setter = m.setter(n)
        keys = []
        while m.take("."): keys.append(m.name())
        if m.take(":"): keys.append(m.name()); method = True
        f = m.body(method, keys[-1] if keys else n)
        if setter: return lambda F: setter(F, f(F))
        def run(F):
            o = get(F)
            for k in keys[:-1]: o = vm.index(o, k)
            vm.setindex(o, keys[-1], f(F))
        return run

    def local(m, tbc):
        m.i += 1; fs = m.fs
        if m.take("function"):
            n = m.name(); i = fs.new(n); f = m.body(False, n)
            def run(F): c = F[0][i] = [None]; c[0] = f(F)
            return run
        names = []
        while True:
            n = m.name(); attr = None
            if m.take("<"):
                attr = m.name(); m.need(">")
                if attr not in ("const", "close"): raise Syntax("unknown attribute")
            names.append((n, attr))
            if not m.take(","): break
        es = m.exprlist() if m.take("=") else None
        idx = [fs.new(n, a) for n, a in names]; k = len(idx); vm = m.vm
        closes = [i for i, (n, a) in zip(idx, names) if a == "close"]
        if len(closes) > 1: raise Syntax("multiple to-be-closed variables")
        tbc.extend(closes)
        def run(F):
            vals = es(F) if es else []
            R = F[0]
            for j in range(k): R[idx[j]] = [vals[j] if j < len(vals) else None]
            for i in closes:
                v = R[i][0]
                if truthy(v) and meta_of(vm, v, "__close") is None: R[i] = None; raise LuaError("variable got a non-closable value")
        return run

    def return_(m, line):
        m.i += 1; es = None
        if not (m.at("end", "else", "elseif", "until", ";") or m.k() == "end" or line is not None and m.line() != line): es = m.exprlist()
        m.take(";")
        if not (m.at("end", "else", "elseif", "until") or m.k() == "end" or line is not None and m.line() != line): raise Syntax("unexpected %r after return" % (m.v(),))
        return lambda F: ("return", es(F) if es else [])

    def exprstat(m):
        e = m.suffixed(); vm = m.vm
        if m.at("=", ","):
            targets = [e]
            while m.take(","): targets.append(m.suffixed())
            m.need("="); es = m.exprlist()
            prep = [m.target(t) for t in targets]; n = len(prep)
            if n == 1:
                p, s = prep[0]
                def run1(F):
                    ref = p(F); v = es(F); s(F, ref, v[0] if v else None)
                return run1
            def run(F):
                refs = [p(F) for p, s in prep]; vals = es(F)
                for j in range(n - 1, -1, -1): prep[j][1](F, refs[j], vals[j] if j < len(vals) else None)
            return run
        if m.k() == "op" and m.v().endswith("=") and m.v()[:-1] in m.ops and m.v() not in ("==", "<=", ">=", "~=", "!="):
            op = m.ops[m.v()[:-1]]; m.i += 1; p, s = m.target(e); get = e[2]; x = m.expr()
            if e[0] == "index":
                def runc(F):
                    ref = p(F); s(F, ref, op(vm.index(*ref), x(F)))
                return runc
            def runv(F): s(F, None, op(get(F), x(F)))
            return runv
        if e[0] != "call": raise Syntax("syntax error near %r at line %d" % (m.v(), m.line()))
        f = e[1]
        def run(F): f(F)
        return run

    def target(m, e):
        """-> (evaluate the prefix, store)"""
        vm = m.vm
        if e[0] == "name":
            s = m.setter(e[1]); return (lambda F: None), (lambda F, ref, v: s(F, v))
        if e[0] == "index":
            o, k = e[3], e[4]
            return (lambda F: (o(F), k(F))), (lambda F, ref, v: vm.setindex(ref[0], ref[1], v))
        raise Syntax("cannot assign at line %d" % m.line())

    # expressions: f(frame) -> value; those that give several values have .multi
    def variable(m, n):
        f = m.fs.find(n)
        if f is None:
            env = m.variable("_ENV"); vm = m.vm
            return lambda F: vm.index(env(F), n)
        i = f[1]
        if f[0] == "l": return lambda F: F[0][i][0]
        return lambda F: F[1][i][0]
    def setter(m, n):
        f = m.fs.find(n)
        if f is None:
            env = m.variable("_ENV"); vm = m.vm
            return lambda F, v: vm.setindex(env(F), n, v)
        if f[2]: raise Syntax("attempt to assign to const variable '%s'" % n)
        i = f[1]
        if f[0] == "l":
            def s(F, v): F[0][i][0] = v
        else:
            def s(F, v): F[1][i][0] = v
        return s

    def exprlist(m):
        es = [m.node()]
        while m.take(","): es.append(m.node())
        return m.listof(es)
    def listof(m, es):
        if not es: return lambda F: []
        last = es[-1]
        if last[0] in ("call", "vararg"):
            init = [m.single(e) for e in es[:-1]]; f = last[1]
            if not init: return lambda F: list(f(F))
            return lambda F: [e(F) for e in init] + f(F)
        fs = [m.single(e) for e in es]
        if len(fs) == 1:
            f0 = fs[0]; return lambda F: [f0(F)]
        return lambda F: [e(F) for e in fs]
    def single(m, e):
        if e[0] in ("call", "vararg"):
            f = e[1]
            def one(F): r = f(F); return r[0] if r else None
            return one
        return e[2]
    def expr(m, limit=0): return m.single(m.node(limit))

    def node(m, limit=0):
        m.depth += 1
        if m.depth > 150: raise Syntax("too deep")
        t = m.toks[m.i]
        if t[0] in ("op", "key") and t[1] in m.uns:
            m.i += 1; f = m.uns[t[1]]; x = m.expr(UNARY); e = ("exp", None, (lambda f, x: lambda F: f(x(F)))(f, x))
        else: e = m.simple()
        while m.k() in ("op", "key") and m.v() in BIN and BIN[m.v()][0] > limit and not m.ended():
            op = m.v(); m.i += 1; l = m.single(e); r = m.expr(BIN[op][1])
            e = ("exp", None, m.binary(op, l, r))
        m.depth -= 1
        return e
    def binary(m, op, l, r):
        if op == "and":
            def f(F): v = l(F); return r(F) if truthy(v) else v
        elif op == "or":
            def f(F): v = l(F); return v if truthy(v) else r(F)
        else:
            o = m.ops[op]
            def f(F): a = l(F); return o(a, r(F))
        return f

    def simple(m):
        k, v, _ = m.toks[m.i]
        if k in ("num", "str"): m.i += 1; return ("exp", None, lambda F: v)
        if k == "key":
            if v == "nil": m.i += 1; return ("exp", None, lambda F: None)
            if v == "true": m.i += 1; return ("exp", None, lambda F: True)
            if v == "false": m.i += 1; return ("exp", None, lambda F: False)
            if v == "function": m.i += 1; return ("exp", None, m.body(False, "?"))
        if k == "op":
            if v == "...":
                m.i += 1
                if not m.fs.vararg: raise Syntax("cannot use '...' outside a vararg function")
                return ("vararg", lambda F: list(F[2]))
            if v == "{": return ("exp", None, m.within(None, m.table))
        return m.suffixed()

    def table(m):
        m.need("{"); parts = []; vm = m.vm; pos = 0
        while not m.at("}"):
            if m.take("["):
                k = m.expr(); m.need("]"); m.need("="); parts.append(("k", k, m.expr()))
            elif m.k() == "name" and m.toks[m.i + 1][:2] == ("op", "="):
                n = m.name(); m.i += 1; parts.append(("k", (lambda n: lambda F: n)(n), m.expr()))
            else:
                pos += 1; parts.append(("p", pos, m.node()))
            if not (m.take(",") or m.take(";")): break
        m.need("}")
        out = []
        for j, p in enumerate(parts):
            if p[0] == "k": out.append((0, p[1], p[2]))
            elif j == len(parts) - 1 and p[2][0] in ("call", "vararg"): out.append((2, p[1], p[2][1]))
            else: out.append((1, p[1], m.single(p[2])))
        def make(F):
            t = Table()
            for kind, k, e in out:
                if kind == 0: kk = k(F); t.set(kk, e(F)) if kk is not None and kk == kk else badkey(e(F))
                elif kind == 1: t.set(k, e(F))
                else:
                    for i, v in enumerate(e(F)): t.set(k + i, v)
            return t
        return make

    def suffixed(m):
        vm = m.vm
        if m.k() == "name":
            n = m.name(); e = ("name", n, m.variable(n))
        elif m.take("("):
            x = m.within(None, m.expr); m.need(")"); e = ("exp", None, x)
        else: raise Syntax("unexpected %r at line %d" % (m.v(), m.line()))
        while True:
            if m.ended(): return e
            if m.take("."):
                o = m.single(e); n = m.name(); e = m.indexed(o, (lambda n: lambda F: n)(n))
            elif m.at("[") :
                m.i += 1; o = m.single(e); k = m.expr(); m.need("]"); e = m.indexed(o, k)
            elif m.take(":"):
                o = m.single(e); n = m.name(); a = m.args(); e = ("call", m.method(o, n, a))
            elif m.at("(", "{") or m.k() == "str":
                f = m.single(e); a = m.args(); e = ("call", m.call(f, a))
            else: return e
    def indexed(m, o, k):
        vm = m.vm
        def f(F): t = o(F); return vm.index(t, k(F))
        return ("index", None, f, o, k)
    def call(m, f, a):
        vm = m.vm
        def run(F): g = f(F); return vm.call(g, a(F))
        return run
    def method(m, o, n, a):
        vm = m.vm
        def run(F): t = o(F); g = vm.index(t, n); return vm.call(g, [t] + a(F))
        return run
    def args(m):
        if m.k() == "str": v = m.v(); m.i += 1; return lambda F: [v]
        if m.at("{"): t = m.within(None, m.table); return lambda F: [t(F)]
        m.need("(")
        if m.take(")"): return lambda F: []
        a = m.within(None, m.exprlist); m.need(")"); return a

    def body(m, method, name): return m.within(None, m.body_, method, name)
    def body_(m, method, name):
        m.need("("); params = ["self"] if method else []; vararg = False
        while not m.at(")"):
            if m.take("..."): vararg = True; break
            params.append(m.name())
            if not m.take(","): break
        m.need(")")
        fs = Fs(m.fs, vararg); m.fs = fs
        for p in params: fs.new(p)
        # a parameter given twice: the last one counts, as each has a slot of its own
        b = m.block(("end",)); m.need("end"); m.fs = fs.up; np = len(params); caps = []
        for nm, (i, attr, src) in fs.upvals.items(): caps.append((src[0] == "l", src[1]))
        vm = m.vm; n = fs.n
        if fs.gotos: raise Syntax("no visible label '%s'" % fs.gotos[0][0])
        def make(F):
            R0, U0, _ = F
            U = [R0[i] if l else U0[i] for l, i in caps]
            def run(args):
                k = len(args); R = [None] * n
                for j in range(np): R[j] = [args[j] if j < k else None]
                s = b((R, U, args[np:] if vararg else ()))
                return s[1] if s is not None and s[0] == "return" else []
            return Fn(run, name)
        return make

def badkey(v): raise LuaError("index is nil")
def fornum(v):
    if type(v) in (int, float): return v
    raise LuaError("'for' value must be a number")
def frange(x, y, s):
    while (x <= y) if s > 0 else (y <= x):
        yield x
        x += s

class Vm:
    """One machine: its globals, string methods, budget of steps and coroutines"""
    def __init__(m, budget):
        m.left = budget; m.env = Table(); m.smeta = None; m.depth = 0; m.dead = None; m.current = None; m.threads = []
        m.ops, m.uns = make_ops(m); m.peeks = lambda o, a: 0
    def peek(m, o, a): return m.peeks(o, a)
    def spend(m, n):
        m.left -= n
        if m.left < 0 and not m.dead: m.dead = "budget"
        if m.dead: raise Halt
    def load(m, src): return Compiler(m, src).chunk()
    def call(m, f, args):
        if type(f) is not Fn:
            h = meta_of(m, f, "__call")
            if h is None: raise LuaError("attempt to call a %s value" % type_of(f))
            return m.call(h, [f] + args)
        m.left -= 1
        if m.left < 0 or m.dead: m.spend(0)
        m.depth += 1
        try:
            if m.depth > 150: m.dead = m.dead or "memory"; raise Halt
            return f.f(args)
        finally: m.depth -= 1
    def index(m, o, k):
        for _ in range(50):
            if type(o) is Table:
                v = o.h.get(k if type(k) is str else key_of(k))
                if v is not None or o.meta is None: return v
                h = o.meta.get("__index")
                if h is None: return None
            else:
                h = meta_of(m, o, "__index")
                if h is None: raise LuaError("attempt to index a %s value" % type_of(o))
            if type(h) is Fn: return first(m.call(h, [o, k]))
            o = h
        raise LuaError("'__index' chain too long")
    def setindex(m, o, k, v):
        for _ in range(50):
            if type(o) is Table:
                h = o.meta.get("__newindex") if o.meta is not None else None
                if h is None or o.get(k) is not None: o.set(k, v); return
            else:
                h = meta_of(m, o, "__newindex")
                if h is None: raise LuaError("attempt to index a %s value" % type_of(o))
            if type(h) is Fn: m.call(h, [o, k, v]); return
            o = h
        raise LuaError("'__newindex' chain too long")

class Co:
    """A coroutine: a thread that runs only while its resumer waits"""
    def __init__(m, vm, f): m.vm = vm; m.f = f; m.status = "suspended"; m.go = threading.Semaphore(0); m.back = threading.Semaphore(0); m.thread = None; m.value = None; m.depth = 0
    def resume(m, args):
        vm = m.vm
        if m.status != "suspended": return False, ["cannot resume"]
        prev = vm.current; vm.current = m; m.status = "running"; m.value = args; depth = vm.depth; vm.depth = m.depth
        if prev: prev.status = "normal"
        if m.thread is None:
            m.thread = threading.Thread(target=m.main, daemon=True); m.thread.start()
        m.go.release(); m.back.acquire()
        vm.current = prev; vm.depth = depth
        if prev: prev.status = "running"
        ok, vals, m.done = m.value
        if isinstance(vals, BaseException):
            m.status = "dead"; raise vals
        m.status = "dead" if m.done else "suspended"
        return ok, vals
    def main(m):
        m.go.acquire()
        try: m.value = (True, m.vm.call(m.f, m.value), True)
        except LuaError as e: m.value = (False, [e.v], True)
        except BaseException as e: m.value = (False, e, True)
        m.back.release()
    def yield_(m, vals):
        m.depth = m.vm.depth; m.value = (True, vals, False); m.back.release(); m.go.acquire()
        return m.value
