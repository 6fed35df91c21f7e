"""Random Pico-8 / Picotron programs that run, end, and show what they do

Every program is made of typed pieces, so that it mostly runs without errors, with bounded loops.  mode:
  "safe":   anything the language allows (names as strings, _ENV, metamethods, overridden built-ins)
  "full":   the documented restrictions of full minification are kept, or lifted by the documented hints
  "plain":  neither _ENV nor hints (for unminify and picotron)
"""
import random

PREC = {"or": (1, 0), "and": (2, 0), "<": (3, 0), ">": (3, 0), "<=": (3, 0), ">=": (3, 0), "!=": (3, 0), "~=": (3, 0), "==": (3, 0), "|": (4, 0), "^^": (5, 0), "~": (5, 0), "&": (6, 0),
        "<<": (7, 0), ">>": (7, 0), ">>>": (7, 0), "<<>": (7, 0), ">><": (7, 0), "..": (8, 1), "+": (9, 0), "-": (9, 0), "*": (10, 0), "/": (10, 0), "//": (10, 0), "\\": (10, 0), "%": (10, 0), "^": (13, 1)}
UNARY = 12
ATOM = 100      # may be indexed and called
CONST = 99
KW = {"and", "break", "do", "else", "elseif", "end", "false", "for", "function", "goto", "if", "in", "local", "nil", "not", "or", "repeat", "return", "then", "true", "until", "while"}

class E:
    """An expression: tokens and precedence"""
    __slots__ = ("t", "p", "multi")
    def __init__(m, t, p=ATOM, multi=False): m.t = t; m.p = p; m.multi = multi
def par(e): return E(["("] + e.t + [")"])
def wrap(e, ok): return e if ok else par(e)

class Nl:       # a line break is needed here
    pass
class On:       # no line break from here on
    pass
class Off:
    pass
class Stmt:     # a statement starts here: a good place for a line break
    pass
NL, ON, OFF, STMT = Nl(), On(), Off(), Stmt()
class Semi(str): # a ";" that may be left out where the "(" behind it cannot be mistaken for a call
    pass
class Raw(str):  # a comment that has to stay where it is
    pass

class Var:
    def __init__(m, name, type, ro=False, sig=None, fields=None, glob=False, fn=0, cost=1): m.name = name; m.type = type; m.ro = ro; m.sig = sig; m.fields = fields; m.glob = glob; m.fn = fn; m.cost = cost

NAMES = ["a", "b", "x", "y", "i", "n", "t1", "foo", "bar", "count_it", "self", "state", "hero", "pos_x", "pos_y", "_tmp", "_", "e", "o", "val", "key", "fn", "obj", "update_all", "data", "l", "ll", "l1", "speed",
         "name", "x1", "len", "end_", "f", "g", "h", "node", "list", "acc", "total", "p", "q", "w", "z", "msg", "tick", "color_", "print_", "b0", "bb", "x0", "ee"]
FIELDS = ["x", "y", "n", "name", "val", "hp", "pos", "kids", "len", "a", "b", "state", "f", "dx", "dy", "count_it", "spr_", "e", "x1", "foo", "key", "_p"]
LABELS = ["a", "x", "done", "top", "cont", "again", "l", "out", "foo"]

API = [("spr", 3), ("circfill", 4), ("pset", 3), ("sfx", 1), ("music", 1), ("rectfill", 5), ("cls", 1), ("print", 1), ("print", 3), ("map", 4), ("mset", 3), ("sset", 3), ("fset", 2), ("camera", 2), ("color", 1), ("pal", 2), ("printh", 1), ("dset", 2),
       ("poke", 2), ("line", 4), ("oval", 4), ("menuitem", 1), ("fillp", 1), ("tline", 6), ("clip", 4), ("cursor", 2), ("flip", 0), ("holdframe", 0)]
READS = [("btn", 1), ("btnp", 1), ("rnd", 1), ("stat", 1), ("t", 0), ("time", 0), ("mget", 2), ("pget", 2), ("sget", 2), ("fget", 1), ("dget", 1), ("peek", 1), ("peek2", 1)]
BOOLREADS = ("btn", "btnp")
API64 = [("spr", 3), ("circfill", 4), ("pset", 3), ("sfx", 1), ("music", 1), ("rectfill", 5), ("cls", 1), ("print", 1), ("print", 3), ("map", 4), ("mset", 3), ("camera", 2), ("color", 1), ("pal", 2), ("printh", 1), ("line", 4), ("oval", 4), ("clip", 4)]
READS64 = [("btn", 1), ("btnp", 1), ("rnd", 1), ("stat", 1), ("t", 0), ("time", 0), ("mget", 2), ("pget", 2)]

class Gen:
    def __init__(m, r, mode="safe", lang="pico8", size=30, meta_ok=True, version=42, same=False):
        m.same = same; m.r = r; m.mode = mode; m.p8 = lang == "pico8"; m.size = size; m.meta_ok = meta_ok; m.version = version
        m.scopes = [{}]; m.globals = {}; m.fn = 0; m.mult = 1; m.cost = [0]; m.short = 0; m.vararg = [True]; m.ret = [None]; m.loops = [0]; m.used_env = False; m.envs = 0
        m.left = size; m.strkeys = ["k%d" % i for i in range(4)] if mode != "safe" else FIELDS[:8]
        m.api = API if m.p8 else API64; m.reads = READS if m.p8 else READS64
        m.preserve = []; m.depth = 0; m.noglobals = 0; m.consts = []; m.args = []; m.hot = r.sample(NAMES, r.choice((4, 8, 16, len(NAMES)))); m.cur = None; m.uids = r.choice((0, 0, 10)); m.given = []
        m.tron = not m.p8 and r.random() < 0.6

    # ---- names ----
    def name(m): return m.r.choice(m.hot if m.r.random() < 0.9 else NAMES)
    def lookup(m, name):
        for s in reversed(m.scopes):
            if name in s: return s[name]
        return m.globals.get(name)
    def visible(m, type, w=False):
        out = []; seen = set()
        for s in reversed(m.scopes):
            for n, v in s.items():
                if n not in seen: seen.add(n); out.append(v)
        if not m.envs: out += [v for n, v in m.globals.items() if n not in seen]
        return [v for v in out if v is not None and v.type == type and not (w and v.ro)]
    def pick(m, type, w=False):
        v = m.visible(type, w)
        return m.r.choice(v) if v else None
    def declare(m, name, type, **kw):
        v = Var(name, type, fn=m.fn, **kw); m.scopes[-1][name] = v; return v
    def hide(m, name): m.scopes[-1][name] = None

    # ---- literals ----
    def number(m):
        r = m.r
        if m.tron and r.random() < 0.35: return m.tron_number()
        if not m.p8: return [str(r.choice((0, 1, 2, 3, 4, 5)))]
        k = r.randrange(12)
        if k <= 4: s = str(r.choice((0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 31, 32, 64, 100, 127, 128, 255, 256, 1000, 32767)))
        elif k == 5: s = r.choice(("0.5", ".5", "0.25", "1.5", "3.14159", "5.", "0.1", "100.001", "32767.99999", "0.00002", "0.99999", "2.7182", "0.3333"))
        elif k == 6: s = r.choice(("0x10", "0xff", "0X7f", "0x.8", "0x1.8", "0x7fff.ffff", "0x8000", "0xffff", "0xffff.ffff", "0x0.0001", "0x5f00", "0x1234.5678", "0xfffe", "0x8000.0001"))
        elif k == 7: s = r.choice(("0b101", "0b1", "0B11", "0b1.1", "0b11111111", "0b.01", "0b1000000000000000"))
        elif k == 8: s = str(r.randrange(0, 0x8000))
        elif k == 9: s = "%d.%d" % (r.randrange(0, 400), r.randrange(0, 10000))
        elif k == 10: s = r.choice(("00", "007", "0.0", "1.50", "32768", "65535", "0010", "0x00ff", "0.50000"))
        else: return ["-", str(r.choice((1, 2, 8, 100, 32767, 32768, 0)))]
        return [s]
    # ---- what only Picotron has: whole and broken numbers of 64 bits, other strings ----
    def tron_number(m):
        r = m.r; k = r.randrange(14)
        if k <= 2: s = r.choice(("0", "1", "2", "3", "7", "10", "16", "63", "64", "65", "255", "256", "1000", "32768", "65536", "100000", "2147483648", "4294967296", "9007199254740993", "9223372036854775807", "9223372036854775806", "4611686018427387904", "0007", "1000000", "999999"))
        elif k == 3: s = r.choice(("9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999", "10000000000000000000000"))
        elif k == 4: s = r.choice(("0x10", "0xff", "0X7F", "0xffffffff", "0x7fffffffffffffff", "0x8000000000000000", "0xffffffffffffffff", "0xFFFFFFFFFFFFFFFE", "0x1ffffffffffffffff", "0x00ff", "0x123456789abcdef", "0x5f00", "0xe"))
        elif k == 5: s = r.choice(("0b101", "0b1", "0B11", "0b11111111", "0b1.1", "0b.01", "0b" + "1" * 64, "0b1" + "0" * 63, "0b1" + "01" * 34, "0b10.", "0b000.11"))
        elif k == 6: s = r.choice(("0x.8", "0x1.8", "0xA.", "0x1p4", "0x1P-3", "0x.8p1", "0xa.bp+2", "0x1p-1074", "0x1p1023", "0x1p1024", "0x1.fffffffffffffp3", "0x1.00000000000008p0", "0x1.fffffffffffff8p0", "0x0p0", "0x1p63", "0x7fff.ffff"))
        elif k == 7: s = r.choice(("0.0", "0.5", ".5", "5.", "1.0", "2.0", "3.0", "0.1", "0.2", "0.3", "1.5", "2.5", "3.14159265358979", "2.718281828459045", "0.3333333333333333", "100.0", "1000000.0", "65536.0", "0.001", "0.0001", "0.00001", "123.456", "9007199254740992.0", "9007199254740993.0", "123456789012.345"))
        elif k == 8: s = r.choice(("1e3", "1E5", "1e-5", ".5e1", "5.e-1", "1e+2", "1e15", "1e16", "1e17", "1e21", "1e22", "1e23", "1e100", "1e308", "1.7976931348623157e308", "2.2250738585072014e-308", "5e-324", "1e-320", "1e400", "2e-400", "1e333", "9.5e-7", "1.25e2", "1e0"))
        elif k == 9: s = repr(r.uniform(-1, 1) ** 2 * 10.0 ** r.choice((0, 0, 1, 3, 5, -3, -6)))
        elif k == 10: s = "%.*e" % (r.randrange(18), r.random() * 10 ** r.randint(-20, 25))
        elif k == 11: s = str(r.randrange(1 << r.choice((8, 16, 20, 32, 53, 54, 63, 65))))
        elif k == 12: s = hex(r.randrange(1 << r.choice((8, 16, 32, 53, 64))))
        else: s = "%d.%d" % (r.randrange(300), r.choice((0, 5, 25, 125, 75, r.randrange(1000))))
        return ["-", s] if r.random() < 0.12 else [s]
    def tron_int(m, d=0):
        """A whole number, that bits can be taken of"""
        r = m.r
        if d > 1 or r.random() < 0.5: return E([r.choice(("0", "1", "2", "3", "5", "8", "31", "32", "63", "64", "65", "100", "0xff", "0xf0f0", "1.0", "4.0", "1e3", "0x1p3", "0xffffffffffffffff", "0x8000000000000000", "9223372036854775807", "0b1010", str(r.randrange(1 << 40))))], CONST)
        if r.random() < 0.2: return m.un(r.choice("-~"), m.tron_int(d + 1))
        if r.random() < 0.3:
            y = E([r.choice(("1", "2", "3", "7", "10", "64", "1000003", "9223372036854775807", "0x100000001"))], CONST)
            return m.extra(m.bin(r.choice(("\\", "\\", "%", "//")), E([r.choice(("9007199254740993", "9223372036854775807", "9223372036854775806", "0x8000000000000000", "-9223372036854775807", "7", "-7", str(r.randrange(1 << 63)), str(-r.randrange(1 << 63))))], UNARY), m.un("-", y) if r.random() < 0.25 else y))
        return m.extra(m.bin(r.choice(("&", "|", "^^", "~", "<<", ">>", "+", "-", "*")), m.tron_int(d + 1), m.tron_int(d + 1)))
    def tron_op(m, f, d):
        r = m.r; op = r.choice(("+", "-", "*", "/", "\\", "//", "%", "^", "&", "+", "-", "*"))
        if op == "&": return m.tron_int()
        if op == "^": return m.bin(op, f(d + 1), E([r.choice(("0", "1", "2", "3", "0.5", "2.0"))], CONST))
        if op in ("/", "\\", "//", "%") and r.random() < 0.9:
            y = E([r.choice(("1", "2", "3", "7", "10", "0.1", "0.5", "0.3", "3.0", "1e-3", "2.5", "100", "64", "1e300", "1e-300", "0x1p-3", "9223372036854775807"))], CONST)
            return m.extra(m.bin(op, f(d + 1), m.un("-", y) if r.random() < 0.25 else y))
        return m.extra(m.bin(op, f(d + 1), f(d + 1)))
    def tron_string(m):
        r = m.r; e = "\xc3\xa9"; k = r.randrange(8)
        body = "".join(r.choice(("a", "b", e, "\\xc3\\xa9", "\\195\\169", "\\u{e9}", "\\u{E9}", "\\u{41}", "\\u{7f}", "\\u{80}", "\\u{7ff}", "\\u{800}", "\\u{ffff}", "\\u{10000}", "\\u{1F600}", "\xf0\x9f\x98\x80", "\\u{10ffff}", "\\u{110000}", "\\u{7fffffff}", "\\u{d800}", "\\x80", "\\xff", "\\128", "\\255", "\\xc3", "\\xa9", "\\0", "\\01", "\\n", "\\\n", "\\z  x", "\\t", "\\r", "\\\\", "1", "'", "-", "\\^", "\\*", "\\#")) for _ in range(r.choice((0, 1, 1, 2, 3))))
        if m.short: body = body.replace("\\\n", "\\n")
        return E(['"%s"' % body], CONST)
    def tron_bool(m):
        r = m.r; op = r.choice(("==", "~=", "!=", "<", "<=", ">", ">="))
        if r.random() < 0.35: return m.bin(op, m.tron_string(), m.tron_string())
        x = m.constexpr(2); y = x if r.random() < 0.3 else m.constexpr(2)
        return m.bin(op, x, y)
    def tron_(m):
        """Statements about numbers and strings that are known beforehand"""
        r = m.r; k = r.randrange(12); n = m.name()
        if m.short or m.noglobals or m.lookup("print"): return ["local", n, "="] + m.constexpr().t + ([STMT, n, "=", "nil"] if m.hide(n) is None else [])
        if k <= 1: return ["print", "("] + m.comma([m.constexpr() for _ in range(r.choice((1, 1, 2)))]) + [")"]
        if k == 2:
            e = m.constexpr(); n = "kc_%d" % r.randrange(3); m.hide(n)
            return ["local", n, "<", "const", ">", "="] + e.t + [STMT, "print", "(", n, ")"] + ([STMT, "print", "("] + m.bin(r.choice("+-*"), E([n]), m.constexpr(2)).t + [")"] if r.random() < 0.5 else [])
        if k == 3: return ["if"] + m.tron_bool().t + ["then"] + m.block(1) + ([STMT, "else"] + m.block(1) if r.random() < 0.6 else []) + [STMT, "end"]
        if k == 4: return ["print", "("] + m.comma([m.tron_bool() for _ in range(r.choice((1, 2)))]) + [")"]
        if k == 5: return ["print", "("] + m.comma([m.un("#", m.tron_string()), m.bin("..", m.tron_string(), m.tron_string() if r.random() < 0.6 else wrap(m.tron_int(1), False))]) + [")"]
        if k == 6:
            a, b = r.choice((("1", "1.0"), ("2.0", "2"), ("1e3", "1000"), ("0x1p53", "9007199254740992"), ("0.5", ".5"), ("-0.0", "0"), ("3", "6 / 2"), ("9223372036854775807", "9223372036854775808")))
            m.hide(n); return ["local", n, "=", "{", "[", a, "]", "="] + m.num().t + [",", "[", b, "]", "="] + m.num().t + ["}", STMT, "print", "(", n, "[", a, "]", ")", STMT, "print", "(", n, "[", b, "]", ")", STMT, "print", "(", "#", n, ")"]
        if k == 7:
            a = r.choice((("0.0", "1", "0.5"), ("1", "3.0"), ("1.0", "3"), ("9223372036854775806", "9223372036854775807"), ("1", "2.9"), ("3", "1.5", "-1"), ("0", "1", "0.25"), ("1", "1e308", "1e307"), ("-1", "-3", "-1"), ("0x7ffffffffffffffe", "math.huge" if False else "1e308"), ("1", "-1e308", "-0x7fffffffffffffff")))
            return ["for", "i_", "="] + m.comma([E([x] if x[0] != "-" else ["-", x[1:]], CONST) for x in a]) + ["do", STMT, "print", "(", "i_", ")", "end"]
        if k == 8: return [r.choice(("print", "print", "printh")), "(", r.choice(("tostr", "tonum", "type")), "("] + m.constexpr().t + [")", ")"] if not m.lookup("tostr") and not m.lookup("type") and not m.lookup("tonum") and not m.lookup("printh") else m.show()
        if k == 9 and m.mode != "plain" and not m.lookup("setmetatable"):
            m.depth += 1; n = "kc_3"
            t = ["do", STMT, "local", n, "<", "close", ">", "=", "setmetatable", "(", "{", "}", ",", "{", "__close", "=", "function", "(", ")", "print", "(", '"closed"', ")", "end", "}", ")", STMT] + m.show() + [STMT, "end"]; m.depth -= 1
            return t
        if k == 10:
            op = r.choice(("/=", "\\=", "%=", "^=", "*=", "+=", "|=", "&=", "<<=", ">>=", "^^=", "//=")); m.hide(n); bits = op in ("|=", "&=", "<<=", ">>=", "^^=")
            return ["local", n, "="] + (m.tron_int() if bits else m.constexpr()).t + [STMT, n, op] + (m.tron_int() if bits else E([r.choice(("2", "3", "0.5", "10", "0.1"))], CONST)).t + [STMT, "print", "(", n, ")"]
        e = m.constexpr(); m.hide(n)
        return ["local", n, "="] + e.t + [STMT, "print", "("] + m.comma([m.tron_op(lambda d: E([n]) if r.random() < 0.7 else m.constexpr(2), 0)]) + [")"]
    def num(m):
        t = m.number()
        return E(t, UNARY if len(t) > 1 else CONST)
    def string(m):
        r = m.r
        if m.tron and r.random() < 0.3: return m.tron_string()
        body = r.choice(("", "a", "hi", "hello world", "x=1", "a\\nb", "\\65bc", "\\x41", "tab\\tq", "1", "12", "-3", "0x10", "nil", "end", "it's", "\\\"q\\\"", "\\\\", "--no comment", "]]", "[[", "[==[", "]=]", "\\0", "\\0001", "a\\z   b", "//x", "\\014", "x\\r",
                      "\\*5a", "\\#0", "\\^w", "\\a", "\\v", "é", "name", "x y", "key1,key2", "0.5", "\\\nnext", "%d", "$x", "\\'") if m.p8 else ("", "a", "hi", "hello world", "x=1", "a\\nb", "tab\\tq", "it's", "\\\"q\\\"", "\\\\", "--no", "]]", "[[", "name", "x y", "\\65bc", "\\0", "a\\z   b"))
        if r.random() < 0.2: body = "".join(r.choice("abcdefgxyz 0123456789_") for _ in range(r.randrange(12)))
        if body == "é": body = r.choice(("\x8b", "\x97\x80", "\x01\x02", "\xff", "\x85x", "\x1e"))
        if m.short and "\n" in body: body = "one line"
        k = r.randrange(6)
        if k <= 2: return E(['"%s"' % body], CONST)
        if k == 3: return E(["'%s'" % (body.replace("'", "\\'") if "'" in body and "\\'" not in body else body)], CONST)
        eq = "=" * r.choice((0, 0, 1, 2))
        if "]" in body or r.random() < 0.1: eq = "=" * 3
        raw = r.choice(("", "\n", "\n\n")) + body.replace("\\\n", "\n")
        if len(eq) == 3 and r.random() < 0.3: raw += r.choice(("]", "]=", "]]", "]=]", "]==]", "\n]"))
        if m.short and "\n" in raw or raw.endswith("]") and len(eq) < 3: return E(['"%s"' % body.replace("\\\n", "\\n")], CONST)
        return E(["[%s[%s]%s]" % (eq, raw, eq)], CONST)

    # ---- expressions ----
    def bin(m, op, l, r):
        p, right = PREC[op]
        if op == "^": l = wrap(l, l.p > 13); r = wrap(r, r.p >= UNARY)
        else: l = wrap(l, l.p > p or l.p == p and not right); r = wrap(r, r.p > p or r.p == p and right)
        return E(l.t + [op] + r.t, p)
    def un(m, op, e):
        e = wrap(e, e.p >= UNARY); return E([op] + e.t, UNARY)
    def extra(m, e):
        while m.r.random() < 0.08: e = par(e)
        return e
    def n(m, d=0):
        """A number"""
        r = m.r
        if d > 3 or r.random() < 0.25 + 0.1 * d:
            v = m.pick("n")
            if v and r.random() < 0.7: return m.extra(E([v.name]))
            return m.extra(m.num())
        k = r.randrange(24)
        if k <= 6 and m.tron and r.random() < 0.4: return m.tron_op(m.n, d)
        if k <= 6 and not m.p8 and r.random() < 0.3: return m.extra(m.bin("*", *r.sample((m.n(d + 1), m.num()), 2)))
        if k <= 6: return m.extra(m.bin(r.choice(("+", "-", "*", "+", "-", "/", "%", "\\") if m.p8 else ("+", "-")), m.n(d + 1), m.n(d + 1)))
        if k == 7 and m.p8: return m.extra(m.bin(r.choice(("&", "|", "^^", "~", "<<", ">>", ">>>", "<<>", ">><")), m.n(d + 1), m.n(d + 2)))
        if k == 8 and m.p8: return m.extra(m.bin("^", m.n(d + 2), E([str(r.choice((0, 1, 2, 3)))], CONST)))
        if k == 9: return m.extra(m.un(r.choice(("-", "-", "~") if m.p8 else ("-",)), m.n(d + 1)))
        if k == 10 and not m.noglobals:
            f, a = r.choice((("flr", 1), ("ceil", 1), ("abs", 1), ("min", 2), ("max", 2), ("mid", 3), ("sgn", 1)) + ((("sqrt", 1), ("band", 2), ("bor", 2), ("bxor", 2), ("bnot", 1), ("shl", 2), ("shr", 2), ("lshr", 2), ("rotl", 2), ("rotr", 2), ("sin", 1), ("cos", 1), ("min", 1), ("atan2", 2)) if m.p8 else ()))
            if not m.lookup(f): return E([f, "("] + m.comma([m.n(d + 1) for _ in range(a)]) + [")"])
        if k == 11: return m.len_(d)
        if k == 12: return m.extra(E(m.cond_(d, m.n), 1))
        if k in (13, 14):
            e = m.call_value("n", d)
            if e: return e
        if k == 15:
            a = m.pick("a")
            if a: return par(m.bin("or", E(m.index(E([a.name]), m.n(d + 1)).t), E([str(r.randrange(9))], CONST)))
        if k in (16, 17):
            e = m.field("n", d)
            if e: return e
        if k == 18 and not m.noglobals: return m.read(d)
        if k == 19 and m.vararg[-1]:
            if r.random() < 0.5: return E(["select", "(", "'#'", ",", "...", ")"]) if not m.noglobals and not m.lookup("select") else m.num()
            return par(m.bin("or", par(E(["..."], ATOM)), m.num())) if m.vararg[-1] == "n" else m.num()
        if k == 20 and m.p8: return m.extra(par(m.un(r.choice("@%$"), m.n(d + 2))))
        if k == 21 and d < 2: return m.iife("n", d)
        if k == 22 and not m.noglobals and not m.lookup("tonum"): return par(m.bin("or", E(["tonum", "("] + m.s(d + 1).t + [")"]), m.num()))
        if k == 23:
            d_ = m.pick("d")
            if d_: return par(m.bin("or", E([d_.name, "["] + [m.strkey()] + ["]"]), m.num()))
        return m.extra(m.bin(r.choice(("+", "-")), m.n(d + 1), m.n(d + 1)))
    def strkey(m): return m.q(m.r.choice(m.strkeys))
    def q(m, s):
        """s as a string literal"""
        k = m.r.randrange(10)
        if k < 6: return '"%s"' % s
        if k < 8: return "'%s'" % s
        return "[[%s]]" % s if k == 8 else "[=[%s]=]" % s
    def read(m, d):
        r = m.r; f, a = r.choice([x for x in m.reads if x[0] not in BOOLREADS])
        if m.lookup(f): return m.num()
        if f == "stat" and not m.p8: return par(m.bin("or", E([f, "("] + m.n(d + 2).t + [")"]), m.num()))
        return E([f, "("] + m.comma([m.n(d + 2) for _ in range(a)]) + [")"])
    def cond_(m, d, f):
        c, x, y = m.b(d + 1), f(d + 1), f(d + 1)
        # what is chosen beforehand may become a bare local, which Lua reads after what is called next to it has changed it: left to Lua
        if len(c.t) <= 6: x, y = [m.bin("+", v, E(["0"], CONST)) if f == m.n else m.bin("..", v, E(['""'], CONST)) if len([t for t in v.t if t not in ("(", ")")]) == 1 and v.t[-1][0].isalpha() else v for v in (x, y)]
        return m.bin("or", m.bin("and", c, x), y).t
    def len_(m, d):
        k = m.r.randrange(3); a = m.pick("a")
        if k == 0 and a: return m.extra(m.un("#", E([a.name])))
        if k == 1: return m.extra(m.un("#", m.s(d + 1)))
        return m.extra(m.un("#", E(m.array(d + 1), CONST)))
    def b(m, d=0):
        r = m.r
        if d > 3 or r.random() < 0.15:
            v = m.pick("b")
            if v and r.random() < 0.7: return m.extra(E([v.name]))
            return m.extra(E([r.choice(("true", "false"))], CONST))
        k = r.randrange(10)
        if k <= 3: return m.extra(m.bin(r.choice(("<", ">", "<=", ">=", "==", "!=", "~=")), m.n(d + 1), m.n(d + 1)))
        if k == 4: return m.extra(m.bin(r.choice(("==", "!=", "<", ">=")), m.s(d + 1), m.s(d + 1)))
        if k == 5: return m.extra(m.un("not", m.any(d + 1)))
        if k == 6: return m.extra(m.bin(r.choice(("and", "or")), m.b(d + 1), m.b(d + 1)))
        if k == 7 and not m.noglobals:
            f = r.choice(BOOLREADS)
            if not m.lookup(f): return E([f, "(", str(r.randrange(6)), ")"])
        if k == 8: return m.extra(m.bin(r.choice(("==", "!=")), m.any(d + 1), m.any(d + 1)))
        e = m.field("b", d)
        return e or m.extra(m.bin("<", m.n(d + 1), m.n(d + 1)))
    def s(m, d=0):
        r = m.r
        if d > 3 or r.random() < 0.35:
            v = m.pick("s")
            if v and r.random() < 0.6: return m.extra(E([v.name]))
            return m.extra(m.string())
        k = r.randrange(9)
        if k <= 2: return m.extra(m.bin("..", r.choice((m.s, m.s, m.s, m.n))(d + 1), r.choice((m.s, m.n))(d + 1)))
        if k == 3 and not m.noglobals and not m.lookup("tostr"): return E(["tostr", "("] + r.choice((m.n, m.s, m.b))(d + 1).t + [")"])
        if k == 4 and not m.noglobals and not m.lookup("sub"): return E(["sub", "("] + m.comma([m.s(d + 1), m.n(d + 2), m.n(d + 2)][:r.choice((2, 3))]) + [")"])
        if k == 5: return m.extra(E(m.cond_(d, m.s), 1))
        if k == 6 and not m.noglobals and not m.lookup("type"): return E(["type", "("] + m.any(d + 1).t + [")"])
        if k == 7:
            e = m.call_value("s", d) or m.field("s", d)
            if e: return e
        if k == 8 and not m.noglobals and not m.lookup("chr"): return E(["chr", "(", str(r.choice((65, 97, 48, 120))), ")"])
        return m.extra(m.string())
    def any(m, d=0):
        k = m.r.randrange(8)
        if k <= 2: return m.n(d)
        if k == 3: return m.s(d)
        if k == 4: return m.b(d)
        if k == 5: return E(["nil"], CONST)
        if k == 6 and d < 3: return E(m.array(d + 1), CONST)
        v = m.pick(m.r.choice("naosrd"))
        return E([v.name]) if v else m.n(d)
    def comma(m, es):
        out = []
        for i, e in enumerate(es):
            if i: out.append(",")
            out += e.t
        return out
    def array(m, d=0):
        r = m.r; out = ["{"]; n = r.choice((0, 1, 2, 3, 4))
        for i in range(n):
            k = r.randrange(8)
            if k == 0 and r.random() < 0.5: out += ["["] + [str(i + 1)] + ["]", "="] + m.n(d + 1).t
            else: out += m.n(d + 1).t
            if i < n - 1 or r.random() < 0.2: out.append(r.choice((",", ",", ",", ";")))
        if n and out[-1] not in (",", ";") and r.random() < 0.15 and m.vararg[-1] == "n": out += [",", "..."]
        return out + ["}"]
    def index(m, e, k): return E(e.t + ["["] + k.t + ["]"])
    def field(m, type, d):
        """A field of a record of this type"""
        c = []
        for t in "ro":
            for v in m.visible(t):
                c += [(v, f) for f, ft in v.fields.items() if ft == type]
        if not c: return None
        v, f = m.r.choice(c)
        return m.member(v, f)
    def member(m, v, f):
        if m.mode == "safe" and m.r.random() < 0.12: return E([v.name, "[", m.q(f), "]"])
        e = E([v.name, ".", f])
        if m.r.random() < 0.06: e = E(["(", v.name, ")", ".", f])
        return e
    def call_value(m, type, d):
        """A call of a user function that gives a value of this type first"""
        if d > 3 or m.mult > 60: return None
        fs = [v for v in m.visible("f") if v.sig["ret"][:1] == [type] and v.cost * m.mult < 1500]
        if not fs: return None
        f = m.r.choice(fs); m.cost[-1] += f.cost * m.mult
        e = E(m.callargs(f, [f.name], d), ATOM, True)
        return par(e) if m.r.random() < 0.15 else e
    def callargs(m, f, head, d):
        r = m.r; ps = f.sig["params"]
        args = [getattr(m, t)(d + 1) if t in ("n", "s", "b") else m.of(t, d + 1) for t in ps]
        if f.sig.get("va"):
            for _ in range(r.randrange(3)): args.append(m.n(d + 1))
            if r.random() < 0.2 and m.vararg[-1] == "n": args.append(E(["..."]))
        if len(args) == 1 and r.random() < 0.4:
            if args[0].p == CONST and args[0].t[0][:1] in "\"'[{" : return head + args[0].t
        return head + ["("] + m.comma(args) + [")"]
    def of(m, type, d=0):
        """An expression of any type"""
        if type in ("n", "s", "b"): return getattr(m, type)(d)
        if type == "a":
            v = m.pick("a")
            return E([v.name]) if v and m.r.random() < 0.5 else E(m.array(d), CONST)
        if type == "cb":    # a function from number to number
            return E(m.func_literal(["n"], ["n"], d), CONST)
        raise ValueError(type)
    def iife(m, type, d):
        r = m.r
        return E(["("] + m.func_literal([], [type], d) + [")", "(", ")"], ATOM, True)

    # ---- functions ----
    def body(m, params, rets, va=None, stmts=None, selfv=None, tail=None):
        """-> tokens of a function's parameters and body up to 'end'"""
        r = m.r; names = []
        m.fn += 1; m.scopes.append({}); m.vararg.append(va); m.ret.append(rets); m.loops.append(0); mult, m.mult = m.mult, 1; m.cost.append(1)
        if selfv: m.declare("self", "o", fields=selfv.fields, sig=selfv.sig, ro=True)
        ps = []
        for t in params:
            n = m.name()
            while n in names or n == "self" and selfv: n = r.choice(NAMES)
            names.append(n)
            if t == "cb": m.declare(n, "f", sig=dict(params=["n"], ret=["n"]), cost=10)
            else: m.declare(n, t)
            ps.append(n)
        out = ["("] + m.join(ps + (["..."] if va else [])) + [")"]
        m.depth += 1
        m.scopes.append({})
        out += m.block(r.choice((0, 1, 2, 3)) if stmts is None else stmts, own=False)
        if tail: out += tail()
        if rets is not None and (rets or r.random() < 0.2):
            out += [STMT, "return"] + m.comma([m.of(t, 1) for t in rets]) + ([";"] if r.random() < 0.1 else [])
        m.scopes.pop(); m.depth -= 1
        m.fn -= 1; m.scopes.pop(); m.vararg.pop(); m.ret.pop(); m.loops.pop(); m.mult = mult
        c = m.cost.pop(); m.lastcost = c
        return out + [STMT, "end"]
    def join(m, names):
        out = []
        for i, n in enumerate(names): out += ([","] if i else []) + [n]
        return out
    def func_literal(m, params, rets, d=0):
        b = m.body(params, rets, stmts=m.r.choice((0, 0, 1)) if m.depth < 4 else 0)
        m.cost[-1] += m.lastcost * m.mult
        return ["function"] + b

    # ---- statements ----
    def block(m, n, own=True):
        if own: m.scopes.append({})
        out = []
        for _ in range(n): out += m.stmt()
        if own: m.scopes.pop()
        return out
    def stmt(m):
        r = m.r; m.left -= 1; m.cost[-1] += m.mult
        if m.depth > 4 or m.left < 0: k = r.choice((0, 1, 2, 3, 4))
        else: k = r.randrange(39)
        t = m.stmt_(k)
        if r.random() < 0.04: t = t + [";"]
        if t and isinstance(t[0], str) and t[0] == "(": t = [Semi(";")] + t
        return [STMT] + t
    def vals(m, n, d=0): return [m.any(d) for _ in range(n)]
    def stmt_(m, k):
        if m.tron and m.r.random() < 0.2: return m.tron_()
        r = m.r
        if k <= 1: return m.local()
        if k == 2: return m.assign()
        if k == 3: return m.show()
        if k in (4, 5): return m.assign() if r.random() < 0.5 else m.compound()
        if k == 6: return m.show()
        if k in (7, 8): return m.if_()
        if k == 9: return m.short_if()
        if k == 10: return m.while_()
        if k == 11: return m.fornum()
        if k == 12: return m.forin()
        if k == 13: return m.repeat()
        if k == 14: m.depth += 1; b = m.block(r.randint(1, 3)); m.depth -= 1; return ["do"] + b + [STMT, "end"]
        if k in (15, 16): return m.function()
        if k == 17: return m.record()
        if k == 18: return m.klass() if m.depth < 2 else m.local()
        if k == 19: return m.goto()
        if k == 20: return m.coroutine()
        if k == 21: return m.multi()
        if k == 22: return m.call()
        if k == 23: return m.deadcode()
        if k == 24: return m.locals_run()
        if k == 25: return m.assign_run()
        if k == 26: return m.metatable() if m.meta_ok else m.local()
        if k == 27: return m.env() if m.mode != "plain" else m.show()
        if k == 28: return (m.hints() if r.random() < 0.55 else m.rules()) if m.mode == "full" else m.dict_()
        if k == 29: return m.override() if m.depth == 0 or r.random() < 0.2 else m.call()
        if k == 30: return m.dict_()
        if k == 31: return m.closure()
        if k == 32: return m.split_()
        if k in (33, 34): return m.edge()
        if k == 35: return m.several()
        if k == 37: return m.captured()
        if k == 38: return m.iterated()
        return m.misuse()
    def newglobal(m, name, type, **kw):
        """A global may only be introduced where everything that follows comes after it"""
        if m.depth or m.envs: return None
        v = m.lookup(name)
        if v is not None and (v.type != type or not v.glob): return None
        if any(name in s for s in m.scopes): return None
        v = Var(name, type, glob=True, **kw); m.globals[name] = v; return v
    def local(m):
        r = m.r; k = r.randrange(10)
        if k == 0 and not m.depth:
            n = m.name(); t = r.choice("nnsb")
            e = m.of(t)
            if m.newglobal(n, t): return [n, "="] + e.t
        if k == 1:      # fewer values than names, or more
            names = [m.name() for _ in range(r.choice((2, 3)))]; ts = ["n"] * r.randint(1, len(names))
            vs = [m.n(1) for _ in ts] + ([m.n(1)] if r.random() < 0.2 and len(ts) == len(names) else [])
            t = ["local"] + m.join(names) + ["="] + m.comma(vs)
            for i, n in enumerate(names):
                if i < len(ts) and n not in names[i + 1:]: m.declare(n, "n")
                else: m.hide(n)
            return t
        if k == 2:
            n = m.name(); m.hide(n); t = ["local", n]
            v = m.declare(n, "n")
            return t + [STMT, n, "="] + E([str(r.randrange(9))]).t
        if k == 3:      # several values from one call
            fs = [f for f in m.visible("f") if len(f.sig["ret"]) > 1 and f.cost * m.mult < 1500]
            if fs:
                f = r.choice(fs); m.cost[-1] += f.cost * m.mult; c = m.callargs(f, [f.name], 1); names = []
                while len(names) < len(f.sig["ret"]): names.append(m.name())
                for n, t in zip(names, f.sig["ret"]): m.declare(n, t)
                return ["local"] + m.join(names) + ["="] + c
        t = r.choice("nnnnsba"); e = m.of(t); n = m.name()
        out = ["local", n, "="] + e.t
        m.declare(n, t); return out
    def locals_run(m):
        """Locals one after another, which may or may not be merged"""
        r = m.r; out = []
        for i in range(r.randint(2, 5)):
            out += ([STMT] if i else []) + (m.local() if r.random() < 0.8 else m.call() if r.random() < 0.5 else m.assign())
            if r.random() < 0.1: out += [";"]
        return out
    def assign_run(m):
        r = m.r; out = []
        for i in range(r.randint(2, 5)): out += ([STMT] if i else []) + (m.assign() if r.random() < 0.85 else m.compound())
        return out
    def target(m, type="n"):
        """(tokens, needs ;) of something of this type that can be assigned"""
        r = m.r; c = [[v.name] for v in m.visible(type, True)]
        for t in "ro":
            for v in m.visible(t): c += [m.member(v, f).t for f, ft in v.fields.items() if ft == type]
        if type == "n":
            for v in m.visible("a"): c.append([v.name, "["] + (E([str(r.randint(1, 4))]).t if r.random() < 0.7 else ["#", v.name]) + ["]"])
        c = [x for x in c if x[0] != "("]
        if type == "n": c = [x for x in c if not (len(x) > 3 and x[2] == "#")] or c
        return r.choice(c) if c else None
    def assign(m):
        r = m.r; t = r.choice("nnnnsb"); x = m.target(t)
        if not x or x[2:3] == ["#"]: return m.local()
        k = r.randrange(10)
        if k == 0:      # several at once, swaps
            y = m.target(t)
            if y and y != x and y[2:3] != ["#"]:
                if r.random() < 0.5: return x + [","] + y + ["="] + y + [","] + x if not (x[1:2] == ["["] or y[1:2] == ["["]) else x + [","] + y + ["="] + m.comma([m.of(t), m.of(t)])
                return x + [","] + y + ["="] + m.comma([m.of(t), m.of(t)])
        if k == 1:
            n = m.name(); t2 = r.choice("ns"); e = m.of(t2)
            if m.newglobal(n, t2): return [n, "="] + e.t
        if k == 2 and r.random() < 0.4: return x + ["="] + m.comma([m.of(t), m.n(1)])
        return x + ["="] + m.of(t).t
    def compound(m):
        r = m.r
        if r.random() < 0.15:
            x = m.target("s")
            if x: return x + ["..="] + r.choice((m.s, m.n))(1).t
        x = m.target("n")
        if not x or x[1:2] == ["["]: return m.assign()
        op = r.choice(("+=", "-=", "*=", "+=", "-=") + (("/=", "\\=", "%=", "^=", "|=", "&=", "^^=", "<<=", ">>=", ">>>=", "<<>=", ">><=") if m.p8 else ()))
        if op == "^=": return x + [op, str(r.choice((1, 2)))]
        return x + [op] + m.n(1).t
    def show(m):
        r = m.r; k = r.randrange(8)
        if m.noglobals and not m.lookup("print"): return m.compound()
        if k == 0 and not m.short and not m.lookup("print"):
            m.short += 1
            t = [ON, "?"] + m.comma([m.any(1)] + [m.n(2) for _ in range(r.choice((0, 0, 0, 1, 2)))]) + [OFF, NL]
            m.short -= 1
            return t
        if k <= 3 and not m.lookup("print"):
            e = m.any(1)
            if e.p == CONST and e.t[0][:1] in "\"'[" and r.random() < 0.4: return ["print"] + e.t
            return ["print", "("] + e.t + [")"]
        if k == 4 and not m.lookup("print"):
            vs = [v for t in "nsb" for v in m.visible(t)]
            if vs:
                out = []
                for v in r.sample(vs, min(len(vs), 3)): out += [STMT, "print", "(", v.name, ")"]
                return out[1:]
        return m.call()
    def call(m):
        r = m.r
        if r.random() < 0.3:
            fs = [f for f in m.visible("f") if f.cost * m.mult < 1500]
            if fs:
                f = r.choice(fs); m.cost[-1] += f.cost * m.mult; return m.callargs(f, [f.name], 1)
        if r.random() < 0.3:
            os = [v for v in m.visible("o") if v.sig["methods"]]
            if os:
                o = r.choice(os); n = r.choice(sorted(o.sig["methods"])); f = o.sig["methods"][n]
                if f.cost * m.mult < 1500: m.cost[-1] += f.cost * m.mult; return m.callargs(f, [o.name, ":", n], 1)
        if r.random() < 0.1 and not m.noglobals and not m.lookup("add"):
            a = m.pick("a")
            if a:
                if m.mult < 50: return r.choice((["add", "(", a.name, ","] + m.n(1).t + [")"], ["add", "(", a.name, ","] + m.n(1).t + [")"], ["del", "(", a.name, ","] + m.n(1).t + [")"])) if not m.lookup("del") else ["add", "(", a.name, ",", "1", ")"]
        if m.noglobals: return m.compound()
        f, a = r.choice(m.api)
        if m.lookup(f): return m.compound()
        args = [m.n(1) for _ in range(a)]
        if f in ("print", "printh"): args[0] = m.any(1)
        if f == "menuitem": args = [E([str(r.randint(1, 3))], CONST), m.s(2), E(m.func_literal([], [], 2), CONST)] if m.depth < 2 and m.mult < 10 else [E(["1"], CONST)]
        return [f, "("] + m.comma(args) + [")"]
    def cond(m): return m.b(1)
    def if_(m):
        r = m.r; m.depth += 1
        out = ["if"] + m.cond().t + ["then"] + m.block(r.choice((0, 1, 1, 2)))
        for _ in range(r.choice((0, 0, 0, 1, 2))): out += [STMT, "elseif"] + m.cond().t + ["then"] + m.block(r.choice((0, 1, 2)))
        if r.random() < 0.4: out += [STMT, "else"] + m.block(r.choice((0, 1, 2)))
        if m.ret[-1] is not None and r.random() < 0.1: out += [STMT, "end", STMT, "if"] + m.cond().t + ["then", STMT, "return"] + m.comma([m.of(t, 2) for t in m.ret[-1]])
        elif m.loops[-1] and r.random() < 0.15: out += [STMT, "end", STMT, "if"] + m.cond().t + ["then", STMT, "break"]
        m.depth -= 1
        return out + [STMT, "end"]
    def inner(m):
        """A statement for a one-line if or while"""
        m.scopes.append({})
        k = m.r.randrange(6)
        t = m.compound() if k <= 2 else m.assign() if k == 3 else m.call() if k == 4 else m.local()
        m.scopes.pop()
        if t and t[0] == "(": t = [";"] + t
        return [x for x in t if not isinstance(x, (Nl, On, Off))] if not any(isinstance(x, Nl) for x in t) else ["do", "end"]
    def short_if(m):
        r = m.r
        if m.short: return m.assign()
        m.short += 1; m.depth += 1
        out = [ON, "if", "("] + m.cond().t + [")"]
        first = m.inner()
        if first[:1] == ["do"] or first[:1] == [STMT]: first = m.compound()
        out += first
        if m.version >= 42 and r.random() < 0.12: out += ["if", "("] + m.cond().t + [")"] + (m.compound() if r.random() < 0.6 or not m.loops[-1] else ["break"])
        else:
            if r.random() < 0.3: out += m.inner()
            if m.loops[-1] and r.random() < 0.1: out += ["break"]
            elif m.ret[-1] is not None and r.random() < 0.1: out += ["return"] + m.comma([m.of(t, 2) for t in m.ret[-1]])
            elif r.random() < 0.35: out += ["else"] + m.inner() + (m.inner() if r.random() < 0.2 else [])
        m.short -= 1; m.depth -= 1
        return out + [OFF, NL]
    def loopvar(m):
        n = m.name(); return n
    def enter(m, k):
        m.depth += 1; m.loops[-1] += 1; old = m.mult; m.mult *= k; return old
    def leave(m, old): m.depth -= 1; m.loops[-1] -= 1; m.mult = old
    def while_(m):
        r = m.r; c = "c%d" % r.randrange(4); k = r.randint(1, 4)
        out = ["local", c, "=", "0"]; m.declare(c, "n", ro=True)
        old = m.enter(k)
        if r.random() < 0.3 and not m.short:
            m.short += 1
            out += [STMT, ON, "while", "(", c, "<", str(k), ")", c, "+=", "1"] + m.inner() + [OFF, NL]
            m.short -= 1
        else: out += [STMT, "while"] + (["(", c, "<", str(k), ")", "and", "true"] if r.random() < 0.2 else [c, "<", str(k)]) + ["do", STMT, c, "+=", "1"] + m.block(r.randint(0, 2)) + [STMT, "end"]
        m.leave(old); return out
    def repeat(m):
        r = m.r; c = "c%d" % r.randrange(4); k = r.randint(1, 4)
        out = ["local", c, "=", "0"]; m.declare(c, "n", ro=True)
        old = m.enter(k); m.scopes.append({})
        out += [STMT, "repeat", STMT, c, "+=", "1"] + m.block(r.randint(0, 2), own=False) if False else [STMT, "repeat", STMT, c, "+=", "1"]
        n = m.name(); out += m.block(r.randint(0, 2))
        if n != c and r.random() < 0.5:
            out += [STMT, "local", n, "=", c, ">=", str(k), STMT, "until", n]
        else: out += [STMT, "until", c, ">=", str(k)] + (["or"] + m.b(2).t if r.random() < 0.2 and m.fits(2) else [])
        m.scopes.pop(); m.leave(old); return out
    def fits(m, p): return False
    def fornum(m):
        r = m.r; n = m.loopvar(); a = r.choice((("1", "3"), ("0", "4"), ("1", "2"), ("3", "1", "-1"), ("0", "1", "0.5"), ("1", "0"), ("10", "13", "1")) if m.p8 else (("1", "3"), ("0", "4"), ("3", "1", "-1")))
        k = {"-1": 3, "0.5": 3}.get(a[-1], 5) if len(a) == 3 else 5
        head = ["for", n, "="] + m.comma([E([x] if not x.startswith("-") else ["-", x[1:]], CONST) if r.random() < 0.85 else par(E([x] if not x.startswith("-") else ["-", x[1:]], CONST)) for x in a]) + ["do"]
        old = m.enter(k); m.scopes.append({}); m.declare(n, "n", ro=r.random() < 0.7)
        cont = r.random() < 0.25
        body = m.block(r.randint(0, 3))
        if cont:
            l = r.choice(LABELS)
            body = m.block(r.randint(0, 1)) + [STMT, "if"] + m.cond().t + ["then", "goto", l, "end"] + [STMT, "do"] + body + [STMT, "end", STMT, "::", l, "::"]
        m.scopes.pop(); m.leave(old)
        return head + body + [STMT, "end"]
    def forin(m):
        r = m.r; k = r.randrange(7); v = m.name(); v2 = m.name()
        arr = m.pick("a"); a = [arr.name] if arr and r.random() < 0.6 else m.array(1)
        if m.noglobals: return m.fornum()
        old = m.enter(4)
        def done(head, decl):
            m.scopes.append({})
            for n, t in decl:
                if t: m.declare(n, t)
                else: m.hide(n)
            body = m.block(r.randint(0, 2)); m.scopes.pop(); m.leave(old)
            return head + ["do"] + body + [STMT, "end"]
        if k <= 1 and not m.lookup("all"): return done(["for", v, "in", "all"] + (["("] + a + [")"] if a[0] != "{" or r.random() < 0.6 else a), [(v, "n")])
        if k == 2 and not m.lookup("pairs") and v != v2: return done(["for", v, ",", v2, "in", "pairs", "("] + a + [")"], [(v, "n"), (v2, "n")])
        if k == 3 and not m.lookup("ipairs") and v != v2: return done(["for", v, ",", v2, "in", "ipairs", "("] + a + [")"], [(v, "n"), (v2, "n")])
        if k == 4:
            n2 = m.name(); 
            return done(["for", v, "in", "function", "(", "_", ",", n2, ")", "if", par(m.bin("or", E([n2]), E(["0"]))).t[0]] + [n2, "or", "0", ")", "<", "3", "then", "return", "(", n2, "or", "0", ")", "+", "1", "end", "end"] if n2 != "_" else ["for", v, "in", "all", "{", "1", ",", "2", "}"] if not m.lookup("all") else ["for", v, "=", "1", ",", "2"], [(v, "n")])
        if k == 5 and not m.lookup("foreach") and arr and m.depth < 4:
            f = m.func_literal(["n"], []); m.leave(old)
            return ["foreach", "(", arr.name, ","] + f + [")"]
        m.leave(old)
        return m.fornum()
    def params(m):
        r = m.r; return [r.choice(("n", "n", "n", "s", "b", "a", "cb")) for _ in range(r.choice((0, 1, 1, 2, 3)))]
    def function(m):
        r = m.r; k = r.randrange(8); n = m.name()
        if m.depth > 3: return m.local()
        sig = dict(params=m.params(), ret=r.choice(([], ["n"], ["n"], ["s"], ["n", "n"], ["n", "s", "b"])), va=r.random() < 0.2)
        va = "n" if sig["va"] else None
        if k == 0 and sig["params"][:1] == ["n"] and sig["ret"] == ["n"]:   # recursion
            m.hide(n)
            p = r.choice([x for x in NAMES if x != n])
            m.declare(n, "f", sig=dict(params=["n"], ret=["n"]), cost=40)
            op = r.choice("+-*")
            return ["local", "function", n, "(", p, ")", STMT, "if", p, "<", "1", "then", "return"] + E([str(r.randrange(5))]).t + ["end", STMT, "return", p, op, n, "(", "min", "(", p, ",", "5", ")", "-", "1", ")", STMT, "end"] if not m.lookup("min") and not m.noglobals and p not in ("min",) else ["local", n, "=", "nil"] if not m.scopes[-1].update({n: None}) else []
        if k <= 3 or m.depth or m.envs:
            if k == 1:
                b = m.body(sig["params"], sig["ret"], va); c = m.lastcost
                m.declare(n, "f", sig=sig, ro=True, cost=c); return ["local", n, "=", "function"] + b
            m.hide(n)
            b = m.body(sig["params"], sig["ret"], va); c = m.lastcost
            m.declare(n, "f", sig=sig, ro=True, cost=c); return ["local", "function", n] + b
        if any(n in s for s in m.scopes) or n in m.globals: return m.local()
        m.globals[n] = None
        m.depth += 0
        b = m.body(sig["params"], sig["ret"], va); c = m.lastcost
        m.globals.pop(n)
        v = m.newglobal(n, "f", sig=sig, ro=True, cost=c)
        return (["function", n] if r.random() < 0.7 else [n, "=", "function"]) + b
    def paren_call(m):
        """A statement that starts with a parenthesis"""
        r = m.r; fs = [f for f in m.visible("f") if f.cost * m.mult < 1500]
        if not fs or r.random() < 0.4:
            if m.noglobals or m.lookup("print"): return None
            return ["(", "print", r.choice(("or", "and")), "print", ")", "("] + m.any(1).t + [")"]
        f = r.choice(fs); m.cost[-1] += f.cost * m.mult
        return m.callargs(f, ["(", f.name, r.choice(("or", "and")), f.name, ")"], 1)
    def edge(m):
        """What is next to a statement that starts with a parenthesis may disappear"""
        r = m.r; out = []
        if m.depth > 3: return m.show()
        def gone():
            k = r.randrange(7); v = r.choice(("gone_", "gone2_"))
            if k <= 1: return ["local", v, "=", r.choice(("1", "nil", "true", "2.5"))]
            if k == 2: return ["local", v]
            if k == 3: return ["if", r.choice(("false", "nil")), "then"] + m.sub(1) + [STMT, "end"]
            if k == 4: return ["if", r.choice(("true", "1", "'x'")), "then"] + (["local", v, "=", "3"] if r.random() < 0.4 else paren() or []) + [STMT, "end"]
            if k == 5: return ["if", "false", "then", "else"] + (paren() or []) + [STMT, "end"]
            return ["do"] + gone() + [STMT, "end"]
        def paren():
            t = m.paren_call(); return [STMT, Semi(";")] + t if t else None
        for _ in range(r.randint(2, 5)):
            k = r.randrange(4)
            t = gone() if k <= 1 else None
            if k == 2:
                x = m.target("n"); v = m.pick("n")
                t = x + ["=", v.name] if x and v and x[1:2] != ["["] else None
            if k == 3: t = (paren() or [None])[1:] or None
            if t: out += ([STMT] if out else []) + t
        return ["do", STMT] + out + [STMT, "end"] if r.random() < 0.5 or any(x in out for x in ("gone_", "gone2_")) else out or m.show()
    def sub(m, n):
        m.depth += 1; b = m.block(n); m.depth -= 1; return b
    def several(m):
        """All the values of a call, or just the first, in places that tell"""
        r = m.r; fs = [f for f in m.visible("f") if len(f.sig["ret"]) > 1 and f.sig["ret"][:2] == ["n", "n"] and f.cost * m.mult < 1000]
        if not fs or m.noglobals or m.lookup("print") or m.lookup("select"): return m.show()
        f = r.choice(fs); m.cost[-1] += 2 * f.cost * m.mult; c = m.callargs(f, [f.name], 2)
        c = r.choice(([], [], ["true", "and"], ["false", "or"], ["nil", "or"], ["1", "and"], ["(", "true", "and"], ["("])) + c
        if c[0] == "(": c = c + [")"]
        k = r.randrange(8); v = m.name(); w = m.name()
        if k == 0: return ["print", "(", "#", "{"] + c + ["}", ")"]
        if k == 1: return ["print", "(", "select", "(", "'#'", ","] + c + [")", ")"]
        if k == 2: return ["print", "(", "select", "(", "'#'", ","] + c + [",", "1", ")", ")"]
        if k == 3: return ["print", "("] + c + [")"]
        if k == 4 and v != w and "print" not in (v, w):
            m.hide(v); m.hide(w); return ["local", v, ",", w, "="] + c + [STMT, "print", "(", v, ")", STMT, "print", "(", w, ")"]
        if k == 5 and not m.lookup("pack") and m.p8: return ["print", "(", "pack", "("] + c + [")", ".", "n", ")"]
        if k == 6: return ["print", "(", "select", "(", "'#'", ",", "(", "function", "(", ")", "return"] + c + ["end", ")", "(", ")", ")", ")"]
        t = m.target("n"); t2 = m.target("n")
        return t + [","] + t2 + ["="] + c if t and t2 and t != t2 and t[1:2] != ["["] and t2[1:2] != ["["] else ["print", "("] + c + [")"]
    def closure(m):
        """A counter in a closure"""
        r = m.r; n = m.name(); up = r.choice([x for x in NAMES if x != n])
        sig = dict(params=[], ret=["n"]); m.declare(n, "f", sig=sig, ro=True, cost=3)
        return ["local", n, STMT, "do", STMT, "local", up, "=", str(r.randrange(5)), STMT, n, "=", "function", "(", ")", STMT, up, "+=", str(r.randint(1, 3)), STMT, "return", up, "end", STMT, "end"]
    def record(m):
        r = m.r; fs = {f: r.choice("nnnsb") for f in r.sample(FIELDS, r.randint(1, 4))}; n = m.name(); out = ["{"]; items = list(fs.items())
        for i, (f, t) in enumerate(items):
            k = r.random()
            if m.mode == "safe" and k < 0.15: out += ["[", m.q(f), "]", "="] + m.of(t, 1).t
            else: out += [f, "="] + m.of(t, 1).t
            if i < len(items) - 1 or r.random() < 0.2: out.append(r.choice((",", ",", ";")))
        out += ["}"]
        if r.random() < 0.3 and m.newglobal(n, "r", fields=fs, ro=True): return [n, "="] + out
        m.declare(n, "r", fields=fs, ro=True)
        return ["local", n, "="] + out
    def klass(m):
        """A class with methods, and an object of it"""
        r = m.r; c = m.name(); o = m.name()
        if c == o or m.noglobals or m.lookup("setmetatable"): return m.record()
        fs = {f: r.choice("nns") for f in r.sample(FIELDS, r.randint(1, 3))}; meths = {}
        proto = Var("self", "o", fields=fs, sig=dict(methods={}))
        glob = not m.depth and r.random() < 0.4 and not any(c in s for s in m.scopes) and c not in m.globals
        m.hide(c) if not glob else m.globals.__setitem__(c, None)
        out = ([c, "="] if glob else ["local", c, "="]) + ["{", "}", STMT, c, ".", "__index", "=", c]
        for f in r.sample([x for x in FIELDS if x not in fs], r.randint(1, 3)):
            sig = dict(params=[r.choice("nns") for _ in range(r.randint(0, 2))], ret=r.choice(([], ["n"], ["n", "s"]))); m.depth += 1
            if r.random() < 0.7: out += [STMT, "function", c, ":", f] + m.body(sig["params"], sig["ret"], selfv=proto)
            else:
                b = m.body(sig["params"], sig["ret"], selfv=proto)
                out += [STMT, "function", c, ".", f] + ["(", "self"] + ([","] if sig["params"] else []) + b[1:] if "self" not in b[1:b.index(")")] else [STMT, "function", c, ":", f] + b
            m.depth -= 1
            meths[f] = Var(f, "f", sig=sig, cost=m.lastcost); proto.sig["methods"] = dict(meths)
        init = ["{"]
        for f, t in fs.items(): init += [f, "="] + m.of(t, 2).t + [","]
        out += [STMT, "local", o, "=", "setmetatable", "("] + init + ["}", ",", c, ")"]
        if glob: m.globals.pop(c, None)
        m.declare(o, "o", fields=fs, sig=dict(methods=meths), ro=True)
        return out
    def goto(m):
        r = m.r; l = r.choice(LABELS); k = r.randrange(4)
        m.depth += 1
        if k == 0:      # back, a few times
            c = "c%d" % r.randrange(4); m.scopes.append({}); m.declare(c, "n", ro=True); old = m.mult; m.mult *= 3
            t = ["do", STMT, "local", c, "=", "0", STMT, "::", l, "::", STMT, c, "+=", "1", STMT, "do"] + m.block(r.randint(1, 2)) + [STMT, "end", STMT, "if", c, "<", "3", "then", "goto", l, "end", STMT, "end"]
            m.mult = old; m.scopes.pop()
        elif k == 1:    # ahead, over something
            t = ["do", STMT, "if"] + m.cond().t + ["then", "goto", l, "end", STMT, "do"] + m.block(r.randint(1, 2)) + [STMT, "end", STMT, "::", l, "::", STMT, "end"]
        elif k == 2:    # out of two loops
            old = m.mult; m.mult *= 9; m.scopes.append({}); m.declare("i", "n", ro=True); m.declare("j", "n", ro=True)
            t = ["do", STMT, "for", "i", "=", "1", ",", "3", "do", STMT, "for", "j", "=", "1", ",", "3", "do"] + m.block(1) + [STMT, "if", "i", "*", "j", ">", str(r.randrange(9)), "then", "goto", l, "end", STMT, "end", STMT, "end", STMT, "::", l, "::", STMT, "end"]
            m.mult = old; m.scopes.pop()
        else:           # the same label twice, one inside the other's function
            t = ["do", STMT, "goto", l, STMT, "::", l, "::", STMT, "end", STMT, "do", STMT, "::", l, "::", STMT, "end"]
        m.depth -= 1
        return t
    def coroutine(m):
        r = m.r; n = m.name()
        if m.noglobals or m.depth > 2 or any(m.lookup(x) for x in ("cocreate", "coresume", "costatus", "yield")): return m.show()
        m.depth += 1; p = m.name(); m.scopes.append({}); m.declare(p, "n"); m.vararg.append(None); m.ret.append(None); m.loops.append(0); m.fn += 1
        body = m.block(r.randint(0, 2)) + [STMT, "for", "i", "=", "1", ",", str(r.randint(1, 3)), "do"]
        m.scopes.append({}); m.declare("i", "n", ro=True)
        body += m.block(r.randint(0, 1)) + [STMT, p, "=", "(", "yield", "(", "i", "*", p, ")", "or", "0", ")", "+", "1", STMT, "end"] + m.block(r.randint(0, 1))
        if r.random() < 0.5: body += [STMT, "return"] + m.n(2).t
        m.scopes.pop(); m.scopes.pop(); m.vararg.pop(); m.ret.pop(); m.loops.pop(); m.fn -= 1
        out = ["cocreate", "(", "function", "(", p, ")"] + body + [STMT, "end", ")"]
        m.depth -= 1
        if r.random() < 0.4 and m.newglobal(n, "co", ro=True): out = [n, "="] + out
        else: m.declare(n, "co", ro=True); out = ["local", n, "="] + out
        ok, v = "ok", m.name()
        if v != n and v != "ok" and not m.lookup("print"):
            out += [STMT, "while", "costatus", "(", n, ")", r.choice(("!=", "~=")), "'dead'", "do", STMT, "local", ok, ",", v, "=", "coresume", "(", n, ","] + E([str(r.randrange(9))]).t + [")", STMT, "print", "(", ok, ")", STMT, "if", ok, "then", "print", "(", v, ")", "end", STMT, "end"] if r.random() < 0.5 else [STMT, "print", "(", "(", "coresume", "(", n, ",", str(r.randrange(9)), ")", ")", ")"]
        return out
    def multi(m):
        """Varargs, select, unpack, pack"""
        r = m.r; n = m.name(); k = r.randrange(4)
        if m.noglobals: return m.assign()
        if k == 0 and not m.lookup("unpack") and not m.lookup("print"): return ["print", "(", "(", "unpack"] + (["("] + m.array(1) + [")"] if r.random() < 0.5 else m.array(1)) + [")", ")"]
        if k == 1 and not m.lookup("unpack"):
            a = m.pick("a")
            n2 = m.name()
            if n != n2:
                t = ["local", n, ",", n2, "=", "unpack", "("] + (m.array(1) if not a or r.random() < 0.5 else [a.name]) + [")"]
                m.hide(n); m.hide(n2); return t + ([STMT, "print", "(", n, ")", STMT, "print", "(", n2, ")"] if not m.lookup("print") and "print" not in (n, n2) else [])
        if k == 2 and not m.lookup("pack") and m.p8:
            t = ["local", n, "=", "pack", "("] + m.comma([m.any(2) for _ in range(r.randrange(4))]) + [")"]
            m.hide(n); return t + ([STMT, "print", "(", n, ".", "n", ")"] if not m.lookup("print") else [])
        if m.vararg[-1] == "n" and not m.lookup("print"): return ["print", "(", "select", "(", str(r.randint(1, 2)), ",", "...", ",", "7", ",", "8", ")", ")"] if not m.lookup("select") else m.show()
        a = m.array(1); m.declare(n, "a")
        return ["local", n, "="] + a
    def deadcode(m):
        """Conditions known beforehand"""
        r = m.r; m.depth += 1
        def c(): return r.choice((["true"], ["false"], ["nil"], ["1", ">", "2"], ["1", "<", "2"], ["not", "true"], ["'a'"], ["1", "==", "1", "and", "2", "==", "2"], ["#", "'ab'", "==", "2"], ["(", "false", ")"], ["0"], ["1", "~=", "2"], ["not", "nil"], ["false", "or", "nil"], ["flr", "(", "1.5", ")", "==", "1"] if m.p8 and not m.lookup("flr") and not m.noglobals else ["1", "==", "2"]))
        k = r.randrange(5)
        if k <= 2:
            out = ["if"] + c() + ["then"] + m.block(r.choice((0, 1, 2)))
            for _ in range(r.choice((0, 1, 1, 2))): out += [STMT, "elseif"] + (c() if r.random() < 0.6 else m.cond().t) + ["then"] + m.block(r.choice((0, 1)))
            if r.random() < 0.6: out += [STMT, "else"] + m.block(r.choice((0, 1, 2)))
            if m.loops[-1] and r.random() < 0.2: out += [STMT, "break"]
            elif m.ret[-1] is not None and r.random() < 0.15: out += [STMT, "return"] + m.comma([m.of(t, 2) for t in m.ret[-1]])
            out += [STMT, "end"]
        elif k == 3 and not m.short:
            m.short += 1; f = m.inner(); f = m.compound() if f[:1] == ["do"] else f
            out = [ON, "if", "("] + c() + [")"] + f + (["else"] + m.inner() if r.random() < 0.4 else []) + [OFF, NL]; m.short -= 1
        else: out = ["while", "false", "do"] + m.block(1) + [STMT, "end"]
        m.depth -= 1
        return out
    def constexpr(m, d=0):
        r = m.r
        if d > 2 or r.random() < 0.3: return m.num()
        k = r.randrange(6)
        if m.tron and k <= 3: return m.tron_op(m.constexpr, d)
        if k <= 3: return m.extra(m.bin(r.choice(("+", "-", "*", "/", "\\", "%", "&", "|", "^^", "<<", ">>", ">>>", "<<>", ">><") if m.p8 else ("+", "-", "*")), m.constexpr(d + 1), m.constexpr(d + 1)))
        if k == 4: return m.un(r.choice("-~") if m.p8 else "-", m.constexpr(d + 1))
        f, a = r.choice((("flr", 1), ("ceil", 1), ("abs", 1), ("min", 2), ("max", 2), ("mid", 3)))
        if m.lookup(f) or m.noglobals: return m.num()
        return E([f, "("] + m.comma([m.constexpr(d + 1) for _ in range(a)]) + [")"])
    def dict_(m):
        """A table with keys that are strings at run time"""
        r = m.r; n = m.name(); out = ["{"]
        for k in r.sample(m.strkeys, r.randint(1, 3)): out += ["[", m.q(k), "]", "="] + m.n(1).t + [r.choice((",", ";"))]
        m.declare(n, "d", ro=True)
        out = ["local", n, "="] + out + ["}"]
        if r.random() < 0.4: out += [STMT, n, "[", m.strkey(), "]", "="] + m.n(1).t
        if r.random() < 0.3 and m.mode == "safe" and not m.lookup("print") and not m.noglobals: out += [STMT, "print", "(", n, ".", r.choice(m.strkeys), ")"]
        if r.random() < 0.3 and not m.lookup("pairs") and not m.noglobals:
            a = "acc_"; out += [STMT, "local", a, "=", "0", STMT, "for", "k_", ",", "v_", "in", "pairs", "(", n, ")", "do", a, "+=", "v_", "*", "#", "k_", "end"] + ([STMT, "print", "(", a, ")"] if not m.lookup("print") else [])
        return out
    def split_(m):
        r = m.r; n = m.name()
        if m.noglobals or m.lookup("split") or not m.p8 and False: return m.show()
        s = ",".join(str(r.randrange(50)) for _ in range(r.randint(1, 5)))
        m.declare(n, "a"); return ["local", n, "=", "split"] + r.choice((['"%s"' % s], ["(", '"%s"' % s, ")"], ["[[%s]]" % s]))
    def inner_n(m, d):
        """A number, inside a function written by hand"""
        m.vararg.append(None); e = m.n(d); m.vararg.pop(); return e.t
    def metatable(m):
        """Operators that do something one can see"""
        r = m.r; n = m.name(); ev = r.choice(["__add", "__sub", "__mul", "__concat", "__unm", "__len", "__call", "__index", "__newindex", "__eq", "__lt", "__le"])
        if m.noglobals or m.lookup("setmetatable") or m.lookup("print") or n == "print": return m.show()
        out = ["local", n, "=", "setmetatable", "(", "{", "}", ",", "{", ev, "=", "function", "(", "a_", ",", "b_", ",", "c_", ")", "print", "(", "'%s'" % ev, ")"]
        ret = {"__newindex": ["rawset", "(", "a_", ",", "b_", ",", "c_", ")"], "__index": ["return", "b_"] if m.mode == "safe" else ["return", "5"], "__eq": ["return", "true"], "__lt": ["return", "true"], "__le": ["return", "false"]}.get(ev) or ["return"] + m.inner_n(2)
        out += ret + ["end", "}", ")"]
        m.hide(n)
        f = r.choice(m.strkeys if m.mode == "safe" else FIELDS)
        use = {"__add": [n, "+", "1"], "__sub": ["2", "-", n], "__mul": [n, "*", n], "__concat": [n, "..", "'x'"], "__unm": ["-", n], "__len": ["#", n], "__call": [n, "(", "3", ")"], "__index": [n, ".", f], "__eq": [n, "==", n], "__lt": [n, "<", n], "__le": [n, ">=", n]}.get(ev)
        if ev == "__newindex": return out + [STMT, n, ".", f, "="] + m.n(1).t + [STMT, "print", "(", n, ".", f, ")"]
        if r.random() < 0.5: return out + [STMT, "print", "("] + use + [")"]
        v = m.name(); v2 = m.name()
        if v in (n, "print") or v2 in (n, "print"): return out + [STMT, "print", "("] + use + [")"]
        m.hide(v); m.hide(v2)
        return out + [STMT, "local", v, "=", str(r.randrange(9)), STMT, "local", v2, "="] + use + [STMT, "print", "(", v2, ")"]
    def env(m):
        """Uses of _ENV"""
        r = m.r; k = r.randrange(8)
        if m.noglobals or m.depth > 2 or m.envs or m.short: return m.show()
        if m.lookup("print") or m.lookup("setmetatable") or m.lookup("all"): return m.show()
        m.used_env = True
        if m.mode == "safe":
            if k == 0:
                g = [v for v in m.globals.values() if v and v.type in ("n", "s") and not any(v.name in s for s in m.scopes)]
                if g:
                    v = r.choice(g); return ["print", "(", "_ENV", "[", m.q(v.name), "]", ")"] if r.random() < 0.5 else ["_ENV", "[", m.q(v.name), "]", "="] + m.of(v.type, 1).t
            if k == 1:
                g = [v for v in m.globals.values() if v and v.type == "n" and not any(v.name in s for s in m.scopes)]
                if g: v = r.choice(g); return ["_ENV", ".", v.name, "+=", "1"] if not v.ro else ["print", "(", "_ENV", ".", v.name, ")"]
            if k == 2: return ["for", "_ENV", "in", "all", "{", "{", "x", "=", "1", ",", "y", "=", "2", "}", ",", "{", "x", "=", "5", ",", "y", "=", "7", "}", "}", "do", STMT, "x", "+=", "y", "end"]
            if k == 3: return ["do", STMT, "local", "_ENV", "=", "{", "print", "=", "print", ",", "zz", "=", str(r.randrange(9)), "}", STMT, "zz", "+=", "1", STMT, "print", "(", "zz", ")", STMT, "end"]
            if k == 4: return ["do", STMT, "local", "_ENV", "=", "setmetatable", "(", "{", "zz", "=", "3", "}", ",", "{", "__index", "=", "_ENV", "}", ")", STMT, "yy", "=", "zz", "*", "2", STMT, "print", "(", "yy", ")", STMT, "end", STMT, "print", "(", "yy", ")"]
            if k == 5: return ["(", "function", "(", "_ENV", ")", "zz", "=", "(", "zz", "or", "0", ")", "+", "1", "end", ")", "(", "_ENV", ")", STMT, "print", "(", "zz", ")"]
            if k == 6: return ["_ENV", "[", "'q'", "..", str(r.randrange(2)), "]", "="] + m.n(2).t + [STMT, "print", "(", "q0", ")", STMT, "print", "(", "q1", ")"]
            return ["local", "keep_", "=", "_ENV", STMT, "print", "(", "keep_", ".", "print", "==", "print", ")"]
        if m.same and r.random() < 0.6:     # members are renamed like globals: _ENV and tables may be mixed, except by string
            k = r.randrange(5)
            if k == 0: return ["for", "_ENV", "in", "all", "{", "{", "x", "=", "1", ",", "y", "=", "2", "}", ",", "{", "x", "=", "5", ",", "y", "=", "7", "}", "}", "do", STMT, "x", "+=", "y", "end"]
            if k == 1: return ["do", STMT, "local", "_ENV", "=", "{", "print", "=", "print", ",", "zz", "=", str(r.randrange(9)), "}", STMT, "zz", "+=", "1", STMT, "print", "(", "zz", ")", STMT, "end"]
            if k == 2: return ["do", STMT, "local", "_ENV", "=", "setmetatable", "(", "{", "zz", "=", "3", "}", ",", "{", "__index", "=", "_ENV", "}", ")", STMT, "yy", "=", "zz", "*", "2", STMT, "print", "(", "yy", ")", STMT, "end", STMT, "print", "(", "yy", ")"]
            if k == 3: return ["local", "keep_", "=", "_ENV", STMT, "print", "(", "keep_", ".", "print", "==", "print", ")"]
            g = [v for v in m.globals.values() if v and v.type == "n" and not v.ro and not any(v.name in s for s in m.scopes)]
            if g: v = r.choice(g); return ["(", "function", "(", "e_", ")", "e_", ".", v.name, "+=", "1", "end", ")", "(", "_ENV", ")", STMT, "print", "(", v.name, ")"]
        # full: with the documented hints
        if k <= 1: return ["for", Raw("--[[$member-keys]]"), "_ENV", "in", "all", "{", "{", "x", "=", "1", ",", "y", "=", "2", "}", ",", "{", "x", "=", "5", ",", "y", "=", "7", "}", "}", "do", STMT, "x", "+=", "y", "end"]
        if k == 2: return ["do", STMT, "local", "_ENV", "=", "{", Raw("--[[$global]]"), "print", "=", "print", "}", STMT, "print", "(", str(r.randrange(9)), ")", STMT, "end"]
        if k == 3: return ["do", STMT, "local", "env_", "=", Raw("--[[$global-keys]]"), "{", "print", "=", "print", ",", "abs_", "=", "abs", "}", STMT, "local", "_ENV", "=", "env_", STMT, "print", "(", "abs_", "(", "-", "3", ")", ")", STMT, "end"] if not m.lookup("abs") else m.show()
        if k == 4:
            g = [v for v in m.globals.values() if v and v.type in ("n", "s") and not any(v.name in s for s in m.scopes)]
            g = [v for v in g if not v.name.startswith("k_")]      # (constants are gone)
            if g: v = r.choice(g); return ["print", "(", "_ENV", "[", Raw("--[[$global]]"), m.q(v.name), "]", ")"]
        if k == 5: return ["do", STMT, "local", "_ENV", "=", "{", "print", "=", "print", ",", "zz", "=", str(r.randrange(9)), "}", STMT, "print", "(", "zz", ")", STMT, "end"]
        return m.show()
    def hints(m):
        """The documented ways to tell the minifier more"""
        r = m.r; n = m.name(); k = r.randrange(12)
        if m.noglobals or m.lookup("print") or n == "print": return m.show()
        f = r.choice(FIELDS)
        if k == 0:
            m.declare(n, "r", fields={f: "n"}, ro=True)
            return ["local", n, "=", "{", f, "="] + m.n(1).t + ["}", STMT, "print", "(", n, "[", Raw("--[[$member]]"), m.q(f), "]", ")"]
        if k == 1:
            m.hide(n); g = r.choice(FIELDS)
            return ["local", Raw("--[[$preserve-keys]]"), n, "=", "{", f, "=", "1", ",", g, "=", "2", "}", STMT, n, ".", f, "+=", "1", STMT, "print", "(", n, "[", m.q(f), "]", ")"]
        if k == 2:
            m.hide(n)
            return ["local", n, "=", Raw("--[[$preserve-keys]]"), "{", f, "=", "1", "}", STMT, "print", "(", n, "[", m.q(f), "]", ")"]
        if k == 3 and not m.short:
            g = "pre_%s" % f; m.preserve.append("*." + g); m.hide(n)
            return ["local", n, "=", "{", g, "="] + m.n(1).t + ["}", STMT, "print", "(", n, "[", "'pre_'", "..", "'%s'" % f, "]", ")"]
        if k == 4:
            g = "glob_%s" % f; m.preserve.append("glob_*"); m.used_env = True
            return [g, "="] + m.n(1).t + [STMT, "print", "(", "_ENV", "[", "'glob_'", "..", "'%s'" % f, "]", ")"] if not m.envs else m.show()
        if k == 5:
            v = m.name(); e = m.constexpr()
            if v == "print" or m.depth and False: return m.show()
            t = [Raw("--[[$const]]"), "local", v, "="] + [str(r.randrange(50))]
            m.declare(v, "n", ro=True)
            return t + [STMT, "print", "(", v, "+"] + wrap(e, e.p > 9).t + [")"]
        if k == 6:
            v = m.name(); t = [Raw("--[[$non-const]]"), "local", v, "=", str(r.randrange(50))]; m.declare(v, "n"); return t
        if k == 7 and not m.short: return m.local() + [STMT, Raw("--[[$no-merge]]")] + m.local()
        if k == 8 and not m.short: return [Raw("--$keep: a comment to keep\n")] + m.show()
        if k == 9 and not m.depth:
            v = "k_%s" % f
            if m.lookup(v) or v in m.globals: return m.show()
            t = [Raw("--[[$const]]"), v, "=", str(r.randrange(99))]; m.globals[v] = Var(v, "n", ro=True, glob=True)
            return t + [STMT, "print", "(", v, ")"]
        if k == 10 and not m.lookup("split"):
            m.hide(n); g = r.choice(FIELDS)
            if g == f: return m.show()
            return ["local", n, "=", "{", f, "=", "1", ",", g, "=", "2", "}", STMT, "for", "k_", "in", "all", "(", "split", Raw("--[[$member]]"), '"%s,%s"' % (f, g), ")", "do", "print", "(", n, "[", "k_", "]", ")", "end"] if not m.lookup("all") else m.show()
        if k == 11 and not m.lookup("split"):
            m.hide(n); g = r.choice(FIELDS)
            if g == f: return m.show()
            return ["local", n, "=", "{", f, "=", "1", ",", g, "=", "2", "}", STMT, "for", "k_", "in", "all", "(", "split", "(", Raw("--[[$language::split member,string,member]]"), '"%s,%s,%s"' % (f, r.choice(("s t", "7", "-", "+1")), g), ")", ")", "do", "print", "(", n, "[", "k_", "]", "or", "k_", ")", "end"] if not m.lookup("all") else m.show()
        return m.show()
    def uid(m): m.uids += 1; return m.uids
    def keep(m, rules, t):
        """t, preserving what the rules say: in the cart or on the command line"""
        if m.short or m.r.random() < 0.5: m.preserve += rules; return t
        return [Raw("--$preserve: %s\n" % m.r.choice((", ", ",", " ")).join(rules))] + t
    def shows(m, *es):
        out = []
        for e in es: out += [STMT, "print", "("] + e + [")"]
        return out
    def rules(m):
        """Preserving rules and other advanced hints.  The tables have names of their own, as the rules are about names"""
        r = m.r; k = r.randrange(16); u = m.uid()
        if m.noglobals or m.envs or m.lookup("print") or m.same: return m.show()
        pt = "pv%d" % u; num = lambda: [str(r.randrange(50))]
        if k <= 1:      # short names that others might be given
            kept = r.sample("eatnoilrscdpmuxyfghb", r.randint(2, 8)); free = r.sample([f for f in FIELDS if f not in kept], r.randint(2, 5)); items = kept + free; r.shuffle(items)
            t = ["local", pt, "=", "{"]
            for f in items: t += [f, "="] + num() + [","]
            t += ["}"]
            for f in r.sample(items, min(4, len(items))): t += [STMT, pt, ".", f, "+=", str(r.randint(1, 9))]
            t += m.shows(*[[pt, ".", f] if f in free or r.random() < 0.3 else [pt, "[", m.q(f), "]"] for f in items])
            return m.keep([pt + "." + f for f in kept] if k == 0 or r.random() < 0.5 else ["%s.*" % pt] + ["!%s.%s" % (pt, f) for f in free] if r.random() < 0.5 else ["*%d.%s" % (u, f) for f in kept] if u > 9 else [pt + "." + f for f in kept], t)
        if k == 2:      # by the table's name, several at once
            p2 = "pw%d" % u; f = r.choice(FIELDS); n3 = "px%d" % u; names = [n3, p2] if r.random() < 0.5 else [p2, n3]
            if r.random() < 0.3: names = ["py%d" % u] + names
            t = (["local"] if r.random() < 0.6 or m.depth else []) + m.join(names) + ["="]
            for i, n in enumerate(names): t += [","] * (i > 0) + ["{", f, "="] + num() + ["}"]
            return m.keep([p2 + r.choice((".*", "." + f))], t + m.shows([p2, "[", m.q(f), "]"], [n3, ".", f], [p2, ".", f]))
        if k == 3:      # wildcards, and exceptions from them
            t = ["local", pt, "=", "{", "w_%da" % u, "="] + num() + [",", "w_%dq" % u, "="] + num() + ["}"]
            return m.keep(["*.w_%d*" % u, "!*.w_%dq" % u] if r.random() < 0.5 else [pt + ".w_*"] if r.random() < 0.5 else ["pv*.w_%d?" % u], t + m.shows([pt, "[", m.q("w_%da" % u), "]"], [pt, ".", "w_%dq" % u]))
        if k == 4 and m.depth == 0:     # globals
            g = "gp%d_" % u
            t = [g + "a", "="] + num() + [STMT, g + "b", "="] + num() + m.shows(["_ENV", "[", m.q(g + "a"), "]"], [g + "b"])
            m.used_env = True
            return m.keep([g + "*", "!" + g + "b"] if r.random() < 0.5 else [g + "a"], t)
        if k == 6:      # names given by hand
            n = r.choice([x for x in ("c", "d", "j", "k", "m", "r", "s", "u", "v", "q1", "_0") if x not in m.given] or [None])
            if n is None: return m.show()
            m.given.append(n); h = Raw("--[[$rename::%s]]" % n); j = r.randrange(5); v = "rn%d" % u; o = "ro%d" % u
            if j == 0: return ["local", h, v, "="] + num() + [STMT, v, "+=", "1", STMT, "local", o, "=", v, "*", "2"] + m.shows([v], [o])
            if j == 1 and not m.depth: return [h, v, "="] + num() + [STMT, v, "+=", "1"] + m.shows([v], ["_ENV", ".", v], ["_ENV", "[", Raw("--[[$global]]"), m.q(v), "]"])
            if j == 2: return ["local", "function", o, "(", h, v, ",", o + "b", ")", STMT, "return", v, "-", o + "b", STMT, "end"] + m.shows([o, "("] + num() + [","] + num() + [")"])
            if j == 3: return ["local", o, "=", "{", h, v, "="] + num() + [",", "count_it", "="] + num() + ["}", STMT, o, ".", v, "+=", "1"] + m.shows([o, ".", v], [o, ".", "count_it"], [o, "[", Raw("--[[$member]]"), m.q(v), "]"], *([[o, "[", "split", "(", Raw("--[[$language::split string,member]]"), '"%s,%s"' % (v, v), ")", "[", "2", "]", "]"]] if not m.lookup("split") else []))
            return ["local", "function", h, v, "(", o, ")", STMT, "return", o, "*", "3", STMT, "end"] + m.shows([v, "("] + num() + [")"])
        if k == 7:      # the keys of a table not bound directly
            f = r.choice(FIELDS); g = r.choice(FIELDS)
            h = Raw("--[[$preserve-keys]]")
            t = ["local", h, pt, "=", "{", f, "="] + num() + ["}", STMT, pt, "=", "setmetatable", "(", Raw("--[[$preserve-keys]]"), "{", g, "="] + num() + ["}", ",", "{", "__index", "=", pt, "}", ")"]
            return t + m.shows([pt, "[", m.q(f), "]"], [pt, "[", m.q(g), "]"], [pt, ".", g]) if not m.lookup("setmetatable") else m.show()
        if k == 8:      # a variable that stands for the globals
            g = [v for v in m.globals.values() if v and v.type == "n" and not v.ro and not v.name.startswith("k_") and not any(v.name in s for s in m.scopes)]
            if not g: return m.show()
            v = r.choice(g); m.used_env = True
            return ["local", Raw("--[[$global-keys]]"), pt, "=", "_ENV", STMT, pt, ".", v.name, "+=", "1"] + m.shows([v.name], [pt, ".", v.name])
        if k == 9:      # one occurrence
            if r.random() < 0.5: return ["for", "_ENV", "in", "all", "{", "{", "x", "=", "1", "}", ",", "{", "x", "=", "2", "}", "}", "do", STMT, Raw("--[[$member]]"), "x", "+=", "1", "end"] if not m.lookup("all") and not any("x" in s for s in m.scopes) else m.show()
            if r.random() < 0.4 and not m.depth:
                g = r.choice("cdjkmrsuv"); h = Raw("--[[$preserve]]"); m.used_env = True
                if g in m.given or m.lookup(g): return m.show()
                m.given.append(g)
                return [h, g, "="] + num() + [STMT, "gz%d" % u, "="] + num() + m.shows(["_ENV", "[", m.q(g), "]"], ["gz%d" % u], [h, g])
            f = r.choice(FIELDS); return ["local", pt, "=", "{", Raw("--[[$preserve]]"), f, "="] + num() + [",", "zz%d" % u, "=", "3", "}"] + m.shows([pt, "[", m.q(f), "]"], [pt, ".", Raw("--[[$preserve]]"), f], [pt, ".", "zz%d" % u])
        if k == 10:     # a string of names, of which everything else stays
            a, b = r.sample(FIELDS, 2); lead, mid, tail = r.choice(("", " ", "  ", "-", "=", "1 ", ".")), r.choice((",", " ", ", ", "=", " = ", ":", "--", ".")), r.choice(("", " ", "\\n", ";", "!"))
            t = ["local", pt, "=", Raw("--[[$member]]"), '"%s%s%s%s%s"' % (lead, a, mid, b, tail), STMT, "local", pt + "t", "=", "{", a, "=", "1", ",", b, "=", "2", "}"]
            if m.lookup("sub") or m.lookup("ord"): return m.show()
            return t + m.shows(["sub", "(", pt, ",", "1", ",", "1", ")", "==", '" "'], ["ord", "(", pt, ",", "-", "1", ")", "<", "48"], ["ord", "(", pt, ")", "<", "48"], [pt + "t", ".", a])
        if k == 11 and not m.lookup("split") and not m.lookup("all"):    # strings that are split in two ways
            a, b, c = r.sample(FIELDS, 3); j = r.randrange(4)
            x, y = r.sample(("hello", "7", "x", "name", "a b", "foo-bar", "val"), 2)
            if j == 0:
                h, st = "(member=string)s,", "%s=%s,%s=%s" % (a, x, b, y)
                if r.random() < 0.4: pre = [Raw("--$def-alias: sp%d = split %s\n" % (u, h))] if not m.short else []; h = "sp%d" % u if pre else "split " + h
                else: pre = []; h = "split " + h
                return pre + ["local", pt, "=", "{", "}", STMT, "for", "p_", "in", "all", "(", "split", "(", Raw("--[[$language::%s]]" % h), '"%s"' % st, ")", ")", "do", STMT, "local", "kv_", "=", "split", "(", "p_", ",", '"="', ",", "false", ")", STMT, pt, "[", "kv_", "[", "1", "]", "]", "=", "kv_", "[", "2", "]", STMT, "end"] + m.shows([pt, ".", a], [pt, ".", b])
            if j == 1: h, st, s = "member;globals;string", "%s;%s;%s" % (a, b, x), ";"
            elif j == 2: h, st, s = "member,strings", "%s,%s,%s" % (a, x, y), ","
            else: h, st, s = "string-members", "%s-%s-%s" % (x.replace("-", ""), a, b), "-"
            t = ["local", pt, "=", "split", "(", Raw("--[[$language::split %s]]" % h), '"%s"' % st, ",", '"%s"' % s, ",", "false", ")", STMT, "local", pt + "t", "=", "{", a, "=", "1", ",", b, "=", "2", "}"]
            if j == 3: return t + m.shows([pt, "[", "1", "]"], [pt + "t", "[", pt, "[", "2", "]", "]"], [pt + "t", "[", pt, "[", "3", "]", "]"], [pt + "t", ".", b])
            return t + m.shows([pt + "t", "[", pt, "[", "1", "]", "]"], [pt, "[", "3", "]"], *([[pt, "[", "2", "]"]] if j == 2 else []))
        if k == 12:     # constants of every kind
            a, b, c = "ca%d" % u, "cb%d" % u, "cc%d" % u
            j = r.randrange(6)
            if j == 0: t = [Raw("--[[$const]]"), "local", a, ",", b, ",", c, "=", r.choice(("1", "'s'", "true", "nil")), ",", r.choice(("2", "[[t]]", "false")), ",", r.choice(("3", "'u'"))]
            elif j == 1: t = ["local", Raw("--[[$const]]"), a, ",", b, "="] + num() + [","] + m.n(2).t + [STMT, "local", c, "=", a, "+", "1"]
            elif j == 2: t = [Raw("--[[$const]]"), "local", a, STMT, Raw("--[[$const]]"), "local", b, "=", a, "or", "4", STMT, "local", c, "=", a, "==", "nil"]
            elif j == 3: t = [Raw("--[[$const]]"), "local", a, "="] + m.string().t + [STMT, Raw("--[[$const]]"), "local", b, "=", "#", a, STMT, "local", c, "=", a, "..", b]
            elif j == 4: t = [Raw("--[[$const]]"), "local", a, "=", "2.5", STMT, Raw("--[[$const]]"), "local", b, "="] + (["flr", "(", "mid", "(", a, ",", "1", ",", "5", ")", ")"] if not m.lookup("flr") and not m.lookup("mid") else ["4"]) + [STMT, "local", c, "=", b, "*", a]
            else:
                if m.depth: return m.show()
                t = [Raw("--[[$const]]"), a, "=", r.choice(("true", "false", "nil", "5")), STMT, b, "=", "0", STMT, "if", a, "then", b, "=", "1", "else", b, "=", "2", "end", STMT, c, "=", "not", a]
            return t + m.shows([a], [b], [c])
        if k == 13 and m.depth == 0 and m.p8:     # _ENV members under rules
            g = "ge%d" % u; m.used_env = True
            return m.keep(["_ENV." + g, g], ["_ENV", ".", g, "="] + num() + m.shows(["_ENV", "[", m.q(g), "]"], [g]))
        if k == 14 and not m.short:
            f = r.choice(FIELDS)
            return ["local", pt, "=", "setmetatable", "(", "{", f, "=", "0", "}", ",", "{", "__newindex", "=", "function", "(", "t_", ",", "k_", ",", "v_", ")", "rawset", "(", "t_", ",", "k_", ",", "v_", "+", "t_", ".", f, ")", "end", "}", ")", STMT, pt, ".", f, "=", "3", STMT, Raw("--[[$no-merge]]"), pt, ".", "new_%d" % u, "=", "4"] + m.shows([pt, ".", "new_%d" % u]) if not m.lookup("setmetatable") and not m.lookup("rawset") else m.show()
        return m.show()
    def captured(m):
        """A local read by a function that is called while others are set"""
        r = m.r; x, g, y = r.sample(NAMES, 3)
        if m.noglobals or m.lookup("print") or "print" in (x, g, y) or m.short: return m.show()
        for n in (x, g, y): m.hide(n)
        t = ["local", x] + r.choice(([], ["=", "1"])) + [STMT, "local"] + r.choice((["function", g], [g, "=", "function"])) + ["(", ")", "return", x, "end"]
        if r.random() < 0.3: t += [STMT, "local", y]; dec = []
        else: dec = ["local"]
        k = r.randrange(4); v = str(r.randrange(2, 30))
        if k <= 1: t += [STMT, x, "=", v, STMT] + dec + [y, "=", g, "(", ")"]
        elif k == 2: t += [STMT, x, "=", v, STMT, x, "=", g, "(", ")", "+", "1", STMT] + dec + [y, "=", g, "(", ")"]
        else: t += [STMT] + dec + [y, "=", g, "(", ")", STMT, x, "=", v]
        m.declare(y, "o", fields={}, sig=dict(methods={}), ro=True); m.hide(y)
        return t + m.shows([y], [x], [g, "(", ")"])
    def iterated(m):
        """Loops over all the values of an expression, or just the first"""
        r = m.r; f = "it%d" % m.uid(); k = r.randrange(5)
        if m.noglobals or m.short or any(m.lookup(x) for x in ("print", "next", "ipairs", "all", "pairs")): return m.show()
        arr = ["{"] + m.comma([m.num() for _ in range(r.randint(2, 4))]) + ["}"]
        t = ["local", "function", f, "(", ")", "return"] + arr + [",", "1", "end", STMT, "for", "i_", ",", "v_", "in"]
        call = [f, "(", ")"]; one = ["("] + call + [")"]; c = one if r.random() < 0.5 else call
        if k == 0: t += ["next", ","] + c
        elif k == 1: t += ["ipairs", "("] + c + [")"]
        elif k == 2: t = ["local", "function", f, "(", "a_", ")", "return", "next", ",", "a_", r.choice((",", ",")), "1", "end", STMT, "for", "i_", ",", "v_", "in"] + (["(", f, "("] + arr + [")", ")", ","] + arr if r.random() < 0.5 else [f, "("] + arr + [")"])
        elif k == 3: t += ["next", ","] + one + [","] + r.choice((["nil"], ["1"], ["(", "nil", ")"]))
        else: t += ["next", ","] + arr + r.choice(([], [",", "1"], [",", "nil"], [",", "(", "1", ")"]))
        return t + ["do"] + m.shows(["i_"], ["v_"]) + [STMT, "end"]
    def override(m):
        """Built-ins of one's own, and short names for built-ins"""
        r = m.r; k = r.randrange(5); f = r.choice(("spr", "circfill", "abs", "flr", "sgn", "pset", "sfx"))
        if not m.p8 or m.noglobals or m.lookup(f) or m.lookup("print"): return m.show()
        if k == 0:
            n = m.name()
            if n == "print": return m.show()
            m.hide(n); return ["local", n, "=", f, STMT, "print", "(", n, "==", f, ")"] + ([STMT, n, "(", str(r.randrange(9)), ")"])
        if k == 1 and not m.depth:
            m.globals[f] = None; m.scopes[0][f] = Var(f, "f", sig=dict(params=["n"], ret=["n"]), ro=True, cost=3)
            return ["function", f, "(", "v_", ")", "print", "(", "'own'", ")", "return", "v_", "end"]
        if k == 2: m.scopes[-1][f] = Var(f, "f", sig=dict(params=["n"], ret=["n"]), ro=True, cost=3); return ["local", "function", f, "(", "v_", ")", "return", "v_", "*", "2", "end"]
        if k == 3: v = m.declare(f, "n"); return ["local", f, "=", str(r.randrange(9))]
        n = "print"; return ["local", n, "=", n]
    def misuse(m):
        """Something that goes wrong now and then"""
        r = m.r
        if m.depth > 2 or m.noglobals or m.lookup("btn") or r.random() < 0.5: return m.show()
        bad = r.choice((["nil_", ".", "x", "=", "1"], ["nil_", "(", ")"], ["local", "z_", "=", "1", "+", "{", "}"], ["local", "z_", "=", "nil_", "..", "'a'"], ["local", "z_", "=", "#", "5"], ["local", "z_", "=", "{", "}", "<", "1"]))
        return ["if", "btn", "(", str(r.randrange(6)), ")", "then"] + bad + ["end"]

    # ---- the program ----
    def program(m):
        """-> list of token lists, one for each top-level statement"""
        r = m.r; out = []
        if m.mode == "full" and not m.same and r.random() < 0.1:        # built-ins under new names
            fs = r.sample(("circfill", "spr", "pset", "sfx", "rectfill", "camera"), r.randint(1, 2))
            t = m.join(fs) + ["="]
            for i, f in enumerate(fs): t += [","] * (i > 0) + [Raw("--[[$preserve]]"), f]
            m.left -= 1
            out.append([STMT, Raw("--$preserve: %s\n" % ", ".join("!" + f for f in fs))] + t)
        while m.left > 0: out.append(m.stmt())
        m.depth = 0
        cbs = r.choice((["_update", "_draw"], ["_update60", "_draw"] if m.p8 else ["_update"], ["_init", "_update", "_draw"], ["_update"], ["_draw"], []))
        for c in cbs:
            m.left = max(4, m.size // 3)
            m.depth = 1
            b = m.body([], None, stmts=r.randint(1, 5))
            m.depth = 0
            k = r.random()
            out.append([STMT] + (["function", c] + b if k < 0.85 or c in m.globals else [c, "=", "function"] + b))
        return explicit_nils(out)

def explicit_nils(stmts):
    """Known finding: a declaration without values is merged into an earlier one in its block that ends in all the values of a call.
    Where that could happen, the declaration gets its nil"""
    out = []; risk = [False]; mark = (Nl, On, Off, Stmt, Raw)
    for st in stmts:
        res = []; i = 0; starts = []        # (block level, expression depth, index in res) of the declarations with values that are open
        depth = 0; short = False
        def close(j):
            while starts and (starts[-1][0], starts[-1][1]) >= (len(risk), depth):
                lv, dp, a = starts.pop()
                if lv == len(risk) and multi([t for t in res[a:j] if not isinstance(t, mark)]): risk[-1] = True
        while i < len(st):
            t = st[i]
            if isinstance(t, (Nl, Off, Stmt)) or isinstance(t, Semi) or t in (";", "end", "else", "elseif", "until") and depth == (starts[-1][1] if starts else 0): close(len(res))
            if isinstance(t, (On, Off)): short = isinstance(t, On)
            if isinstance(t, mark): res.append(t); i += 1; continue
            if t in ("do", "then", "repeat", "function"): risk.append(False)
            elif t in ("end", "until"): risk.pop()
            elif t in ("else", "elseif"):
                if t == "elseif": risk.pop()
                elif not short: risk[-1] = False
            elif t in "({[" and len(t) == 1: depth += 1
            elif t in ")}]" and len(t) == 1: depth -= 1
            res.append(t); i += 1
            if t == "local":
                while i < len(st) and isinstance(st[i], Raw): res.append(st[i]); i += 1
                if st[i] == "function": continue
                while True:
                    while isinstance(st[i], Raw): res.append(st[i]); i += 1
                    res.append(st[i]); i += 1
                    if i + 2 < len(st) and st[i] == "<" and st[i + 2] == ">": res += st[i:i + 3]; i += 3
                    if i < len(st) and not isinstance(st[i], mark) and st[i] == ",": res.append(","); i += 1
                    else: break
                if i < len(st) and not isinstance(st[i], mark) and st[i] == "=": starts.append((len(risk), depth, len(res)))
                elif risk[-1]: res += ["=", "nil"]
        close(len(res)); out.append(res)
    return out
def multi(ts):
    """May these tokens end in a call or varargs?  (it may say so of more)"""
    if not ts: return False
    t = ts[-1]
    if t == "..." : return True
    if t == ")" or t == "}":
        n = 0
        for i in range(len(ts) - 1, -1, -1):
            if ts[i] in ("(", "{"): n += 1
            elif ts[i] in (")", "}"): n -= 1
            if n == 0: break
        return i > 0 and callee(ts[i - 1])
    if t[0] in "\"'[" and len(t) > 1: return len(ts) > 1 and callee(ts[-2])
    return False
def callee(t): return t in (")", "]", "}") or t[0] in "\"'" or t.startswith("[[") or (t[0].isalnum() or t[0] == "_") and not t[0].isdigit() and t not in KW
# ---- laying it out ----
def word(t): return t[:1].isalnum() or t[:1] in "_" or ord(t[:1]) >= 0x80 or t[:1] == "\x1e"
def tight(a, b):
    """May b follow a directly?"""
    x, y = a[-1], b[0]
    aw = x.isalnum() or x == "_" or ord(x) >= 0x80; bw = y.isalnum() or y == "_" or ord(y) >= 0x80
    num = a[0].isdigit() or a[0] == "." and len(a) > 1 and a[1].isdigit()
    if num: return not bw and y != "."
    if aw and bw: return False
    if aw and y == "." : return True
    if aw or bw: return not (x in ".@%$" and y.isdigit()) and not (x == "." and y == ".")
    if x in "(){},;]" or y in "(){},;": return not (a[-1] == "?" )
    if x in "\"'": return y not in "\"'["
    return False

def layout(stmts, r, style=None, lang="pico8"): return "".join(layout_parts(stmts, r, style, lang))
def layout_parts(stmts, r, style=None, lang="pico8"):
    """-> source text, cut where a statement of the program starts.  style: how much air there is"""
    style = style or r.choice(("normal", "tight", "airy", "comments"))
    out = []; prev = ""; short = 0; need_nl = False; cuts = []; real = ""; nlsep = False
    def comment(nl):
        txt = r.choice(("", "keep: x", "keep: y]", "keep:", " hi", "x=1", " todo: end", " \"quote", " [[", " it's", "--", " $x", "[ x", " é"))
        if nl and r.random() < 0.6: return ("--" if lang != "pico8" or r.random() < 0.8 else "//") + txt.replace("é", "\x8b" if lang == "pico8" else "\xc3\xa9") + "\n" if not txt.startswith("[") or True and txt == "[ x" else "--" + "\n"
        eq = "=" * r.choice((0, 0, 1)); txt = r.choice(("", "keep: x", "x", " a comment ", " end ", "--", " \"'", "2"))
        if nl and r.random() < 0.3: txt += "\n" + txt
        return "--[%s[%s]%s]" % (eq, txt, eq)
    for st in stmts:
        cuts.append(len(out))
        for t in st:
            if isinstance(t, On): short += 1; continue
            if isinstance(t, Off): short -= 1; continue
            if isinstance(t, Nl): need_nl = True; continue
            if isinstance(t, Stmt):
                if not short and prev: out.append({"tight": r.choice(("", "", "\n")), "normal": "\n", "airy": r.choice(("\n", "\n\n", " ", "\n  ")), "comments": r.choice(("\n", " "))}[style]); prev = "\n" if out[-1].startswith("\n") else prev + (" " if out[-1] == " " else "")
                if need_nl: out.append("\n"); need_nl = False; prev = "\n"; nlsep = True
                if style == "comments" and r.random() < 0.15 and not short:
                    if prev and prev[-1:] not in " \n": out.append(" ")
                    out.append(comment(True)); prev = "\n" if out[-1].endswith("\n") else ")"
                continue
            if need_nl: out.append("\n"); need_nl = False; prev = "\n"; nlsep = True
            if isinstance(t, Raw):
                if prev and prev[-1] not in " \n": out.append(" ")
                out.append(t); prev = "\n" if t.endswith("\n") else " "; continue
            if isinstance(t, Semi) and (nlsep or real in ("end", "then", "do", "else", "nil", "true", "false", ";", "") or real[:1].isdigit()) and r.random() < 0.7: continue
            real = t; nlsep = False
            if prev and prev[-1] not in " \n":
                ok = tight(prev, t)
                sp = {"tight": 0.05, "normal": 0.5, "airy": 0.8, "comments": 0.5}[style]
                if not ok or r.random() < sp:
                    nlok = not short and not t.startswith(("__", "#")) and t not in ("(",) and prev not in ("return", "break", "goto")
                    if style == "comments" and r.random() < 0.05 and prev != "-" and t != "-": out.append(" " + comment(nlok)); out.append(" " if out[-1][-1] != "\n" else "")
                    elif style == "airy" and nlok and r.random() < 0.06: out.append(r.choice(("\n", "\n\t", " \n ")))
                    else: out.append(r.choice((" ", " ", " ", "  ", "\t")) if style == "airy" else " ")
            elif prev == "\n" and t.startswith(("__", "#")): out.append(" ")
            out.append(t); prev = t
    out.append("\n"); cuts = cuts[1:] + [len(out)]; a = 0; parts = []
    for c in cuts: parts.append("".join(out[a:c])); a = c
    return parts
