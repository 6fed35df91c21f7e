"""Independent model of Picotron carts: a map from paths to contents, pod values, and the storage formats"""
import base64, io, re, struct
from .ref8 import lz4_decode, lz4_encode, Bad

# a cart is a dict: path -> bytes, or None for a directory (whose path ends in "/")
LABELS = ("label.qoi", "label.png")

class UD:
    """A userdata value"""
    def __init__(m, type, w, h, data): m.t = (type, w, h, data)
    def __eq__(m, o): return isinstance(o, UD) and m.t == o.t
    def __hash__(m): return hash(m.t)
    def __repr__(m): return "UD%r" % (m.t,)

# ---- pod text ----
class P:
    def __init__(m, s, uds): m.s = s; m.i = 0; m.uds = list(uds)
    def ws(m):
        while m.i < len(m.s) and m.s[m.i] in b" \t\r\n": m.i += 1
    def peek(m, t):
        m.ws(); return m.s.startswith(t, m.i)
    def eat(m, t):
        if not m.peek(t): raise Bad("pod: expected %r at %r" % (t, m.s[m.i:m.i + 20]))
        m.i += len(t)
    def word(m):
        m.ws(); k = re.compile(rb"[A-Za-z_][A-Za-z0-9_]*").match(m.s, m.i)
        if not k: return None
        return k.group()
    def string(m):
        q = m.s[m.i]; m.i += 1; out = bytearray()
        while True:
            if m.i >= len(m.s): raise Bad("pod: string end")
            c = m.s[m.i]; m.i += 1
            if c == q: return bytes(out)
            if c != 92:
                out.append(c); continue
            c = m.s[m.i]; m.i += 1
            simple = {ord("a"): 7, ord("b"): 8, ord("f"): 12, ord("n"): 10, ord("r"): 13, ord("t"): 9, ord("v"): 11, 92: 92, 34: 34, 39: 39, 10: 10}
            if c in simple: out.append(simple[c])
            elif c == ord("x"): out.append(int(m.s[m.i:m.i + 2], 16)); m.i += 2
            elif c == ord("z"):
                while m.i < len(m.s) and m.s[m.i] in b" \t\r\n": m.i += 1
            elif 48 <= c <= 57:
                k = re.compile(rb"[0-9]{1,3}").match(m.s, m.i - 1); v = int(k.group()); m.i = k.end()
                if v > 255: raise Bad("pod: escape")
                out.append(v)
            elif c == ord("u"):
                k = re.compile(rb"\{([0-9a-fA-F]+)\}").match(m.s, m.i); out += chr(int(k.group(1), 16)).encode("utf-8"); m.i = k.end()
            else: raise Bad("pod: escape %r" % chr(c))
    def num(m):
        k = re.compile(rb"0[xX][0-9a-fA-F]*\.?[0-9a-fA-F]*(?:[pP][+-]?[0-9]+)?|(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][+-]?[0-9]+)?").match(m.s, m.i)
        if not k or not k.group(): raise Bad("pod: number at %r" % m.s[m.i:m.i + 20])
        m.i = k.end(); t = k.group().decode().lower()
        if t.startswith("0x"):
            if "." in t or "p" in t: return float.fromhex(t)
            v = int(t, 16) & (1 << 64) - 1
            return v - (1 << 64) if v >> 63 else v
        if "." in t or "e" in t: return float(t)
        v = int(t)
        return v if v < 1 << 63 else float(v)
    def value(m):
        m.ws()
        if m.i >= len(m.s): raise Bad("pod: empty")
        c = m.s[m.i:m.i + 1]
        if c in (b'"', b"'"): return m.string()
        if m.s.startswith(b"[[", m.i):
            j = m.s.find(b"]]", m.i); r = m.s[m.i + 2:j]; m.i = j + 2; return r[1:] if r.startswith(b"\n") else r
        if c == b"{": return m.table()
        if c == b"-": m.i += 1; m.ws(); v = m.num(); return -v
        if c == b"(": m.i += 1; v = m.value(); m.eat(b")"); return v
        w = m.word()
        if w is None: return m.num()
        m.i += len(w)
        if w == b"nil": return None
        if w == b"true": return True
        if w == b"false": return False
        if w in (b"userdata", b"unpod"):
            m.eat(b"("); args = []
            while not m.peek(b")"):
                args.append(m.value())
                if m.peek(b","): m.eat(b",")
            m.eat(b")")
            if w == b"unpod": return decode_pod(args[0])
            if not args:
                if not m.uds: raise Bad("pod: stray userdata()")
                return m.uds.pop(0)
            if len(args) == 3: return UD(args[0], args[1], 0, args[2])
            return UD(*args)
        raise Bad("pod: word %r" % w)
    def table(m):
        m.eat(b"{"); out = {}; idx = 1
        while not m.peek(b"}"):
            m.ws()
            if m.s.startswith(b"[", m.i) and not m.s.startswith(b"[[", m.i):
                m.i += 1; k = m.value(); m.eat(b"]"); m.eat(b"="); v = m.value()
            else:
                k0 = re.compile(rb"([A-Za-z_][A-Za-z0-9_]*)\s*=(?!=)").match(m.s, m.i)
                if k0: k = k0.group(1); m.i = k0.end(); v = m.value()
                else: k = idx; idx += 1; v = m.value()
            if v is not None and k is not None: out[key(k)] = v
            if m.peek(b",") or m.peek(b";"): m.i += 1
            elif not m.peek(b"}"): raise Bad("pod: expected , at %r" % m.s[m.i:m.i + 20])
        m.eat(b"}")
        return out

def key(k):
    """Table keys: floats with integer values are the integers; booleans are kept apart from numbers"""
    if isinstance(k, bool): return ("bool", k)
    if isinstance(k, float) and k == int(k): return int(k)
    return k

def read_pxu(b, i):
    def u8():
        nonlocal i
        i += 1; return b[i - 1]
    def u(n):
        nonlocal i
        i += n; return int.from_bytes(b[i - n:i], "little")
    assert b[i:i + 4] == b"pxu\0"; i += 4
    fl = u(2); t = fl & 15; comp = fl >> 12
    if t not in (3, 12): raise Bad("pxu type %d" % t)
    w = u(4) if fl & 0x800 else u8(); h = (u(4) if fl & 0x800 else u8()) if fl & 0x40 else 1
    n = w * h; rd = u8 if t == 3 else (lambda: u(2)); data = []
    if comp == 1: data = [rd() for _ in range(n)]
    elif comp in (2, 8):
        bits = u8()
        mask = (1 << bits) - 1; full = 1 << (8 - bits)
        mapping = list(range(mask)); mtf = list(range(mask))
        while len(data) < n:
            c = u8(); k = c & mask
            if k == mask:
                v = rd()
                if bits: mapping[mtf[-1]] = v
            else:
                mtf.remove(k); mtf.insert(0, k)
                v = mapping[k]
            cnt = 1 + (c >> bits)
            if cnt == full:
                while True:
                    x = u8(); cnt += x
                    if x != 255: break
            data += [v] * cnt
        if len(data) != n: raise Bad("pxu: run past the end")
    else: raise Bad("pxu compression %d" % comp)
    hexd = "".join("%0*x" % (2 if t == 3 else 4, v) for v in data).encode()
    return UD(b"u8" if t == 3 else b"i16", w, h if fl & 0x40 else 0, hexd), i

def write_pxu_plain(ud):
    """Uncompressed pxu form of a userdata"""
    t, w, h, d = ud.t
    k = {b"u8": 3, b"i16": 12}[t]
    long = w > 255 or h > 255
    out = b"pxu\0" + struct.pack("<H", k | (0x40 if h else 0) | (0x800 if long else 0) | 1 << 12)
    out += struct.pack("<I" if long else "<B", w)
    if h: out += struct.pack("<I" if long else "<B", h)
    s = 2 if k == 3 else 4
    for i in range(0, len(d), s): out += int(d[i:i + s], 16).to_bytes(s // 2, "little")
    return out

def decode_pod(b):
    if b.startswith(b"b64:"): b = b64(b[4:])
    if b.startswith(b"lz4\0"):
        n, un = struct.unpack("<II", b[4:12])
        if len(b) != 12 + n: raise Bad("pod: lz4 size")
        b = lz4_decode(b[12:12 + n])
        if len(b) != un: raise Bad("pod: lz4 length")
    uds = []; out = b""; i = 0
    while True:
        j = b.find(b"pxu\0", i)
        if j < 0: out += b[i:]; break
        out += b[i:j]
        ud, i = read_pxu(b, j)
        out += b"userdata()"; uds.append(ud)
    p = P(out, uds)
    v = p.value(); p.ws()
    if p.i != len(p.s) or p.uds: raise Bad("pod: stray text")
    return v

def b64(d):
    """Base64 in either alphabet, padding optional"""
    d = d.translate(bytes.maketrans(b"_-", b"+/")).rstrip(b"=")
    return base64.b64decode(d + b"=" * (-len(d) % 4), validate=True)

def canon(data):
    """What a file holds: ('dir',) / ('raw', bytes) / ('pod', raw metadata, value)"""
    if data is None: return ("dir",)
    if not data.startswith(b"--[[pod") or data.startswith(b'--[[pod_format="raw"'): return ("raw", data)
    j = data.find(b"]]")
    if j < 0: return ("raw", data)
    return ("pod", data[4:j], frz(decode_pod(data[j + 2:])))

def frz(v):
    """Comparable form: int and float are told apart, table order is not"""
    if isinstance(v, dict): return ("t", frozenset((frz(k), frz(x)) for k, x in v.items()))
    if isinstance(v, bool): return ("b", v)
    if isinstance(v, float): return ("f", v.hex())
    return v

def fmt_pod(v, r, pxu=None):
    """Pod text of a value, with random spelling; pxu: list collecting userdata to be spliced in binary"""
    if isinstance(v, (dict, UD, bytes)) and r.random() < 0.04:     # a pod in the pod
        return b"unpod(%s)" % fmt_str(encode_pod(v, r, r.choice(("text", "b64", "b64"))), r)
    if v is None: return b"nil"
    if v is True: return b"true"
    if v is False: return b"false"
    if isinstance(v, float): return repr(v).encode()
    if isinstance(v, int): return (b"0x%x" % v if v >= 0 and r.random() < 0.2 else b"%d" % v)
    if isinstance(v, bytes): return fmt_str(v, r)
    if isinstance(v, UD):
        if pxu is not None and v.t[0] in (b"u8", b"i16") and r.random() < 0.7: return write_pxu_plain(v)
        t, w, h, d = v.t
        return b'userdata("%s",%d,%s"%s")' % (t, w, b"%d," % h if h else b"", d)
    parts = []; idx = 1
    for k, x in v.items():
        if k == idx and not isinstance(k, bool): parts.append(fmt_pod(x, r, pxu)); idx += 1
        elif isinstance(k, bytes) and re.fullmatch(rb"[a-z_][a-z0-9_]*", k) and k not in KW: parts.append(k + b"=" + fmt_pod(x, r, pxu))
        elif isinstance(k, tuple): parts.append(b"[" + fmt_pod(k[1], r, pxu) + b"]=" + fmt_pod(x, r, pxu))
        else: parts.append(b"[" + fmt_pod(k, r, pxu) + b"]=" + fmt_pod(x, r, pxu))
    return b"{" + r.choice((b",", b", ")).join(parts) + b"}"
KW = set(b"and break do else elseif end false for function goto if in local nil not or repeat return then true until while".split())

def fmt_str(v, r):
    out = b""
    for c in v:
        if c == 34: out += b'\\"'
        elif c == 92: out += b"\\\\"
        elif c == 10: out += b"\\n"
        elif c == 13: out += b"\\r"
        elif c < 32 or c == 127: out += b"\\%03d" % c
        else: out += bytes((c,))
    return b'"' + out + b'"'

def encode_pod(v, r, mode=None):
    mode = mode or r.choice(("text", "lz4", "b64", "pxu", "pxu"))
    b = fmt_pod(v, r, [] if mode == "pxu" else None)
    if mode == "lz4" or mode in ("b64", "pxu") and r.random() < 0.5:
        c = lz4_encode(b, r); b = b"lz4\0" + struct.pack("<II", len(c), len(b)) + c
    if mode == "b64": b = b"b64:" + base64.b64encode(b).translate(bytes.maketrans(b"+/", b"_-")) if r.random() < 0.5 else b"b64:" + base64.b64encode(b)
    return b

# ---- containers ----
def nm(s): return s.encode("utf-8", "surrogateescape")

def write_p64(cart, r, eol=b"\n"):
    out = [b"picotron cartridge // www.picotron.net", b"version 2", b""]
    for p, d in cart.items():
        out.append(b":: " + nm(p))
        if d is not None:
            if re.search(rb"[\x00-\x08\x0b-\x1f\x7f-\xff]|^:: |\Ab64\$", d, re.M) or r.random() < 0.1:
                b = base64.b64encode(d)
                out += [(b"b64$" + b)[i:i + 76] for i in range(0, len(b) + 4, 76)]
            else: out += d.split(b"\n")
    return eol.join(out + [b":: [eoc]"]) + eol

def read_p64(data):
    if not data.startswith(b"picotron cartridge"): raise Bad("p64 header")
    lines = data.split(b"\n")
    if lines[-1] != b"" or len(lines) < 2: raise Bad("p64: no newline at the end")
    lines.pop()
    cart = {}; cur = None; buf = []; ended = False
    def flush():
        if cur is None: return
        if cur in cart: raise Bad("p64: %r twice" % cur)
        if cur.endswith("/"):
            if buf: raise Bad("p64: text in a directory")
            cart[cur] = None; return
        d = b"\n".join(buf)
        if d.startswith(b"b64$"): d = b64(d[4:].replace(b"\n", b""))
        cart[cur] = d
    for ln in lines:
        if ended: raise Bad("p64: text after the end")
        if ln.startswith(b":: "):
            flush(); buf = []
            cur = ln[3:].decode("utf-8", "surrogateescape")
            if cur == "[eoc]": ended = True; cur = None
        elif cur is not None: buf.append(ln)
        elif not ln.startswith((b"version ", b"picotron cartridge")) and ln: raise Bad("p64: stray line")
    if not ended: raise Bad("p64: no end")
    return cart

def write_rom(cart, r):
    out = b""
    for p, d in cart.items():
        out += nm(p) + b"\0"
        if d is not None:
            out += (bytes((len(d),)) if len(d) < 255 and r.random() < 0.9 else b"\xff" + struct.pack("<I", len(d))) + d
    c = lz4_encode(out, r)
    return b"p64\2" + struct.pack("<I", len(c)) + c

def read_rom(data, exact=True):
    if data[:3] != b"p64": raise Bad("rom64 header")
    n, = struct.unpack("<I", data[4:8])
    if len(data) < 8 + n or exact and len(data) != 8 + n: raise Bad("rom64 size")
    b = lz4_decode(data[8:8 + n]); i = 0; cart = {}
    while i < len(b):
        j = b.index(b"\0", i); p = b[i:j].decode("utf-8", "surrogateescape"); i = j + 1
        if p in cart: raise Bad("rom64: %r twice" % p)
        if p.endswith("/"): cart[p] = None; continue
        k = b[i]; i += 1
        if k == 255: k, = struct.unpack("<I", b[i:i + 4]); i += 4
        if i + k > len(b): raise Bad("rom64: file cut")
        cart[p] = b[i:i + k]; i += k
    return cart

W, H = 512, 384
def write_png(cart, r, label=None):
    """label: None or a PIL-free list of rows is not needed; the label area is a flat colour"""
    import PIL.Image
    rom = write_rom(cart, r) + bytes(4)
    if len(rom) * 8 > W * H * 11: return None
    v = int.from_bytes(rom, "little"); n = (len(rom) * 8 + 10) // 11
    px = bytearray((0x20, 0x48, 0x70, 0xfc) * (W * H))
    bits = v
    words = []
    # split a long integer into 11-bit words, in blocks to stay linear
    blk = 11 * 512
    for o in range(0, len(rom), blk // 8):
        part = int.from_bytes(rom[o:o + blk // 8], "little")
        for _ in range(512): words.append(part & 0x7ff); part >>= 11
    for i, w in enumerate(words[:W * H]):
        px[4 * i] |= w & 7; px[4 * i + 1] |= w >> 3 & 7; px[4 * i + 2] |= w >> 6 & 7; px[4 * i + 3] |= w >> 9 & 3
    im = PIL.Image.frombytes("RGBA", (W, H), bytes(px)); b = io.BytesIO(); im.save(b, "PNG", compress_level=1)
    return b.getvalue()

def png_rgba(data):
    import PIL.Image
    try:
        im = PIL.Image.open(io.BytesIO(data)); im.load()
    except Exception as e: raise Bad("png64: %s" % e)
    return im.size, im.convert("RGBA").tobytes()

def read_png(data):
    size, px = png_rgba(data)
    if size != (W, H): raise Bad("png64 size")
    out = bytearray(); acc = 0; n = 0
    def word(i): return px[4 * i] & 7 | (px[4 * i + 1] & 7) << 3 | (px[4 * i + 2] & 7) << 6 | (px[4 * i + 3] & 3) << 9
    i = 0; need = 8
    while i < W * H:
        acc |= word(i) << n; n += 11; i += 1
        while n >= 8: out.append(acc & 255); acc >>= 8; n -= 8
        if len(out) >= 8 and need == 8: need = 8 + struct.unpack("<I", out[4:8])[0]
        if len(out) >= need and need > 8: break
    return read_rom(bytes(out[:need]))

def png_label(data):
    """The label area of a cart image, without the hidden bits: bytes rgb of 480x270"""
    _, px = png_rgba(data)
    out = bytearray()
    for y in range(270):
        row = px[4 * ((38 + y) * W + 16):4 * ((38 + y) * W + 16 + 480)]
        out += row
    del out[3::4]
    return bytes(out).translate(bytes(i & ~7 for i in range(256)))

def qoi_decode(d):
    if d[:4] != b"qoif": raise Bad("qoi")
    w, h, ch, _ = struct.unpack(">IIBB", d[4:14]); i = 14
    idx = [(0, 0, 0, 0)] * 64; p = (0, 0, 0, 255); out = bytearray(); n = w * h
    cnt = 0
    while cnt < n:
        b = d[i]; i += 1
        run = 1
        if b == 0xfe: p = (d[i], d[i + 1], d[i + 2], p[3]); i += 3
        elif b == 0xff: p = tuple(d[i:i + 4]); i += 4
        elif b >> 6 == 0: p = idx[b]
        elif b >> 6 == 1: p = ((p[0] + (b >> 4 & 3) - 2) & 255, (p[1] + (b >> 2 & 3) - 2) & 255, (p[2] + (b & 3) - 2) & 255, p[3])
        elif b >> 6 == 2:
            g = (b & 63) - 32; c = d[i]; i += 1
            p = ((p[0] + g + (c >> 4) - 8) & 255, (p[1] + g) & 255, (p[2] + g + (c & 15) - 8) & 255, p[3])
        else: run = (b & 63) + 1
        idx[(p[0] * 3 + p[1] * 5 + p[2] * 7 + p[3] * 11) % 64] = p
        out += bytes(p) * run; cnt += run
    return w, h, bytes(out)

def label_rgb(name, data):
    """Pixels of a label file as rgb bytes, or None if it is not a usable label"""
    try:
        if name.endswith(".qoi"): w, h, px = qoi_decode(data)
        else: (w, h), px = png_rgba(data)
    except (Bad, IndexError, struct.error): return None
    if (w, h) != (480, 270): return None
    out = bytearray(px); del out[3::4]
    return bytes(out)

def from_snap(snap, root):
    """Cart held by a directory of the simulated file system"""
    out = {}
    for p, d in snap.items():
        if p.startswith(root + "/"): out[p[len(root) + 1:] + ("/" if d is None else "")] = d
    return out

def cart_eq(a, b, skip=()):
    """-> description of the first difference, or None"""
    for p in sorted(set(a) | set(b)):
        if p in skip: continue
        if p not in a: return "%r is extra" % p
        if p not in b: return "%r is missing" % p
        try: x, y = canon(a[p]), canon(b[p])
        except (Bad, IndexError, KeyError, ValueError) as e: return "%r cannot be decoded: %s" % (p, e)
        if x != y: return "%r differs: expected %s, found %s" % (p, str(x)[:300], str(y)[:300])
    return None

def parents(path):
    out = []; parts = path.rstrip("/").split("/")[:-1]
    for i in range(len(parts)): out.append("/".join(parts[:i + 1]) + "/")
    return out

# ---- picotron.dat ----
def write_dat(entries):
    """entries: list of bytes"""
    return b"".join(struct.pack(">I", len(e)) + e for e in entries)

def read_dat(data):
    out = []; i = 0
    while i < len(data):
        n, = struct.unpack(">I", data[i:i + 4]); i += 4
        if i + n > len(data): raise Bad("dat cut")
        out.append(data[i:i + n]); i += n
    return out
