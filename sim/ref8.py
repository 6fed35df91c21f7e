"""Independent model of Pico-8 carts and decoders/encoders for their storage formats.

Written from the format descriptions, sharing no code with the repository.  Code is kept
as a str of P8SCII characters (ord < 256)."""
import base64, hashlib, io, re, struct, zlib

CHARSET = [
    '\0', '¹', '²', '³', '⁴', '⁵', '⁶', '⁷', '⁸', '\t', '\n', 'ᵇ', 'ᶜ', '\r', 'ᵉ', 'ᶠ',
    '▮', '■', '□', '⁙', '⁘', '‖', '◀', '▶', '「', '」', '¥', '•', '、', '。', '゛', '゜']
CHARSET += [chr(i) for i in range(0x20, 0x7f)] + ['○']
CHARSET += ['█', '▒', '🐱', '⬇️', '░', '✽', '●', '♥', '☉', '웃', '⌂', '⬅️', '😐', '♪', '🅾️', '◆',
            '…', '➡️', '★', '⧗', '⬆️', 'ˇ', '∧', '❎', '▤', '▥']
CHARSET += list('あいうえおかきくけこさしすせそたちつてとなにぬねのはひふへほまみむめもやゆよらりるれろわをんっゃゅょ'
                'アイウエオカキクケコサシスセソタチツテトナニヌネノハヒフヘホマミムメモヤユヨラリルレロワヲンッャュョ◜◝')
assert len(CHARSET) == 256
INV = {c: i for i, c in enumerate(CHARSET)}
MAXLEN = max(len(c) for c in CHARSET)
UNICAPS = {chr(0x1d622 + i): chr(ord('A') + i) for i in range(26)}   # italic capitals used by copy/paste

def to_unicode(code): return "".join(CHARSET[ord(c)] for c in code)

def from_unicode(text):
    out = []; i = 0
    while i < len(text):
        for n in range(min(MAXLEN, len(text) - i), 0, -1):
            s = text[i:i + n]
            if s in INV: out.append(chr(INV[s])); i += n; break
        else:
            if text[i] in UNICAPS: out.append(UNICAPS[text[i]])
            else: out += [chr(b) for b in text[i].encode("utf-8", "surrogateescape")]
            i += 1
    return "".join(out)

def empty_rom():
    rom = bytearray(0x4300)
    for i in range(64):
        rom[0x3200 + i * 68 + 65] = 1 if i == 0 else 16
        for ch in range(4): rom[0x3100 + i * 4 + ch] = 0x41 + ch
    return rom

class Cart:
    def __init__(m, code="", rom=None, label=None, meta=None, version=42):
        m.code = code; m.rom = bytearray(rom if rom is not None else empty_rom())
        m.label = bytearray(label) if label is not None else None
        m.meta = {k: list(v) for k, v in (meta or {}).items()}; m.version = version
    def copy(m): return Cart(m.code, m.rom, m.label, m.meta, m.version)
    SECT = {"gfx": (0, 0x2000), "map": (0x2000, 0x3000), "gff": (0x3000, 0x3100), "music": (0x3100, 0x3200), "sfx": (0x3200, 0x4300)}
    def sect(m, n): a, b = m.SECT[n]; return bytes(m.rom[a:b])
    def labelkey(m): return bytes(m.label) if m.label is not None and any(m.label) else None
    def diff(m, o, code=True, rom=True, label=True, meta=True, version=True):
        """Names of the parts in which two carts differ"""
        d = []
        if code and m.code != o.code: d.append("code")
        if rom:
            for n in m.SECT:
                if m.sect(n) != o.sect(n): d.append(n)
        if label and m.labelkey() != o.labelkey(): d.append("label")
        if meta and m.meta != o.meta: d.append("meta")
        if version and m.version != o.version: d.append("version")
        return d

HEX = "0123456789abcdef"
XHEX = "0123456789abcdefghijklmnopqrstuv"

def write_p8(cart, trim=True, eol="\n", sections=("lua", "gfx", "map", "gff", "sfx", "music", "label", "meta"), order=None, header=True):
    """-> bytes of a p8 file"""
    rom = cart.rom; d = empty_rom()
    def need(n, f):
        if not trim: return n
        while n and f(n - 1): n -= 1
        return n
    parts = {}
    parts["lua"] = ["__lua__"] + to_unicode(cart.code).split("\n")
    n = need(128, lambda y: rom[y * 64:y * 64 + 64] == d[y * 64:y * 64 + 64])
    if n: parts["gfx"] = ["__gfx__"] + ["".join(HEX[b & 15] + HEX[b >> 4] for b in rom[y * 64:y * 64 + 64]) for y in range(n)]
    n = need(32, lambda y: not any(rom[0x2000 + y * 128:0x2000 + y * 128 + 128]))
    if n: parts["map"] = ["__map__"] + [rom[0x2000 + y * 128:0x2000 + y * 128 + 128].hex() for y in range(n)]
    n = need(2, lambda y: not any(rom[0x3000 + y * 128:0x3000 + y * 128 + 128]))
    if n: parts["gff"] = ["__gff__"] + [rom[0x3000 + y * 128:0x3000 + y * 128 + 128].hex() for y in range(n)]
    def sfx(i):
        s = rom[0x3200 + i * 68:0x3200 + i * 68 + 68]
        out = s[64:68].hex()
        for k in range(32):
            v = s[2 * k] | s[2 * k + 1] << 8
            pitch, wave, vol, eff, custom = v & 63, v >> 6 & 7, v >> 9 & 7, v >> 12 & 7, v >> 15
            out += "%02x%x%x%x" % (pitch, wave | custom << 3, vol, eff)
        return out
    n = need(64, lambda y: rom[0x3200 + y * 68:0x3200 + y * 68 + 68] == d[0x3200 + y * 68:0x3200 + y * 68 + 68])
    if n: parts["sfx"] = ["__sfx__"] + [sfx(i) for i in range(n)]
    def mus(i):
        c = rom[0x3100 + i * 4:0x3100 + i * 4 + 4]
        return "%02x %s" % (sum((c[k] >> 7) << k for k in range(4)), bytes(b & 127 for b in c).hex())
    n = need(64, lambda y: rom[0x3100 + y * 4:0x3104 + y * 4] == d[0x3100 + y * 4:0x3104 + y * 4])
    if n: parts["music"] = ["__music__"] + [mus(i) for i in range(n)]
    if cart.label is not None and any(cart.label):
        parts["label"] = ["__label__"] + ["".join(XHEX[b] for b in cart.label[y * 128:y * 128 + 128]) for y in range(128)]
    if cart.meta:
        parts["meta"] = []
        for k, v in cart.meta.items(): parts["meta"] += ["__meta:%s__" % k] + v
    lines = []
    if header: lines = ["pico-8 cartridge // http://www.pico-8.com", "version %d" % cart.version]
    for s in (order or sections):
        if s in parts and s in sections: lines += parts[s]
    return (eol.join(lines) + eol).encode("utf-8", "surrogateescape")

class Bad(Exception): pass

def parse_p8(data):
    text = data.decode("utf-8", "surrogateescape")
    if not text.startswith("pico-8 cartridge") : raise Bad("no p8 header")
    cart = Cart(version=None)
    sec = None; code = []; seen = {}
    lines = text.split("\n")
    if lines[-1] == "": lines.pop()
    else: raise Bad("no newline at the end")
    if len(lines) < 2 or not re.fullmatch(r"version \d+", lines[1]): raise Bad("no version line")
    cart.version = int(lines[1][8:])
    rows = {}
    for ln in lines[2:]:
        m = re.fullmatch(r"__(lua|gfx|map|gff|sfx|music|label|meta:.*)__", ln)
        if m and not (sec == "lua" and m.group(1) == "lua"):
            sec = m.group(1)
            if sec in rows: raise Bad("section twice: " + sec)
            rows[sec] = []
            continue
        if sec is None: raise Bad("text before first section")
        rows[sec].append(ln)
    cart.code = from_unicode("\n".join(rows.get("lua", []))) if "lua" in rows else None
    rom = cart.rom
    def fixed(sec, maxn, width, alphabet=HEX):
        out = rows.get(sec, [])
        if len(out) > maxn: raise Bad("too many lines in " + sec)
        for r in out:
            if len(r) != width or any(c not in alphabet for c in r): raise Bad("bad line in %s" % sec)
        return out
    for y, r in enumerate(fixed("gfx", 128, 128)):
        for x in range(64): rom[y * 64 + x] = int(r[2 * x], 16) | int(r[2 * x + 1], 16) << 4
    for y, r in enumerate(fixed("map", 32, 256)): rom[0x2000 + y * 128:0x2000 + y * 128 + 128] = bytes.fromhex(r)
    for y, r in enumerate(fixed("gff", 2, 256)): rom[0x3000 + y * 128:0x3000 + y * 128 + 128] = bytes.fromhex(r)
    for i, r in enumerate(fixed("sfx", 64, 168)):
        b = 0x3200 + i * 68
        rom[b + 64:b + 68] = bytes.fromhex(r[:8])
        for k in range(32):
            g = r[8 + 5 * k:13 + 5 * k]
            w = int(g[2], 16)
            v = int(g[:2], 16) | (w & 7) << 6 | int(g[3], 16) << 9 | int(g[4], 16) << 12 | (w >> 3) << 15
            rom[b + 2 * k] = v & 255; rom[b + 2 * k + 1] = v >> 8
    for i, r in enumerate(fixed("music", 64, 11, HEX + " ")):
        f = int(r[:2], 16); ids = bytes.fromhex(r[3:])
        for k in range(4): rom[0x3100 + 4 * i + k] = ids[k] | (f >> k & 1) << 7
    if "label" in rows:
        lab = fixed("label", 128, 128, XHEX)
        if len(lab) != 128: raise Bad("short label")
        cart.label = bytearray(XHEX.index(c) for r in lab for c in r)
    for k, v in rows.items():
        if k.startswith("meta:"): cart.meta[k[5:]] = v
    return cart

# ---- code compression ----
OLD_TABLE = [None] + list("\n 0123456789abcdefghijklmnopqrstuvwxyz!#%(){}[]<>+=/*:;.,~_")

class Bits:
    def __init__(m, data): m.d = data; m.i = 0
    def bits(m, n):
        v = 0
        for k in range(n):
            if m.i >> 3 >= len(m.d): raise Bad("compressed code ends early")
            v |= (m.d[m.i >> 3] >> (m.i & 7) & 1) << k; m.i += 1
        return v

def decode_code(data):
    """data: the code area -> (code, size used)"""
    if data[:4] == b"\0pxa":
        n, size = struct.unpack(">HH", data[4:8])
        b = Bits(data[8:]); mtf = list(range(256)); out = []
        while len(out) < n:
            if b.bits(1):
                e = 0
                while b.bits(1): e += 1
                i = b.bits(4 + e) + ((1 << e) - 1 << 4)
                c = mtf.pop(i); mtf.insert(0, c); out.append(c)
            else:
                ol = (5 if b.bits(1) else 10) if b.bits(1) else 15
                o = b.bits(ol) + 1
                if ol == 10 and o == 1:
                    while True:
                        c = b.bits(8)
                        if c == 0: break
                        out.append(c)
                else:
                    l = 3
                    while True:
                        p = b.bits(3); l += p
                        if p != 7: break
                    for _ in range(l):
                        if o > len(out): raise Bad("offset")
                        out.append(out[-o])
        used = 8 + (b.i + 7) // 8
        if len(out) != n: raise Bad("length mismatch")
        if used != size: raise Bad("compressed size field %d, used %d" % (size, used))
        return "".join(map(chr, out)), used
    if data[:4] == b":c:\0":
        n, z = struct.unpack(">HH", data[4:8])
        if z: raise Bad("old header")
        i = 8; out = []
        while True:
            if len(out) >= n and data[i:i + 2] == b"\0\0": i += 2; break
            if i >= len(data): break
            c = data[i]; i += 1
            if c == 0:
                if i >= len(data): raise Bad("ends early")
                c2 = data[i]; i += 1
                if c2 == 0: break
                out.append(c2)
            elif c < 0x3c: out.append(ord(OLD_TABLE[c]))
            else:
                c2 = data[i]; i += 1
                l = (c2 >> 4) + 2; o = (c - 0x3c) * 16 + (c2 & 15)
                if l > o or o > len(out): raise Bad("old offset")
                for _ in range(l): out.append(out[-o])
        if len(out) not in (n, n - 1): raise Bad("old length")
        return "".join(map(chr, out)), i
    z = data.find(b"\0")
    if z < 0: z = len(data)
    return "".join(map(chr, data[:z])), z

def pack_bits(items):
    """items: list of (nbits, value) -> bytes"""
    acc = 0; n = 0
    for k, v in items: acc |= v << n; n += k
    return acc.to_bytes((n + 7) // 8, "little")

def encode_pxa(code, rng):
    """A valid compressed form of the code, with random choices of literals, matches and literal blocks"""
    items = []; mtf = [chr(i) for i in range(256)]
    i = 0; n = len(code); idx = {}
    pm = rng.choice((0.0, 0.5, 0.95, 1.0)); pb = rng.choice((0, 0, 0.02, 0.3))
    def note(a, b):
        for k in range(a, b):
            if k + 3 <= n: idx.setdefault(code[k:k + 3], []).append(k)
    while i < n:
        cands = idx.get(code[i:i + 3])
        if cands and rng.random() < pm:
            j = rng.choice(cands[-40:])
            o = i - j
            if o <= 32768:
                l = 3
                while i + l < n and code[i + l] == code[j + l] and l < 2000: l += 1
                if rng.random() < 0.2: l = rng.randint(3, l)
                if o <= 32 and rng.random() < 0.9: items += [(1, 0), (1, 1), (1, 1), (5, o - 1)]
                elif 1 < o <= 1024 and rng.random() < 0.9: items += [(1, 0), (1, 1), (1, 0), (10, o - 1)]
                elif o == 1: items += [(1, 0), (1, 1), (1, 1), (5, 0)]   # a far offset of 1 is not valid
                else: items += [(1, 0), (1, 0), (15, o - 1)]
                c = l - 3
                while c >= 7: items.append((3, 7)); c -= 7
                items.append((3, c))
                note(i, i + l); i += l; continue
        if rng.random() < pb:
            l = min(n - i, rng.randint(1, 60))
            s = code[i:i + l]
            items += [(1, 0), (1, 1), (1, 0), (10, 0)] + [(8, ord(c)) for c in s] + [(8, 0)]
            note(i, i + l); i += l; continue
        k = mtf.index(code[i]); v = k; b = 4
        items.append((1, 1))
        while v >= 1 << b: items.append((1, 1)); v -= 1 << b; b += 1
        items += [(1, 0), (b, v)]
        mtf.pop(k); mtf.insert(0, code[i]); note(i, i + 1); i += 1
    body = pack_bits(items)
    if len(body) + 8 > 0xffff: return bytes(0x10000)   # too large for any caller
    return b"\0pxa" + struct.pack(">HH", n, len(body) + 8) + body

def encode_old(code, rng):
    out = bytearray(b":c:\0" + struct.pack(">HH", len(code), 0)); i = 0; n = len(code); idx = {}
    inv = {c: k for k, c in enumerate(OLD_TABLE)}
    while i < n:
        l = 0; j = idx.get(code[i:i + 3])
        if j is not None and 3 <= i - j <= 0xc3f and rng.random() < 0.8:
            o = i - j
            while l < min(17, o) and i + l < n and code[i + l] == code[j + l]: l += 1
        if l >= 3:
            out += bytes((0x3c + (o >> 4), (o & 15) | (l - 2) << 4))
        else:
            l = 1; k = inv.get(code[i])
            out += bytes((k,)) if k else bytes((0, ord(code[i])))
        for k in range(i, i + l): idx[code[k:k + 3]] = k
        i += l
    return bytes(out) + b"\0\0"

def encode_code(code, rng, mode=None):
    raw = bytes(map(ord, code))
    mode = mode or rng.choice(("raw", "pxa", "old"))
    if mode == "raw" and len(raw) < 0x3d00: return raw
    if len(code) > 0xffff: return bytes(0x10000)   # too large for any caller
    c = encode_old(code, rng) if mode == "old" else encode_pxa(code, rng)
    return c

# ---- rom / png ----
TUPLES = {28: (0, 2, 0, 0), 29: (0, 2, 1, 0), 30: (0, 2, 2, 0), 31: (0, 2, 2, 1), 32: (0, 2, 2, 2), 33: (0, 2, 3, 0), 34: (0, 2, 4, 0),
          35: (0, 2, 4, 1), 36: (0, 2, 4, 2), 37: (0, 2, 5, 0), 38: (0, 2, 5, 2), 39: (0, 2, 5, 4), 40: (0, 2, 5, 5), 41: (0, 2, 5, 6),
          42: (0, 2, 6, 1), 43: (0, 2, 7, 0)}

def encode_rom(cart, rng, mode=None):
    c = encode_code(cart.code, rng, mode)
    if len(c) > 0x3d00: return None
    return bytes(cart.rom) + c.ljust(0x3d00, b"\0")

def decode_rom(data):
    if len(data) != 0x8000: raise Bad("rom size %#x" % len(data))
    code, _ = decode_code(data[0x4300:])
    return Cart(code, data[:0x4300], version=None)

def png_chunks(data):
    if data[:8] != b"\x89PNG\r\n\x1a\n": raise Bad("no png")
    i = 8; out = []
    while i < len(data):
        if i + 12 > len(data): raise Bad("png cut")
        n, = struct.unpack(">I", data[i:i + 4]); t = data[i + 4:i + 8]; b = data[i + 8:i + 8 + n]
        if len(b) != n or zlib.crc32(t + b) != struct.unpack(">I", data[i + 8 + n:i + 12 + n])[0]: raise Bad("png crc")
        out.append((t, b)); i += 12 + n
    if not out or out[-1][0] != b"IEND": raise Bad("png end")
    return out

def png_pixels(data):
    """-> (w, h, bytes rgba). Only 8-bit rgba/rgb non-interlaced (what the tools write)"""
    ch = png_chunks(data)
    w, h, depth, ctype, _, _, inter = struct.unpack(">IIBBBBB", ch[0][1])
    if depth != 8 or inter: raise Bad("png kind")
    bpp = {6: 4, 2: 3, 0: 1, 3: 1}[ctype]
    raw = zlib.decompress(b"".join(b for t, b in ch if t == b"IDAT"))
    if len(raw) != (w * bpp + 1) * h: raise Bad("png data size")
    prev = bytearray(w * bpp); out = bytearray()
    pos = 0
    for y in range(h):
        f = raw[pos]; line = bytearray(raw[pos + 1:pos + 1 + w * bpp]); pos += 1 + w * bpp
        if f == 1:
            for i in range(bpp, len(line)): line[i] = (line[i] + line[i - bpp]) & 255
        elif f == 2:
            for i in range(len(line)): line[i] = (line[i] + prev[i]) & 255
        elif f == 3:
            for i in range(len(line)): line[i] = (line[i] + ((line[i - bpp] if i >= bpp else 0) + prev[i] >> 1)) & 255
        elif f == 4:
            for i in range(len(line)):
                a = line[i - bpp] if i >= bpp else 0; b = prev[i]; c = prev[i - bpp] if i >= bpp else 0
                p = a + b - c; pa, pb, pc = abs(p - a), abs(p - b), abs(p - c)
                line[i] = (line[i] + (a if pa <= pb and pa <= pc else b if pb <= pc else c)) & 255
        out += line; prev = line
    if bpp == 4: return w, h, bytes(out)
    if bpp == 3: return w, h, b"".join(out[i:i + 3] + b"\xff" for i in range(0, len(out), 3))
    pal = next((b for t, b in ch if t == b"PLTE"), None); tr = next((b for t, b in ch if t == b"tRNS"), b"")
    if ctype == 3: return w, h, b"".join(pal[3 * c:3 * c + 3] + bytes((tr[c] if c < len(tr) else 255,)) for c in out)
    return w, h, b"".join(bytes((c, c, c, 255)) for c in out)

def png_write(w, h, rgba, level=1, filt=0, depth_rgb=False):
    raw = b""
    if filt == 0:
        raw = b"".join(b"\0" + rgba[y * w * 4:(y + 1) * w * 4] for y in range(h))
    else:
        rows = []
        prev = bytes(w * 4)
        for y in range(h):
            line = rgba[y * w * 4:(y + 1) * w * 4]
            rows.append(b"\2" + bytes((a - b) & 255 for a, b in zip(line, prev))); prev = line
        raw = b"".join(rows)
    def chunk(t, b): return struct.pack(">I", len(b)) + t + b + struct.pack(">I", zlib.crc32(t + b))
    return b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, 8, 6, 0, 0, 0)) + \
        chunk(b"IDAT", zlib.compress(raw, level)) + chunk(b"IEND", b"")

PAL = [0x000000, 0x1d2b53, 0x7e2553, 0x008751, 0xab5236, 0x5f574f, 0xc2c3c7, 0xfff1e8, 0xff004d, 0xffa300, 0xffec27, 0x00e436, 0x29adff,
       0x83769c, 0xff77a8, 0xffccaa, 0x291814, 0x111d35, 0x422136, 0x125359, 0x742f29, 0x49333b, 0xa28879, 0xf3ef7d, 0xbe1250, 0xff6c24,
       0xa8e72e, 0x00b543, 0x065ab5, 0x754665, 0xff6e59, 0xff9d81]
INVPAL = {((c >> 16) & ~3, (c >> 8 & 255) & ~3, (c & 255) & ~3): i for i, c in enumerate(PAL)}

def label_rgba(label):
    return b"".join(bytes((PAL[c] >> 16, PAL[c] >> 8 & 255, PAL[c] & 255, 255)) for c in label)

def rgba_label(rgba, w, ox, oy):
    out = bytearray()
    for y in range(128):
        for x in range(128):
            i = 4 * ((oy + y) * w + ox + x)
            out.append(INVPAL.get((rgba[i] & ~3, rgba[i + 1] & ~3, rgba[i + 2] & ~3), 0))
    return out

def trailer(cart, rom, platform="l", zero_hash=False):
    t = TUPLES.get(cart.version, (0, 2, 0, 0))
    return bytes((cart.version, t[0], t[1], t[2], ord(platform), t[3])) + (bytes(20) if zero_hash else hashlib.sha1(rom).digest())

def encode_png(cart, rng, mode=None, zero_hash=False, filt=0, corrupt=None, base=None):
    """A cart image made without the tool. corrupt: list of (offset, xor) applied to the hidden bytes after hashing"""
    rom = encode_rom(cart, rng, mode)
    if rom is None: return None
    data = bytearray(rom + trailer(cart, rom, zero_hash=zero_hash)); data = data.ljust(160 * 205, b"\0")
    for o, x in corrupt or (): data[o] ^= x
    px = bytearray((0x80, 0x60, 0x40, 0xff) * (160 * 205))
    if cart.label is not None:
        for y in range(128):
            for x in range(128):
                c = PAL[cart.label[y * 128 + x]]; i = 4 * ((24 + y) * 160 + 16 + x)
                px[i], px[i + 1], px[i + 2] = c >> 16, c >> 8 & 255, c & 255
    for i, b in enumerate(data):
        px[4 * i] = px[4 * i] & ~3 | b >> 4 & 3
        px[4 * i + 1] = px[4 * i + 1] & ~3 | b >> 2 & 3
        px[4 * i + 2] = px[4 * i + 2] & ~3 | b & 3
        px[4 * i + 3] = px[4 * i + 3] & ~3 | b >> 6 & 3
    return png_write(160, 205, bytes(px), filt=filt)

def decode_png(data):
    w, h, px = png_pixels(data)
    if (w, h) != (160, 205): raise Bad("png cart size")
    hid = bytes((px[4 * i] & 3) << 4 | (px[4 * i + 1] & 3) << 2 | px[4 * i + 2] & 3 | (px[4 * i + 3] & 3) << 6 for i in range(160 * 205))
    cart = decode_rom(hid[:0x8000])
    cart.version = hid[0x8000]
    t = tuple(hid[0x8001:0x8004]) + (hid[0x8005],)
    if cart.version in TUPLES and t != TUPLES[cart.version]: raise Bad("version tuple %r for id %d" % (t, cart.version))
    if hid[0x8006:0x801a] != hashlib.sha1(hid[:0x8000]).digest(): raise Bad("wrong hash written")
    cart.platform = chr(hid[0x8004])
    cart.label = rgba_label(px, 160, 16, 24)
    return cart

B64 = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_-"
def decode_url(data):
    s = data.decode("ascii")
    m = re.fullmatch(r"https://www\.pico-8-edu\.com/\?c=([A-Za-z0-9_=-]*)(?:&g=([A-Za-z0-9_-]*))?", s)
    if not m: raise Bad("url shape")
    c = m.group(1).encode().translate(bytes.maketrans(b"_-", b"+/"))
    code, _ = decode_code(base64.b64decode(c))
    cart = Cart(code, version=None)
    if m.group(2):
        g = m.group(2).encode(); i = 0; px = []
        while i < len(g):
            v = B64.index(g[i:i + 1]); i += 1
            n = (v >> 4) + 1
            if n == 4: n += B64.index(g[i:i + 1]); i += 1
            px += [v & 15] * n
        if len(px) > 128 * 128: raise Bad("url gfx too long")
        px += [0] * (128 * 128 - len(px))
        for k in range(0x2000): cart.rom[k] = px[2 * k] | px[2 * k + 1] << 4
    return cart

def encode_url(cart, rng):
    c = encode_code(cart.code, rng, rng.choice(("raw", "pxa")))
    s = "https://www.pico-8-edu.com/?c=" + base64.b64encode(c).translate(bytes.maketrans(b"+/", b"_-")).decode()
    px = []
    for k in range(0x2000): px += [cart.rom[k] & 15, cart.rom[k] >> 4]
    while px and px[-1] == 0: px.pop()
    if px:
        g = ""; i = 0
        while i < len(px):
            n = 1
            while i + n < len(px) and px[i + n] == px[i] and n < 67: n += 1
            if n > 4 and rng.random() < 0.1: n -= 1
            if n < 4: g += chr(B64[(n - 1) << 4 | px[i]])
            else: g += chr(B64[3 << 4 | px[i]]) + chr(B64[n - 4])
            i += n
        s += "&g=" + g
    return s.encode()

def decode_clip(data):
    s = data.decode("ascii")
    if not (s.startswith("[cart]") and s.endswith("[/cart]")): raise Bad("clip tags")
    return decode_png(bytes.fromhex(s[6:-7]))

def decode_tiny(data):
    code, used = decode_code(data)
    if used != len(data): raise Bad("tiny rom has %d bytes, code uses %d" % (len(data), used))
    return Cart(code, version=None)

# ---- exports ----
JS_ESC = {"n": "\n", "r": "\r", "t": "\t", "b": "\b", "f": "\f", "v": "\v", "0": "\0"}
def js_strings(t, i):
    """A list of string literals the way a browser reads it -> list, end"""
    out = []
    while True:
        while i < len(t) and t[i] in " \t\r\n,": i += 1
        if i >= len(t): raise Bad("js: unterminated list")
        if t[i] == "]": return out, i + 1
        q = t[i]; i += 1; s = ""
        if q not in "`'\"": raise Bad("js: %r instead of a string" % q)
        while True:
            if i >= len(t) or t[i] == "\n" and q != "`": raise Bad("js: unterminated string")
            c = t[i]; i += 1
            if c == q: break
            if c == "$" and q == "`" and t[i:i + 1] == "{": raise Bad("js: substitution in a string")
            if c == "\\":
                c = t[i]; i += 1
                if c in "xu":
                    k = re.compile(r"\{([0-9a-fA-F]+)\}|([0-9a-fA-F]{4})" if c == "u" else r"()([0-9a-fA-F]{2})").match(t, i)
                    if not k: raise Bad("js: escape")
                    s += chr(int(k.group(1) or k.group(2), 16)); i = k.end()
                elif c == "\n": pass
                else: s += JS_ESC.get(c, c)
            else: s += c
        out.append(s)

def decode_js(data):
    """-> list of (name, rom bytes)"""
    t = data.decode("utf-8")
    m = re.search(r"_cartname\s*=\s*\[", t)
    if not m: raise Bad("js: no _cartname")
    names, i = js_strings(t, m.end())
    m = re.search(r"_cartdat\s*=\s*\[([\s\d,]*)\]", t)
    nums = m.group(1).replace("\n", "").strip()
    buf = bytes(int(x) for x in nums.split(",")) if nums else b""
    if len(buf) != 0x8000 * len(names): raise Bad("js: %d names, %#x bytes" % (len(names), len(buf)))
    return [(n, buf[0x8000 * i:0x8000 * i + 0x8000]) for i, n in enumerate(names)]

def encode_js(carts, pre="", post="var p8_other = [1,2,3];\n", q="`"):
    t = pre + "var _cartname=[%s];\n" % ", ".join(q + n + q for n, _ in carts) + "var _cdpos=0; var iii=0; var ciii=0;\nvar _cartdat=["
    buf = b"".join(r for _, r in carts)
    t += "\n" + ",\n".join(",".join("%d" % b for b in buf[i:i + 256]) for i in range(0, len(buf), 256))
    return (t + "];\n" + post).encode("utf-8")

def lz4_decode(data):
    out = bytearray(); i = 0; last = None # last: (start, end) of the last match
    while i < len(data):
        h = data[i]; i += 1
        n = h >> 4
        if n == 15:
            while True:
                v = data[i]; i += 1; n += v
                if v != 255: break
        if i + n > len(data): raise Bad("lz4 literals cut")
        out += data[i:i + n]; i += n
        if i >= len(data):
            # a block ends with literals: the last match starts 12 bytes and ends 5 bytes before the end, or stricter decoders refuse it
            if last and (last[0] > len(out) - 12 or last[1] > len(out) - 5): raise Bad("lz4 match too close to the end")
            return bytes(out)
        o = data[i] | data[i + 1] << 8; i += 2
        c = h & 15
        if c == 15:
            while True:
                v = data[i]; i += 1; c += v
                if v != 255: break
        if not 0 < o <= len(out): raise Bad("lz4 offset")
        last = (len(out), len(out) + c + 4)
        for _ in range(c + 4): out.append(out[-o])
    if data: raise Bad("lz4 ends in a match")
    return b""

def lz4_encode(data, rng=None):
    """Valid lz4 block, greedy, with random skipping"""
    out = bytearray(); lit = bytearray(); i = 0; idx = {}; n = len(data)
    def num(v):
        r = bytearray()
        while v >= 255: r.append(255); v -= 255
        r.append(v); return r
    def block(o=None, c=0):
        l = len(lit)
        out.append(min(l, 15) << 4 | (min(c - 4, 15) if o else 0))
        if l >= 15: out.extend(num(l - 15))
        out.extend(lit); lit.clear()
        if o:
            out.extend(struct.pack("<H", o))
            if c - 4 >= 15: out.extend(num(c - 19))
    while i < n:
        k = data[i:i + 4]; j = idx.get(k)
        if j is not None and i < n - 12 and i - j <= 0xffff and (rng is None or rng.random() < 0.9):
            c = 4
            while i + c < n - 5 and data[i + c] == data[j + c]: c += 1
            block(i - j, c)
            for q in range(i, i + c): idx[data[q:q + 4]] = q
            i += c
        else:
            idx[k] = i; lit.append(data[i]); i += 1
    block()
    return bytes(out)

def pod_file(name, data, compress=False, rng=None):
    nm = name.encode("utf-8")
    if compress:
        c = lz4_encode(data, rng)
        return b"cFIL" + struct.pack("<II", 0, len(data)) + nm.ljust(64, b"\0") + struct.pack("<I", len(c)) + c
    return b"CFIL" + struct.pack("<II", 0, len(data)) + nm.ljust(64, b"\0") + data

def pod_bmp(w, h, bpp, data, compress=False):
    hd = struct.pack("<IIIIII", len(data) + 0x14, w, h, bpp, 0, 0)
    if compress:
        c = lz4_encode(data); return b"cBMP" + hd + struct.pack("<I", len(c)) + c
    return b"CBMP" + hd + data

def pod_pal(rng): return b"CPAL" + struct.pack("<I", 768) + bytes(rng.randrange(256) for _ in range(768))

def pod_pack(entries, name=""):
    return b"CPOD" + struct.pack("<II", 0x44, 1) + name.encode().ljust(32, b"\0") + struct.pack("<I", len(entries)) + bytes(0x1c) + b"".join(entries)

def pod_parse(data):
    """-> list of (kind, name or None, content bytes or (w, h, bpp, data))"""
    if data[:4] != b"CPOD": raise Bad("no CPOD")
    hs, v = struct.unpack("<II", data[4:12])
    if hs != 0x44 or v != 1: raise Bad("pod header")
    n, = struct.unpack("<I", data[0x2c:0x30]); i = 0x4c; out = []
    for _ in range(n):
        k = data[i:i + 4]
        if k in (b"CFIL", b"cFIL"):
            z, size = struct.unpack("<II", data[i + 4:i + 12]); nm = data[i + 12:i + 76].split(b"\0")[0].decode("utf-8"); i += 76
            if k == b"cFIL":
                c, = struct.unpack("<I", data[i:i + 4]); body = lz4_decode(data[i + 4:i + 4 + c]); i += 4 + c
                if len(body) != size: raise Bad("cFIL size")
            else:
                body = data[i:i + size]; i += size
                if len(body) != size: raise Bad("CFIL cut")
            out.append(("file", nm, body))
        elif k in (b"CBMP", b"cBMP"):
            size, w, h, bpp, a, b = struct.unpack("<IIIIII", data[i + 4:i + 28]); i += 28
            if k == b"cBMP":
                c, = struct.unpack("<I", data[i:i + 4]); body = lz4_decode(data[i + 4:i + 4 + c]); i += 4 + c
            else: body = data[i:i + size - 0x14]; i += size - 0x14
            if len(body) != w * h * bpp // 8 or len(body) != size - 0x14: raise Bad("bmp size")
            out.append(("bmp", None, (w, h, bpp, body)))
        elif k == b"CPAL":
            out.append(("pal", None, data[i + 8:i + 8 + 768])); i += 8 + 768
        else: raise Bad("pod entry %r" % k)
    if i != len(data): raise Bad("pod has %d stray bytes" % (len(data) - i))
    return out

def pod_carts(data): return [(n, b) for k, n, b in pod_parse(data) if k == "file" and n]

def spritesheet_png(rom):
    px = b""
    for y in range(128):
        for x in range(64):
            b = rom[y * 64 + x]
            for c in (b & 15, b >> 4): px += bytes((PAL[c] >> 16, PAL[c] >> 8 & 255, PAL[c] & 255, 255))
    return png_write(128, 128, px)
