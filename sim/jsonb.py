"""JSON with bytes and tuples"""
import base64, json

def _enc(o):
    if isinstance(o, (bytes, bytearray)):
        try:
            s = bytes(o).decode("ascii")
            if all(c in "\n\t" or " " <= c <= "~" for c in s): return {"$t": s}
        except UnicodeDecodeError: pass
        return {"$b": base64.b64encode(bytes(o)).decode()}
    if isinstance(o, dict):
        if all(isinstance(k, str) and not k.startswith("$") for k in o): return {k: _enc(v) for k, v in o.items()}
        return {"$d": [[_enc(k), _enc(v)] for k, v in o.items()]}
    if isinstance(o, tuple): return {"$u": [_enc(x) for x in o]}
    if isinstance(o, (set, frozenset)): return {"$s": [_enc(x) for x in sorted(o)]}
    if isinstance(o, list): return [_enc(x) for x in o]
    return o

def _dec(o):
    if isinstance(o, dict):
        if len(o) == 1:
            (k, v), = o.items()
            if k == "$t": return v.encode("ascii")
            if k == "$b": return base64.b64decode(v)
            if k == "$d": return {_dec(a): _dec(b) for a, b in v}
            if k == "$u": return tuple(_dec(x) for x in v)
            if k == "$s": return set(_dec(x) for x in v)
        return {k: _dec(v) for k, v in o.items()}
    if isinstance(o, list): return [_dec(x) for x in o]
    return o

def dumps(o, **kw): return json.dumps(_enc(o), ensure_ascii=True, **kw)
def loads(s): return _dec(json.loads(s))
