"""C16: a cart minified fully behaves like the original if it keeps to the documented assumptions, or says how it does not"""
from .. import cosim
from ..cosim import describe, execute, key, shrink
from . import C15

def gen(r, ctx, i):
    if i == 0: return cosim.known(r, "-m")
    p8 = r.random() >= cosim.TRON
    fo = r.choice(cosim.FOCUS) if p8 else []
    safe = [[o] for o in cosim.SAFE if r.random() < 0.12]
    meta_ok = "--focus-tokens" not in fo or ["--reorder-safe-only"] in safe
    same = r.random() < 0.15
    consts = const_args(r, p8) if r.random() < 0.25 else []
    spec, preserve = cosim.base(r, "full", "pico8" if p8 else "picotron", meta_ok, consts, same)
    tool = "shrinko8" if p8 else "shrinkotron"
    opts = [[r.choice(("-m", "--minify"))]] + [[o] for o in fo] + safe + [[o] for o in cosim.NOMIN if r.random() < 0.08 and not (consts and o == "--no-minify-consts")]
    for n, v in consts: opts.append(["--str-const" if isinstance(v, str) else "--const", n, cosim.literal(v) if not isinstance(v, str) else v])
    keep = sorted(set(preserve)) + (["*=*.*"] if same else [])
    if keep:
        r.shuffle(keep)
        if r.random() < 0.3: spec["chunks"] = ["--$preserve: %s\n" % r.choice((", ", ",", " ")).join(keep)] + spec["chunks"]
        else: opts.append([r.choice(("-p", "--preserve")), r.choice((",", ", ")).join(keep)])
    if r.random() < 0.08: opts.append(["--rename-map", "map.txt"])
    if r.random() < 0.04: opts.append(["-c"])
    r.shuffle(opts)
    cosim.add_step(spec, r, opts, tool)
    if r.random() < 0.15: cosim.add_step(spec, r, C15.minify(r, p8), tool)      # (the hints are gone by now)
    return spec

def const_args(r, p8=True):
    out = []
    more = () if p8 else (2.0, 1e22, 1 << 40, -(1 << 62), 0.1, 1e-7, -0.001, 9007199254740993, "\u00e9", "a\u20acb")
    for n in r.sample(["debug", "max_speed", "version", "k_x", "lim"], r.choice((1, 1, 2, 3))):
        out.append((n, r.choice((True, False, r.randrange(100), r.choice((0.5, 2.25, -3, 32767.75, -0.5, 0x7fff)), "v1.2", "", "a b", "it's") + more)))
    return out
