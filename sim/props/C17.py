"""C17: unminified code behaves like the original, also when it is minified before or afterwards"""
from .. import cosim
from ..cosim import describe, execute, key, shrink
from . import C15

def gen(r, ctx, i):
    if i == 0: return cosim.known(r, "-U", "-M")
    p8 = r.random() >= cosim.TRON; tool = "shrinko8" if p8 else "shrinkotron"; mode = r.choice(("safe", "safe", "full"))
    spec, preserve = cosim.base(r, mode, "pico8" if p8 else "picotron")
    k = r.random()
    if k < 0.25: cosim.add_step(spec, r, C15.minify(r, p8), tool)
    cosim.add_step(spec, r, unminify(r), tool)
    if k > 0.85: cosim.add_step(spec, r, unminify(r), tool)
    elif k > 0.65: cosim.add_step(spec, r, full(r, preserve) if mode == "full" and r.random() < 0.7 else C15.minify(r, p8), tool)
    return spec

def unminify(r):
    opts = [[r.choice(("-U", "--unminify"))]]
    if r.random() < 0.4: opts.append(["--unminify-indent", r.choice(("0", "1", "4", "8", "tabs"))])
    if r.random() < 0.05: opts.append(["-c"])
    return opts

def full(r, preserve):
    """(the hints survive being unminified)"""
    return [["-m"]] + [[o] for o in cosim.NOMIN if r.random() < 0.08] + ([["-p", ",".join(sorted(set(preserve)))]] if preserve else [])
