"""C15: a cart minified safely behaves like the original"""
from .. import cosim
from ..cosim import describe, execute, key, shrink

def gen(r, ctx, i):
    if i == 0: return cosim.known(r, "-M")
    if r.random() < cosim.TRON:
        spec, _ = cosim.base(r, "safe", "picotron"); tool = "shrinkotron"
    else:
        spec, _ = cosim.base(r, "safe"); tool = "shrinko8"
    for n in range(r.choice((1, 1, 1, 2))):
        cosim.add_step(spec, r, minify(r, tool == "shrinko8"), tool)
    return spec

def minify(r, p8=True):
    if r.random() < 0.06: return [["--minify-consts-only"], ["--builtins-safe-only"]]
    k = r.randrange(5)
    opts = [["-M"]] if k <= 1 else [["--minify-safe-only"]] if k <= 3 else [["-m"]] + [[o] for o in cosim.SAFE]
    if p8: opts += [[o] for o in r.choice(cosim.FOCUS)]
    for o in cosim.NOMIN:
        if r.random() < 0.1: opts.append([o])
    if r.random() < 0.1: opts.append(["--rename-map", "map.txt"])
    if r.random() < 0.05: opts.append(["-l", "--no-lint-fail"])
    if r.random() < 0.05: opts.append(["-c"])
    return opts
