"""What N01 and N06 share: every module and loss, every configuration of it, every way of running it."""
from nnsem import *
import multiprocessing
from rules import tcommon

_c = {}
_j = {}
RANKS = (2, 3, 4, 5)
SIZES = (1, 2, 3)


def one(ty):
    """every configuration of one type and every run of its methods: [(config name, value, facts, world, parameters result,
    [(method, path, arguments, mode, rank, outcomes)], where)], loops not followed"""
    p, rnd, nondiff, meths = _j["p"], _j["rnd"], _j["nondiff"], _j["mods"][ty]
    und = []
    cfgs = []
    for size in SIZES:
        SIZE[0] = size
        sized(p, ty, meths, rnd, nondiff, cfgs, und)
    return cfgs, und


def sized(p, ty, meths, rnd, nondiff, cfgs, und):
    w = World()
    seen = {}
    for rank in (2, 3):
        for c, combo, v, facts in configs(p, ty, w, rank):
            nm = "%s(%s)" % (c.rsplit("::", 1)[1], ", ".join(show(x) for x in combo))
            seen.setdefault(nm, (v, facts, c, combo))
    for nm, (v, facts, c, combo) in sorted(seen.items()):
        pr = run(p, NRule(p, w), meths["parameters"], (), facts, v)
        runs = []
        ms = [("forward", meths["forward"])] + sorted(
            (k.rsplit("::", 1)[1], k) for k, f in p.fns.items()
            if k.startswith(strip_gen(ty) + "::") and k.count("::") == strip_gen(ty).count("::") + 1 and f.d.get("pub")
            and f.argc > 1 and TEN in f.locals[0][0] and f.locals[1][0].startswith("&") and
            strip_gen(f.locals[1][0].lstrip("&").replace("mut ", "")) == strip_gen(ty))
        for m, path in ms:
            f = p.fns[path]
            n = [0]

            def tensor():
                n[0] += 1
                return w.make("input", (C(n[0]),), True, "input%d" % n[0], "D" if n[0] == 1 else "U%d" % n[0])
            tys = [f.locals[i + 1][0] for i in range(1, f.argc)]
            for ai, combo2 in enumerate(itertools.product(*[choices(p, x, tensor) for x in tys])):
                for mode in ("Training", "Evaluation"):
                    for rank in RANKS:
                        rule = NRule(p, w, mode, rank, rnd, nondiff)
                        try:
                            o = run(p, rule, path, combo2, facts, v, budget=60000, seconds=60)
                        except CheckError as e:
                            und.append("%s %s.%s: %s" % (ty, nm, m, e))
                            continue
                        runs.append((m, path, combo2, mode, rank, o))
        cfgs.append((nm, v, facts, w, pr, runs, p.fns[c].loc))


def world():
    """(program, {type: its configurations and runs}, loops not followed, operations no gradient passes)"""
    if _c:
        return _c["r"]
    p = program()
    mods = modules(p, "hodu_nn::module::Module")
    _j.update(p=p, mods=mods, rnd=random_ops(p), nondiff=frozenset(tcommon.data()[2]))
    und, out = [], {}
    with multiprocessing.get_context("fork").Pool(8) as pool:
        for ty, (cfgs, u) in zip(sorted(mods), pool.map(one, sorted(mods), chunksize=1)):
            out[ty] = cfgs
            und += u
    _c["r"] = (p, out, und, _j["nondiff"])
    return _c["r"]


def show(x):
    if is_c(x):
        return str(x[1])
    if x[0] == "adt":
        return x[2] + ("(%s)" % show(x[3][0]) if x[3] else "")
    if x[0] in ("tup", "vec", "arr"):
        return "[%s]" % ", ".join(show(y) for y in x[1])
    if x[0] == "tn":
        return "tensor"
    return "_"


def gradnode(w, facts, n):
    for f in facts:
        if f[0] == "grad" and f[1] == n:
            return f[2]
    return w.info[n][2]


def graddeps(w, facts, v):
    """tensors a gradient of v reaches"""
    out, st = set(), [x[1] for x in leaves(v) if x[0] == "tn"]
    while st:
        n = st.pop()
        if n in out or not gradnode(w, facts, n):
            continue
        out.add(n)
        st += [x[1] for a in w.info[n][1] for x in leaves(a) if x[0] == "tn"]
    return out
