"""N01: parameters() of a module returns its trainable tensors, each once, and each of them (and the input) feeds the result
differentiably."""
from rules.nncommon import *


def check(rep):
    p, mods, und, nondiff = world()
    nt = nr = nu = 0
    for ty, cfgs in mods.items():
        short = ty.rsplit("::", 1)[1]
        rep.ob("anchor", "ctor " + short, bool(cfgs), "no constructor of %s could be interpreted" % short, "")
        okruns = 0
        for nm, v, facts, w, pr, runs, loc in cfgs:
            held = {x[1] for x in leaves(v) if x[0] == "tn"}
            explicit = {f[1] for f in facts if f[0] == "grad"}
            train = {n for n in held if gradnode(w, facts, n)}
            nt += len(train)
            key = "%s %s" % (short, nm)
            if not pr:
                rep.ob("returned", key, False, "parameters() never returns", loc)
                continue
            for rv, _f, after in pr:
                if rv[0] not in ("vec", "arr") or any(x[0] != "tn" for x in rv[1]):
                    rep.undecided("returned|" + key, "parameters() is not a known list: %s" % (rv[0],))
                    continue
                got = [x[1] for x in rv[1]]
                miss = train - set(got)
                dup = {n for n in got if got.count(n) > 1}
                odd = {n for n in got if n not in held or n not in train and n not in explicit}
                rep.ob("returned", key, not (miss or dup or odd),
                       "parameters() of %s %s: %s" % (short, nm, "; ".join(
                           ([("%d trainable tensor(s) left out: " % len(miss)) + ", ".join(field(p, v, n) for n in sorted(miss))] if miss else []) +
                           (["returned twice: " + ", ".join(field(p, v, n) for n in sorted(dup))] if dup else []) +
                           (["returned but not trainable: " + ", ".join(field(p, v, n) for n in sorted(odd))] if odd else []))), loc)
            for m, path, combo, mode, rank, outs in runs:
                for rv, fs, after in outs:
                    if not any(x[0] == "tn" for x in leaves(rv)):
                        rep.undecided("used|%s %s.%s" % (short, nm, m), "result is not a tensor")
                        continue
                    okruns += 1
                    reach = graddeps(w, fs, rv)
                    inputs = sorted(x[1] for a in combo for x in leaves(a) if x[0] == "tn")
                    lost = train - reach
                    nu += len(train)
                    rep.ob("used", "%s.%s %s" % (short, m, nm), not lost,
                           "%s (%s mode): no gradient of the result of %s reaches %s" %
                           (nm, mode, m, ", ".join(field(p, v, n) for n in sorted(lost))), p.fns[path].loc)
                    if short in INDEXED:
                        continue
                    rep.ob("flows", "%s.%s" % (short, m), inputs[0] in reach,
                           "%s: no gradient of the result of %s (%s mode) reaches its input" % (nm, m, mode), p.fns[path].loc)
                    nr += 1
        rep.ob("anchor", "forward " + short, okruns > 0, "no successful path through any forward of %s" % short, "")
    for u in und:
        rep.count("unbounded loops not followed", 1)
    rep.floor("anchor", "module and loss types", len(mods), 60)
    rep.floor("anchor", "trainable tensors over all configurations", nt, 150)
    rep.floor("anchor", "paths through forward on which uses were checked", nr, 500)


# modules whose input holds indices, through which no gradient can pass
INDEXED = {"Embedding"}


def field(p, v, n, path=""):
    """name of the field that holds tensor n"""
    if v[0] == "tn":
        return path or "?" if v[1] == n else ""
    if v[0] == "adt":
        a = p.adts.get(strip_gen(v[1]))
        for i, x in enumerate(v[3]):
            nm = str(i)
            if a:
                for w in a["variants"]:
                    if w["n"] == v[2] and i < len(w["f"]):
                        nm = w["f"][i][0]
            r = field(p, x, n, path if nm in ("0", "__0") else (path + "." if path else "") + nm)
            if r:
                return r
    if v[0] in ("vec", "arr", "tup"):
        for i, x in enumerate(v[1]):
            r = field(p, x, n, path + "[%d]" % i)
            if r:
                return r
    return ""
