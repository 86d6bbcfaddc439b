"""N04: no module, loss or optimizer mixes element types (the operations refuse operands of different types at run time)."""
from rules.nncommon import *


def check(rep):
    p, mods, und, nondiff = world()
    n = 0
    for ty, cfgs in mods.items():
        short = ty.rsplit("::", 1)[1]
        for nm, v, facts, w, pr, runs, loc in cfgs:
            for m, path, combo, mode, rank, outs in runs:
                bad = {}
                for rv, fs, after in outs:
                    n += 1
                    for f in fs:
                        if f[0] == "mixed":
                            bad[(f[1], f[3])] = f[2]
                for (fn, what), at in sorted(bad.items()):
                    rep.ob("types", "%s.%s: %s" % (short, m, what), False, "%s %s (%s mode): %s" % (short, nm, mode, what), at)
                if not bad and outs:
                    rep.ob("types", "%s.%s" % (short, m), True, "", "")
    rep.floor("anchor", "paths checked", n, 500)
