"""N06: in evaluation mode a forward call draws no random number and changes nothing; what a training call learns for the evaluation
mode is stored by every training call; and the mode read is the mode last set, by the macros a user's program calls."""
import os
import extract, mir
from rules.nncommon import *


GUARD = ("lock", "read", "write", "borrow", "borrow_mut")


class ModeRule(Rule):
    """the contents of a static behind a lock, a cell or an atomic"""
    concrete = True
    max_depth = 8

    def on_call(self, ai, st, fr, bi, t, _d, _r, args):
        d = t["f"].get("d") or ""
        last = d.rsplit("::", 1)[-1]
        if not args:
            return None
        x = args[0]
        while x[0] == "ref" and not (x[1][0] == "obj" and x[1][1][0] == "static"):
            x = ai.load(st, x[1], x[2])
        at = None
        if x[0] == "static":
            at = ("obj", x)
        elif x[0] == "ref":
            at = x[1]
        if "sync" in d or "cell" in d:
            if last == "new":
                return [(st, args[0])]
            if at and last in GUARD:
                v = ("ref", at, ())
                return [(st, v if last.startswith("borrow") else ("adt", RES, "Ok", (v,)))]
            if at and last in ("load", "get"):
                return [(st, ai.load(st, at, ()))]
            if at and last in ("store", "set", "swap", "replace"):
                s = st.copy()
                old = ai.load(s, at, ())
                ai.store(s, at, (), args[1])
                return [(s, UNIT if last in ("store", "set") else old)]
        if d in ("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut", "core::convert::AsRef::as_ref") and at:
            return [(st, ("ref", at, ()))]
        return None


def mode_cell(p, rep):
    """set_state, then get_state"""
    statics = [k for k, f in p.fns.items() if f.d.get("dk") == "Static" and k.startswith("hodu_nn::")]
    setter, getter = p.fns.get("hodu_nn::state::set_state"), p.fns.get("hodu_nn::state::get_state")
    rep.ob("anchor", "set_state and get_state", bool(setter and getter), "hodu_nn::state has no set_state or get_state", "")
    if not (setter and getter):
        return
    env0 = {}
    for k in statics:
        outs, _ = AI(p, ModeRule(), 20000).analyse(k, (), frozenset(), {})
        if len(outs) == 1:
            env0[("obj", ("static", k))] = outs[0][0]
    outs, _ = AI(p, ModeRule(), 20000).analyse(getter.path, (), frozenset(), dict(env0))
    rep.ob("mode", "initial", bool(outs) and all(is_mode(v, "Training") for v, s in outs),
           "before any call the mode is %s, not Training" % ", ".join(show(v) for v, s in outs), getter.loc)
    for m in ("Training", "Evaluation"):
        val = ("adt", STATE, m, ())
        got = []
        for first in ("Training", "Evaluation"):
            e = {k: ("adt", STATE, first, ()) if is_mode(v) else v for k, v in env0.items()}
            souts, _ = AI(p, ModeRule(), 20000).analyse(setter.path, (val,), frozenset(), e)
            for _v, st in souts:
                env = {k: v for k, v in st.env.items() if k[0] == "obj"}
                gouts, _ = AI(p, ModeRule(), 20000).analyse(getter.path, (), frozenset(), env)
                got += [v for v, s in gouts]
        rep.ob("mode", "set " + m, bool(got) and all(is_mode(v, m) for v in got),
               "after set_state(%s) get_state returns %s" % (m, ", ".join(sorted({show(v) for v in got})) or "nothing"), setter.loc)


def is_mode(v, m=None):
    return v[0] == "adt" and v[1] == STATE and (m is None or v[2] == m)


def macros(p, rep):
    for name in ("parts", "umbrella", "dev"):
        w = "witness_" + name
        fp = os.path.join(p.dir, w + ".jsonl")
        rep.ob("anchor", "program " + name, os.path.exists(fp) or os.path.exists(os.path.join(p.dir, w + ".err")), "no witness " + name, "")
        if not os.path.exists(fp):
            err = open(os.path.join(p.dir, w + ".err")).read() if os.path.exists(os.path.join(p.dir, w + ".err")) else ""
            bad = [l for l in err.splitlines() if "lib.rs:" in l and "-->" in l]
            lines = open(os.path.join(extract.VERIF, "witness", name, "lib.rs")).read().splitlines()
            hit = [lines[int(l.rsplit(":", 2)[1]) - 1] for l in bad]
            mac = [h for h in hit if "train!" in h or "eval!" in h]
            rep.ob("macro", "compiles " + name, not mac,
                   "a user's program that calls train!() and eval!() does not compile: " +
                   " ".join(l for l in err.splitlines() if l.startswith("error"))[:300], "hodu_nn macros train!, eval!")
            if not mac:
                rep.undecided("macro|" + name, "the user's program does not compile for another reason")
            continue
        q = mir.Program(["hodu_nn", w])
        for fn, m in (("to_training", "Training"), ("to_evaluation", "Evaluation")):
            calls = []

            class R(Rule):
                concrete = True

                def on_call(self, ai, st, fr, bi, t, _d, _r, args):
                    if (t["f"].get("d") or "") == "hodu_nn::state::set_state":
                        calls.append(args[0])
                    return [(st, UNIT)]
            AI(q, R(), 20000).analyse(w + "::" + fn, (), frozenset(), {})
            rep.ob("macro", "%s %s" % (name, fn), len(calls) == 1 and is_mode(calls[0], m),
                   "%s!() sets the mode to %s" % ("train" if m == "Training" else "eval", ", ".join(show(c) for c in calls) or "nothing"),
                   "hodu_nn macros train!, eval!")


def check(rep):
    p, mods, und, nondiff = world()
    mode_cell(p, rep)
    macros(p, rep)
    n = learned = rnd = 0
    for ty, cfgs in mods.items():
        short = ty.rsplit("::", 1)[1]
        for nm, v, facts, w, pr, runs, loc in cfgs:
            held = {x[1] for x in leaves(v) if x[0] == "tn"}
            train = {k for k in held if gradnode(w, facts, k)} | {x[1] for rv, _f, _a in pr or () for x in leaves(rv) if x[0] == "tn"}
            reads = {}
            for m, path, combo, mode, rank, outs in runs:
                for rv, fs, after in outs:
                    n += 1
                    where = p.fns[path].loc
                    new = fs - facts
                    drawn = sorted({f[1].rsplit("::", 1)[1] for f in new if f[0] == "random"})
                    if mode == "Evaluation":
                        rep.ob("still", "%s.%s" % (short, m), not drawn, "%s: %s in evaluation mode draws random numbers with %s" %
                               (nm, m, ", ".join(drawn)), where)
                        wr = sorted({f[1].rsplit("::", 1)[1] for f in new if f[0] == "do" and f[2] and f[2][0][0] == "tn" and
                                     f[2][0][1] in held})
                        rep.ob("pure", "%s.%s" % (short, m), after == v and not wr,
                               "%s: %s in evaluation mode changes the module%s" % (nm, m, " (%s)" % ", ".join(wr) if wr else ""), where)
                    elif drawn:
                        rnd += 1
                    deps = w.deps(rv)
                    reads.setdefault((m, path, repr(combo), rank), {}).setdefault(mode, []).append((deps, after, new))
            for (m, path, _c, rank), by in sorted(reads.items()):
                if "Evaluation" not in by or "Training" not in by:
                    continue
                ev = set().union(*[d for d, a, f in by["Evaluation"]])
                tr = set().union(*[d for d, a, f in by["Training"]])
                stats = (ev - tr) & held - train
                for k in sorted(stats):
                    fld = where_is(v, k)
                    for deps, after, f in by["Training"]:
                        learned += 1
                        ch = at(after, fld) != ("tn", k) or any(x[0] == "do" and x[2] and x[2][0] == ("tn", k) for x in f)
                        rep.ob("learned", "%s.%s" % (short, m), ch,
                               "%s: evaluation mode reads a statistic that %s in training mode leaves as it was" % (nm, m), p.fns[path].loc)
    rep.floor("anchor", "paths checked", n, 500)
    rep.floor("anchor", "statistics updated by training calls", learned, 6)
    rep.floor("anchor", "training paths that draw random numbers", rnd, 3)


def where_is(v, n, path=()):
    if v == ("tn", n):
        return path
    if v[0] in ("adt", "tup", "vec", "arr"):
        for i, x in enumerate(v[3] if v[0] == "adt" else v[1]):
            r = where_is(x, n, path + (i,))
            if r is not None:
                return r
    return None


def at(v, path):
    for i in path:
        xs = v[3] if v[0] == "adt" else v[1] if v[0] in ("tup", "vec", "arr") else ()
        if i >= len(xs):
            return None
        v = xs[i]
    return v
