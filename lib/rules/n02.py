"""N02: an optimizer step writes every parameter once, from that parameter, its own gradient and its own running state, with the
learning rate last set; zero_grad resets every parameter."""
from rules.nncommon import *

NP = 3
STEPS = 3
TRAIT = "hodu_nn::optimizer::Optimizer"


def written(fs, w):
    """{tensor: [values written]} of the set_ facts, in the order they happened"""
    out = {}
    for f in sorted((f for f in fs if f[0] == "do" and f[1].rsplit("::", 1)[1] == "set_"), key=lambda f: f[3]):
        out.setdefault(f[2][0], []).append(f[2][1])
    return out


def syms(w, v, seen=None):
    """every scalar symbol v was computed from"""
    out, st, done = set(), [v], set()
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or not x:
            continue
        if x[0] == "tn":
            if x[1] in done:
                continue
            done.add(x[1])
            st += list(w.info[x[1]][1])
        elif x[0] == "sym":
            out.add(x)
        else:
            st += [y for y in x if isinstance(y, tuple)]
    return out


def check(rep):
    p = program()
    opts = modules(p, TRAIT)
    rep.floor("anchor", "optimizer types", len(opts), 5)
    nondiff = frozenset(tcommon.data()[2])
    nw = nst = 0
    for ty, meths in sorted(opts.items()):
        short = ty.rsplit("::", 1)[1]
        w = World()
        par = [w.make("parameter", (C(i),), True, i, "D") for i in range(NP)]
        for i in range(NP):
            w.dtype[par[i][1]] = "D"
        lst = ("vec", tuple(par))
        mine = {par[i][1]: i for i in range(NP)}

        def owner(v):
            return {mine[n] for n in w.deps(v) if n in mine}
        def grads_of(w, v):
            """(parameter, step) of every gradient v was computed from"""
            out = set()
            for n in w.deps(v):
                if w.info[n][0].endswith("::grad"):
                    a = w.info[n][1][0]
                    if a[0] == "tn" and a[1] in mine:
                        out.add((mine[a[1]], w.info[n][3]))
            return out
        n_cfg = 0
        used = set()
        given = set()
        for c in ctors(p, ty):
            f = p.fns[c]
            combos = [[]]
            for i in range(f.argc):
                new = []
                for v in choices(p, f.locals[i + 1][0], lambda: None):
                    if v[0] == "sdt":
                        v = ("sdt", None, ("sym", "%s of %s" % (f.locals[i + 1][1], c.rsplit("::", 1)[1])))
                        given.add(v[2])
                    new += [x + [v] for x in combos]
                combos = new
            starts = [o for args in combos for o in run(p, NRule(p, w), c, tuple(args))]
            for v0, facts, _a in starts:
                n_cfg += 1
                states = [(v0, facts)]
                for k in range(STEPS):
                    nxt = []
                    for sv, fs in states:
                        key = "%s %s" % (short, c.rsplit("::", 1)[1])
                        rule = NRule(p, w, "Training", 2, frozenset(), nondiff, 1000 * (k + 1))
                        rule.era = k
                        kept = {g for x in leaves(sv) if x[0] == "tn" for g in grads_of(w, x)}
                        outs = run(p, rule, meths["step"], (lst,), fs, sv, budget=200000, seconds=60)
                        rep.ob("anchor", "step %s" % key, bool(outs), "step %d of %s cannot be followed" % (k + 1, short), p.fns[meths["step"]].loc)
                        for rv, fs2, after in outs:
                            wr = written(fs2 - fs, w)
                            where = p.fns[meths["step"]].loc
                            for x, fld in slots(p, after):
                                if x[0] == "tn":
                                    nst += 1
                                    gs = {g for g in grads_of(w, x)}
                                    rep.ob("learns", "%s %s" % (key, fld), any(g[1] == k for g in gs),
                                           "step %d of %s leaves the running statistic %s as it was" % (k + 1, short, fld), where)
                                else:
                                    b = [y for y, f2 in slots(p, sv) if f2 == fld]
                                    rep.ob("counts", "%s %s" % (key, fld), len(b) == 1 and is_c(b[0]) and is_c(x) and x[1] == b[0][1] + 1,
                                           "step %d of %s over %d parameters takes the counter %s from %s to %s" %
                                           (k + 1, short, NP, fld, show(b[0]) if b else "nothing", show(x)), where)
                            for i in range(NP):
                                old = {g for g in kept if g[0] == i}
                                if old and wr.get(par[i]):
                                    seen = {g for v in wr[par[i]] for g in grads_of(w, v)}
                                    rep.ob("carries", key, bool(seen & old), "step %d of %s: what parameter %d becomes does not depend on the "
                                           "gradients of earlier steps its running statistics hold" % (k + 1, short, i + 1), where)
                            for i in range(NP):
                                vals = wr.get(par[i], [])
                                nw += 1
                                rep.ob("once", key, len(vals) == 1, "step %d of %s writes parameter %d of %d %d times" %
                                       (k + 1, short, i + 1, NP, len(vals)), p.fns[meths["step"]].loc)
                                for v in vals:
                                    own = owner(v)
                                    grads = {mine[m] for n in w.deps(v) if w.info[n][0].endswith("::grad")
                                             for a in w.info[n][1] for m in [a[1]] if a[0] == "tn" and m in mine}
                                    rep.ob("own", key, own == {i} and grads == {i},
                                           "step %d of %s: what parameter %d becomes is computed from parameter(s) %s and gradient(s) %s" %
                                           (k + 1, short, i + 1, sorted(x + 1 for x in own), sorted(x + 1 for x in grads)),
                                           p.fns[meths["step"]].loc)
                                    used |= syms(w, v)
                            other = [t for t in wr if t not in par]
                            rep.ob("only", key, not other, "step %d of %s writes a tensor that is not a parameter" % (k + 1, short), p.fns[meths["step"]].loc)
                            for x in leaves(after):
                                if x[0] == "tn":
                                    rep.ob("state", key, len(owner(x)) <= 1, "step %d of %s: a running statistic is computed from parameters %s" %
                                           (k + 1, short, sorted(o + 1 for o in owner(x))), p.fns[meths["step"]].loc)
                            nxt.append((after, fs2))
                    states = nxt[:16]
                # the learning rate last set is the one used
                sl = strip_gen(ty) + "::set_learning_rate"
                if sl in p.fns and states:
                    new = ("sym", "new rate")
                    sv, fs = states[0]
                    old = {("sym", "%s of %s" % (f.locals[i + 1][1], c.rsplit("::", 1)[1])) for i in range(f.argc)
                           if f.locals[i + 1][1] in ("learning_rate", "lr")}
                    for _v, fs2, sv2 in run(p, NRule(p, w), sl, (("sdt", None, new),), fs, sv):
                        for rv, fs3, after in run(p, NRule(p, w, "Training", 2, frozenset(), nondiff, 90000), meths["step"], (lst,), fs2, sv2):
                            for t, vals in written(fs3 - fs2, w).items():
                                for v in vals:
                                    direct = topsyms(w, v, par)
                                    rep.ob("rate", "%s" % short, new in direct and not (old & direct),
                                           "%s: after set_learning_rate the step uses %s" %
                                           (short, "the rate given to the constructor" if old & direct else "no rate"), p.fns[meths["step"]].loc)
                elif sl in p.fns:
                    rep.ob("anchor", "rate " + short, False, "no step to check the rate on", "")
        for g in sorted(given - used, key=repr):
            rep.ob("settings", "%s: %s" % (short, g[1]), False, "no step of %s depends on %s" % (short, g[1]), p.fns[meths["step"]].loc)
        for g in given & used:
            rep.ob("settings", "%s: %s" % (short, g[1]), True, "", "")
        rep.ob("anchor", "ctor " + short, n_cfg > 0, "no constructor of %s could be interpreted" % short, "")
        # zero_grad
        outs = run(p, NRule(p, w), meths["zero_grad"], (lst,), frozenset(), v0 if n_cfg else UNIT)
        rep.ob("anchor", "zero_grad " + short, bool(outs), "zero_grad of %s cannot be followed" % short, "")
        for rv, fs, after in outs:
            z = [f[2][0] for f in fs if f[0] == "do" and f[1].rsplit("::", 1)[1] == "zero_grad"]
            rep.ob("zeroed", short, sorted(z) == sorted(par), "zero_grad of %s resets %d of %d parameters" %
                   (short, len([x for x in par if x in z]), NP), p.fns[meths["zero_grad"]].loc)
    rep.floor("anchor", "running statistics checked", nst, 20)
    rep.floor("anchor", "parameter writes checked", nw, 40)


def slots(p, v, path=""):
    """(tensor or integer, name of the field that holds it) of everything an optimizer holds"""
    if v[0] == "adt" and path.count(".") < 3:
        a = p.adts.get(strip_gen(v[1]))
        names = next((x["f"] for x in a["variants"] if x["n"] == v[2]), []) if a else []
        for i, x in enumerate(v[3]):
            nm, ty = (names[i][0], names[i][1]) if i < len(names) else (str(i), "")
            q = (path + "." if path else "") + nm
            if is_c(x) and ty in INTS:
                yield x, q
            else:
                yield from slots(p, x, q)
    elif v[0] in ("vec", "arr", "tup"):
        for x in v[1]:
            yield from slots(p, x, path + "[]")
    elif v[0] == "tn":
        yield v, path


INTS = ("usize", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "isize")


def topsyms(w, v, par):
    """symbols the newest update of v uses: gradients and running state are not entered"""
    return syms(w, v)
