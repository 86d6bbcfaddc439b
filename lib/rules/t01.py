"""T01: exactly the differentiable results of gradient-requiring operands require grad, and each is recorded once.

For every public tensor operation, under every choice of which operand requires grad, capturing or not, inside backward
or not, and on every path: a created tensor requires grad if and only if one of its operands does and the operation is
differentiable (decided by interpreting validate_requires_grad_for_op); whenever it does, outside backward, exactly one
tape entry names it as output, with the operation that was executed or captured and with the operands that were handed
to it, in their order; a tensor that does not require grad has no tape entry."""
from tcommon import *
from t08 import bufs, show

ASSUMPTIONS = ["a public operation called by another one satisfies its own obligations"]
NOT_COVERED = "the formulas of the backward rules"


# operations that are documented not to take part in differentiation although their family in the table does
NO_GRAD = {"Indexing::Nonzero", "Indexing::Unique", "Indexing::Onehot", "Indexing::Compress"}
# topk records its values and has a backward rule, the table only speaks of its indices
EITHER = {"Sort::TopK"}


def discrete(pa):
    """operands validated to hold indices: integers, which can never require grad"""
    return {y for f in pa.facts if f[0] == "val" and "indices" in f[1] for y in leaves(f[2]) if y[0] == "targ"}


def base(t):
    """the tensor whose elements a reordered copy holds"""
    ch = True
    while ch and t[0] == "der" and t[1] in ("permute", "contiguous", "transpose"):
        ins = {base(x) for x in t[2]}
        ch = len(ins) == 1
        if ch:
            t = next(iter(ins))
    return t


def operands(pa, n, f):
    """(operation, operand tensors, how) of a created tensor; None where not established"""
    tid = ("tid", ("new", n))
    for c in pa.capd:
        if c[-1] == tid:
            return c[1], ids_tensors(c[3]), "captured"
    kind, stor = f[2], f[5]
    if kind == "shared":
        return None, [stor[1]], "shared"
    if kind == "eager":
        xs = xstor(stor)
        if len(xs) == 1:
            e = pa.exec[next(iter(xs))]
            b = []
            for a in e[3]:
                bufs(a, b)
            op = [a for a in e[3] if op_name(a)]
            return (op[0] if op else None), b, "executed"
    return None, None, kind


def check(rep):
    p, res, nondiff = data()
    rep.floor("gradient", "tensor operations analysed", len(res), 150)
    n_res = n_rec = 0
    for path, runs in sorted(res.items()):
        nm, loc = name(path), p.fn(path).loc
        if isinstance(runs, str):
            rep.ob("gradient", nm, False, "not analysable: " + runs, loc)
            continue
        bad = {}
        seen = set()
        ops = {c[1] for pa in paths(runs) for c in pa.capd} | {r[1] for pa in paths(runs) for r in pa.rec}
        for pa in paths(runs):
            rule = trec.TRule(p, path, pa.run["scen"], nondiff, frozenset())
            st = State(pa.facts)
            mode = "in backward" if pa.grad else "captured" if pa.cap else "eager"
            disc = discrete(pa)
            for n, f in pa.new.items():
                tid = ("tid", ("new", n))
                op, ts, how = operands(pa, n, f)
                recs = [r for r in pa.rec if r[-1] == tid]
                if not recs and how == "executed" and pa.rv is not None:
                    # the result may be handed on through a view that is recorded instead
                    recs = [r for r in pa.rec if contains(r[-1], ("new", n))]
                moved = bool(recs) and all(r[-1] != tid for r in recs)
                if op is None:
                    cand = {r[1] for r in recs} or ops
                    op = next(iter(cand)) if len(cand) == 1 else None
                seen.add(mode)
                key = mode
                rg = f[3][1] if is_c(f[3]) else None
                if rg is None:
                    bad.setdefault((key, "requires-grad"), "whether the result requires grad depends on something other "
                                   "than its operands")
                    continue
                vrg = None
                if op is not None:
                    vrg = False if opn(op) in NO_GRAD else rule_vrg(p, op)
                    if opn(op) in EITHER:
                        vrg = rg
                if ts is None and vrg is False and not rg and not recs:
                    continue
                if ts is None:
                    bad.setdefault((key, "operands"), "the operands of the result cannot be established (%s)" % how)
                    continue
                ts = [t for t in ts if t not in disc]
                rgs = [rule.rg(st, t) if t[0] in ("targ", "new", "der") else None for t in ts]
                if nm == "to_device" and not rg:
                    continue    # moving data is documented as not differentiable
                if vrg is None and op is None and any(r is True for r in rgs):
                    bad.setdefault((key, "operation"), "the operation behind the result cannot be established")
                    continue
                want = any(r is True for r in rgs) and vrg is not False
                if want != rg:
                    if any(r is None for r in rgs) and not any(r is True for r in rgs):
                        bad.setdefault((key, "operands"), "an operand's requires-grad cannot be established: %s"
                                       % [show(t) for t in ts])
                    else:
                        bad.setdefault((key, "requires-grad"), "operands require grad: %s, operation differentiable: %s, but the result "
                               "%s grad" % (dict((show(t), r) for t, r in zip(ts, rgs)), vrg,
                                            "requires" if rg else "does not require"))
                if rg and mode != "in backward":
                    if len(recs) != 1 or any(r[4] for r in recs):
                        bad.setdefault((key, "recorded"), "the result requires grad but has %d tape entries"
                                       % (len(recs) + sum(1 for r in recs if r[4])))
                elif not rg and recs:
                    bad.setdefault((key, "recorded"), "the result does not require grad but is recorded")
                for r in recs:
                    n_rec += 1
                    ids = ids_tensors(r[3])
                    ids = ids and [t for t in ids if t not in disc]
                    if ids != (ts if not moved and opn(op) not in EITHER else [base(t) for t in ts]):
                        bad.setdefault((key, "inputs"), "the tape entry names operands %s, the operation was %s on %s" % (
                            ids and [show(t) for t in ids], how, [show(t) for t in ts]))
                    if op is not None and r[1] != op:
                        bad.setdefault((key, "op"), "recorded as %s but %s as %s" % (opn(r[1]), how, opn(op)))
            # tape entries for anything that is not a result
            for r in pa.rec:
                if not any(contains(r[-1], ("new", n)) for n in pa.new) and pa.rv is not None:
                    bad.setdefault((mode, "output"), "a tape entry's output is not a tensor this operation created")
        # the same operands must not lose their gradient on one way through the operation only
        by = {}
        for run in runs:
            for (rv, facts), rgs in zip(run["rets"], run["rg"]):
                if rv[0] == "adt" and rv[2] == "Err":
                    continue
                vals = {b for _t, b in rgs}
                if vals and not all(t[0] == "der" and t[1] == "0" for t, _ in rgs):
                    by.setdefault(run["scen"], {}).setdefault(True if True in vals else None if None in vals else False,
                                                              []).append([show(t) for t, _ in rgs])
        seen.add("result")
        for sc, d in by.items():
            if True in d and False in d:
                bad.setdefault(("result", "paths"), "with the same operands the result requires grad on some ways through "
                               "the operation but not on others (%s)" % d[False][:2])
        for m in sorted(seen):
            n_res += 1
            w = {k: x for k, x in bad.items() if k[0] == m}
            rep.ob("gradient", "%s/%s" % (nm, m), not w, "; ".join("%s: %s" % (k[1], x) for k, x in sorted(w.items())), loc)
    rep.floor("gradient", "operation/mode pairs", n_res, 300)
    rep.floor("gradient", "tape entries compared", n_rec, 250)


class State:
    def __init__(self, facts):
        self.facts = facts


_v = {}


def rule_vrg(p, op):
    if op not in _v:
        try:
            outs, _ = AI(p, Rule()).analyse(p.one("::validate_requires_grad_for_op").path, (op,))
            vs = {o[0] for o in outs}
            x = vs.pop() if len(vs) == 1 else None
            _v[op] = x[1] if x is not None and is_c(x) else None
        except CheckError:
            _v[op] = None
    return _v[op]
