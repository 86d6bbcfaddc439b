"""T07: nothing reaches the back end, or a captured graph, unvalidated.

On every path of every public tensor operation, before a back-end call and before an operation is captured: the element
types the preceding validations let through (decided by interpreting validate_dtype_for_op) are all admitted for the
operation that runs; the operands of a call with several operands have been validated to be on one device and, except
for index and condition operands, to have one element type; an operand that holds indices has been validated to be an
integer tensor."""
from tcommon import *
from t08 import bufs, show

ASSUMPTIONS = ["the validate_* functions return Err for what they say they reject"]
NOT_COVERED = "shape compatibility, which is computed rather than looked up"

# moving or copying data works on every element type
ANY_TYPE = {"contiguous", "to_dtype", "to_device"}
# operands that are not of the result's element type
ROLE = {"condition", "mask", "indices"}


def root(t):
    """the operand a derived tensor takes its element type and device from"""
    while t[0] == "der" and t[2]:
        t = t[2][0]
    return t


_adm = {}


def admits(p, op):
    """element types validate_dtype_for_op lets through for an operation"""
    if op not in _adm:
        path = p.one("::validate_dtype_for_op").path
        out = set()
        for d in dtypes(p):
            outs, _ = AI(p, Rule()).analyse(path, (dt(d), op))
            rs = {x[2] if x[0] == "adt" else "?" for rv, _s in outs for x in (rv[1] if rv[0] == "phi" else (rv,))}
            if rs != {"Err"}:
                out.add(d)
        _adm[op] = out
    return _adm[op]


def judge(p, bad, key, ops, op, ts, vals):
    by = {}
    for v in vals:
        by.setdefault(v[1], []).append(v[2])
    if op is not None and not op_name(op):
        if not any(g[1] == op and any(g[0] == ("dty", t) for t in ts) for g in by.get("validate_dtype_for_op", [])):
            bad.setdefault((key, "element type"), "the element type is not validated for the operation chosen at run time")
    elif op is not None:
        passed = set(dtypes(p))
        seen = []
        for g in by.get("validate_dtype_for_op", []):
            if any(g[0] == ("dty", t) for t in ts):
                seen.append(str(opn(g[1])))
                passed &= admits(p, g[1]) if op_name(g[1]) else passed
        more = passed - admits(p, op)
        if more:
            bad.setdefault((key, "element type"), "%s reaches %s without having been rejected (validated for %s)" % (
                sorted(more), opn(op), seen or "nothing"))
    if len(ts) > 1:
        for what in ("validate_same_device", "validate_same_dtype"):
            have = set()
            for g in by.get(what, []):
                have |= {root(y) for y in leaves(g[0]) if y[0] == "targ"}
            need = {t for t in ts if what == "validate_same_device" or t[-1] not in ROLE}
            if len(need) > 1 and not need <= have:
                bad.setdefault((key, what), "%s does not cover %s" % (what, sorted(show(t) for t in need - have)))
    for t in ts:
        if t[-1] == "indices" and not any(contains(g[0], t) for g in by.get("validate_indices_dtype", [])):
            bad.setdefault((key, "indices"), "the index operand's element type is not validated")


def check(rep):
    p, res, nondiff = data()
    rep.floor("validation", "tensor operations analysed", len(res), 150)
    n = 0
    for path, runs in sorted(res.items()):
        nm, loc = name(path), p.fn(path).loc
        if isinstance(runs, str):
            rep.ob("validation", nm, False, "not analysable: " + runs, loc)
            continue
        bad = {}
        ops = {c[1] for pa in paths(runs) for c in pa.capd} | {r[1] for pa in paths(runs) for r in pa.rec}
        calls = set()
        for pa in paths(runs):
            for f in list(pa.exec.values()):
                meth, vals = f[2], f[4]
                calls.add(meth)
                if meth in ANY_TYPE:
                    continue
                b = []
                for a in f[3]:
                    bufs(a, b)
                op = [a for a in f[3] if op_name(a)]
                op = op[0] if op else (next(iter(ops)) if len(ops) == 1 else None)
                judge(p, bad, meth, ops, op, {root(t) for t in b if t[0] in ("targ", "der", "new")}, vals)
            for c in pa.capd:
                calls.add("capture")
                ts = ids_tensors(c[3])
                if ts and op_name(c[1]):
                    judge(p, bad, "capture", ops, c[1], {root(t) for t in ts}, [f for f in pa.facts if f[0] == "val"])
        for m in sorted(calls):
            n += 1
            w = {k: x for k, x in bad.items() if k[0] == m}
            rep.ob("validation", "%s/%s" % (nm, m), not w, "; ".join("%s: %s" % (k[1], x) for k, x in sorted(w.items())), loc)
    rep.floor("validation", "operation/mode pairs", n, 250)
