"""T02: a captured operation describes what eager execution does.

For every public tensor operation: with capturing active it executes nothing, creates each result as a placeholder and
captures it exactly once, under the placeholder's own id and layout; the captured operand list and layout list agree
element by element (the i-th layout is that of the i-th operand); and the captured operation, parameters, operands and
result layout are those of the eager branch: the executed back-end operation, the buffers and layouts it was given, the
tape entry's parameters, and the layout of the eager result."""
from tcommon import *
from t08 import bufs, show
from t01 import base, discrete

ASSUMPTIONS = ["equal terms over the operands and arguments denote equal values in both modes"]
NOT_COVERED = "replaying a snapshot (its executors are plugins outside this repository)"

# the eager mode rejects what only capture can express, or the other way round
NO_CAPTURE = {"to_device"}
# result shapes that depend on the data: the placeholder has the largest possible one
DATA_SHAPED = {"Indexing::Nonzero", "Indexing::Unique", "Indexing::Compress"}


def payload_ids(v):
    return {y for y in leaves(v) if y[0] == "tid"}


def check(rep):
    p, res, nondiff = data()
    rep.floor("capture", "tensor operations analysed", len(res), 150)
    n_cap = n_cmp = 0
    for path, runs in sorted(res.items()):
        nm, loc = name(path), p.fn(path).loc
        if isinstance(runs, str):
            rep.ob("capture", nm, False, "not analysable: " + runs, loc)
            continue
        bad = {}
        cap, eag = {}, {}
        for pa in paths(runs):
            if pa.cap is None and pa.new:
                bad.setdefault("mode", "a result is created without consulting whether capture is active")
            for n, f in pa.new.items():
                if (f[2] == "builder") != bool(pa.cap):
                    bad.setdefault("placeholder", "a %s result is created while capture is %s" % (
                        f[2], "active" if pa.cap else "inactive"))
            sc = (pa.run["scen"], pa.run["args"])
            if pa.cap:
                if pa.exec:
                    bad.setdefault("executes", "a back-end call is made although capture is active")
                ids = {c[-1] for c in pa.capd}
                for c in pa.capd:
                    n_cap += 1
                    _, op, par, idv, il, ol, dup, rid = c
                    n = rid[1][1] if rid[0] == "tid" and rid[1][0] == "new" else None
                    if n not in pa.new:
                        if pa.rv is not None:
                            bad.setdefault("result-id", "the captured result id is not that of a placeholder created here")
                        continue
                    if dup:
                        bad.setdefault("once", "the same result is captured more than once")
                    if pa.new[n][4] != ol:
                        bad.setdefault("result-layout", "the captured result layout is not the placeholder's layout")
                    ts = ids_tensors(idv)
                    if ts is None:
                        bad.setdefault("operands", "the captured operand list cannot be established")
                        continue
                    ls = list(il[1]) if il[0] in ("vec", "arr", "itr") else None
                    if ls is None or len(ls) != len(ts):
                        bad.setdefault("operand-layouts", "%d operands are captured with %s layouts"
                                       % (len(ts), len(ls) if ls is not None else "unknown"))
                    else:
                        for i, (t, l) in enumerate(zip(ts, ls)):
                            if l != ("lay", t):
                                bad.setdefault("operand-layouts", "operand %d is %s but its captured layout is not that "
                                               "tensor's" % (i, show(t)))
                    for r in pa.rec:
                        if r[-1] == rid:
                            n_cmp += 1
                            if r[1] != op:
                                bad.setdefault("op", "captured as %s, recorded as %s" % (opn(op), opn(r[1])))
                            if ids_tensors(r[3]) != ts:
                                bad.setdefault("operands", "captured and recorded with different operands")
                            pv = par[3][0] if par[0] == "adt" and par[2] == "Some" else None
                            if pv is not None and canon(p, r[2]) != canon(p, pv):
                                bad.setdefault("params", "captured and recorded with different parameters")
                    cap.setdefault(sc, []).append((n, c, pa))
                for n, f in pa.new.items():
                    tid = ("tid", ("new", n))
                    if tid not in ids and not any(tid in payload_ids(c[2]) for c in pa.capd) and pa.rv is not None:
                        bad.setdefault("captured", "a placeholder is returned that no captured operation defines")
            else:
                if pa.capd:
                    bad.setdefault("mode", "an operation is captured although capture is inactive")
                for n, f in pa.new.items():
                    eag.setdefault(sc, []).append((n, f, pa))
        # eager against captured
        for sc, es in eag.items():
            cs = cap.get(sc)
            if not cs:
                if nm not in NO_CAPTURE:
                    bad.setdefault("mode", "the operation executes but cannot be captured")
                continue
            cops = {c[1] for _, c, _ in cs}
            cids = {repr(ids_tensors(c[3])): ids_tensors(c[3]) for _, c, _ in cs}
            clay = {canon(p, c[5]) for _, c, _ in cs} | {canon(p, pa.new[n][4]) for _, _, pa in cs for n in pa.new}
            cpar = {canon(p, c[2][3][0]) for _, c, _ in cs if c[2][0] == "adt" and c[2][2] == "Some"}
            for n, f, pa in es:
                n_cmp += 1
                disc = discrete(pa)
                e = None
                xs = xstor(f[5])
                if len(xs) == 1 and f[2] == "eager":
                    e = pa.exec[next(iter(xs))]
                topk = any(opn(o) == "Sort::TopK" for o in cops)
                if e is not None:
                    ops = {a for a in e[3] if op_name(a)}
                    if ops and not ops & cops:
                        bad.setdefault("op", "executed as %s, captured as %s" % (
                            sorted(map(str, map(opn, ops))), sorted(map(str, map(opn, cops)))))
                    b = []
                    for a in e[3]:
                        bufs(a, b)
                    if topk:
                        b = [base(t) for t in b]
                    if not any(sorted(map(repr, b)) == sorted(map(repr, ts)) and
                               [t for t in b if t not in disc] == [t for t in ts if t not in disc]
                               for ts in cids.values() if ts is not None):
                        bad.setdefault("operands", "executed on %s, captured with %s" % (
                            [show(t) for t in b], [[show(t) for t in ts] for ts in cids.values() if ts is not None]))
                elif f[2] == "shared":
                    if not any(ts == [f[5][1]] for ts in cids.values()):
                        bad.setdefault("operands", "a view of %s, captured with %s" % (
                            show(f[5][1]), [[show(t) for t in ts] for ts in cids.values() if ts is not None]))
                if canon(p, f[4]) not in clay and not topk and not any(opn(o) in DATA_SHAPED for o in cops):
                    bad.setdefault("result-layout", "the eager result layout is none of the captured ones")
                for r in pa.rec:
                    if contains(r[-1], ("new", n)):
                        if r[1] not in cops:
                            bad.setdefault("op", "recorded as %s, captured as %s" % (opn(r[1]), sorted(map(str, map(opn, cops)))))
                        if cpar and canon(p, r[2]) not in cpar:
                            bad.setdefault("params", "the tape entry's parameters are not the captured ones")
        rep.ob("capture", nm, not bad, "; ".join("%s: %s" % x for x in sorted(bad.items())), loc)
    rep.floor("capture", "captured operations compared", n_cap, 300)
    rep.floor("capture", "mode comparisons", n_cmp, 300)
