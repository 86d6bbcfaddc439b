"""Views on the Tensor-layer events that T01, T02, T07 and T08 share."""
from common import *
import trec
from absint import leaves, is_c, C

_c = {}


def data():
    if "p" not in _c:
        p = program("hodu_core", "hodu_cpu_kernels", "hodu_internal")
        res, nondiff = trec.analyse(p)
        _c["p"] = (p, res, nondiff)
    return _c["p"]


def name(path):
    return path.rsplit("::", 1)[1]


def opn(op):
    """name of an Op value; None when it is not a constant"""
    o = op_name(op)
    if o is None:
        return None
    return "::".join(x for x in o if x)


class Path:
    """One way through an operation: the created tensors and what happened to them."""
    def __init__(self, run, rv, facts, only=None):
        self.run, self.rv, self.facts = run, rv, facts
        self.err = rv is not None and rv[0] == "adt" and rv[2] == "Err"
        g = {f[0]: f[1] for f in facts if f[0] in ("cap", "grad")}
        self.cap, self.grad = g.get("cap"), g.get("grad")
        self.new = {f[1]: f for f in facts if f[0] == "new" and (only is None or f[1] == only)}
        self.rec = [f for f in facts if f[0] == "rec"]
        self.capd = [f for f in facts if f[0] == "capd"]
        self.exec = {f[1]: f for f in facts if f[0] == "exec"}
        self.vrg = {f[1]: f[2] for f in facts if f[0] == "vrg"}


def paths(runs):
    """paths that end in a value, and loop iterations completed on the way"""
    for run in runs:
        for rv, facts in run["rets"]:
            p = Path(run, rv, facts)
            if not p.err:
                yield p
        for facts, n in run["done"]:
            yield Path(run, None, facts, n)


def ids_tensors(v):
    """tensor terms of a sequence of ids; None when it is not a known sequence"""
    if v[0] not in ("arr", "vec", "itr"):
        return None
    out = []
    for x in v[1]:
        if x[0] != "tid":
            return None
        out.append(x[1])
    return out


def contains(v, x):
    return any(y == x for y in leaves(v))


def xstor(v):
    """exec instances a storage value comes from"""
    return {y[1] for y in leaves(v) if y[0] == "xstor"}


_clo = {}


def canon(p, v):
    """the same term with closures replaced by what they compute and ids of created tensors made anonymous"""
    if not isinstance(v, tuple):
        if isinstance(v, frozenset):
            return frozenset(canon(p, x) for x in v)
        return v
    if len(v) == 3 and v[0] == "clo" and isinstance(v[1], str):
        return ("clo*", _closure(p, v[1]), canon(p, v[2]))
    if len(v) == 2 and v[0] == "tid" and any(x[0] == "new" for x in leaves(v)):
        return ("tid", "created")
    return tuple(canon(p, x) for x in v)


def _closure(p, path):
    if path not in _clo:
        _clo[path] = path
        try:
            f = p.fns[path]
            outs, unw = AI(p, Rule()).analyse(path, tuple(("arg", i, "") for i in range(f.argc)))
            _clo[path] = repr(sorted({repr(canon(p, o[0])) for o in outs}))
        except (CheckError, KeyError):
            pass
    return _clo[path]
