"""Symbolic run of the CPU backend: which C kernels each backend entry reaches for each operation and element type."""
import os, pickle, itertools, re
from concurrent.futures import ProcessPoolExecutor
import extract
from mir import strip_gen
from absint import AI, Rule, CheckError, leaves, join, mk, TOP
from rules.common import *

IDX = "I32"


class KRule(Rule):
    max_depth = 14

    def __init__(self, p):
        self.p = p
        self.names = []
        self.ccalls = []
        self.allocs = []

    def on_call(self, ai, st, fr, bi, t, d, r, args):
        last = d.rsplit("::", 1)[-1]
        if last == "get_kernel_name":
            v = ai.deep(st, args[0])
            self.names.append(v)
            return [(st, v)]
        if last == "allocate" and d.endswith("BackendDeviceT::allocate"):
            v = ai.deep(st, args[1])
            if v[0] == "adt" and v[1] == DT:
                self.allocs.append((v[2], t.get("loc", "")))
                return [(st, ("adt", "core::result::Result", "Ok", (("adt", CS, v[2], (("buf", v[2], "out"),)),)))]
            return None
        if last in ("as_ptr", "as_mut_ptr") and d.startswith(("alloc::vec::Vec", "core::slice")):
            ty = (t["f"].get("a") or ["?"])[0]
            v = ai.deep(st, args[0])
            b = sorted({x[1] + ":" + x[2] for x in leaves(v) if x[0] == "buf"})
            return [(st, ("ptr", ty, tuple(b), last == "as_mut_ptr"))]
        if last in self.p.foreign and d not in self.p.fns:
            self.ccalls.append((last, tuple(ai.deep(st, a) for a in args), t.get("loc", "")))
        return None


def mkargs(f, combo, dtarg, op):
    """arguments of a backend entry: storages take the element types of `combo` in order"""
    out = []
    n = 0
    for i, ty in enumerate(f.d["sig"][0]):
        nm = f.locals[i + 1][1] or str(i)
        if ty == "&" + BS:
            out.append(("adt", BS, "CPU", (("adt", CS, combo[n], (("buf", combo[n], nm),)),)))
            n += 1
        elif ty == "&[&%s]" % BS:
            out.append(("arg", i, nm))
        elif ty.endswith("ops::Op"):
            out.append(op)
        elif ty.endswith("scalar::Scalar"):
            out.append(("adt", SC, dtarg, (("arg", i, nm),)))
        elif ty.endswith("dtype::DType"):
            out.append(dt(dtarg))
        else:
            out.append(("arg", i, nm))
    return tuple(out)


def entries(p):
    """backend entries: methods of the backend-neutral storage named call_*"""
    pre = BS + "::call_"
    r = [f for q, f in p.fns.items() if q.startswith(pre) and "sig" in f.d]
    return sorted(r, key=lambda f: f.path)


def nstor(f):
    return sum(1 for ty in f.d["sig"][0] if ty == "&" + BS)


def run_one(p, f, combo, d, op):
    rule = KRule(p)
    ai = AI(p, rule, 120000)
    outs, _ = ai.analyse(f, mkargs(f, combo, d, op))
    rets = []
    for rv, _st in outs:
        if rv[0] == "adt" and rv[2] == "Ok":
            rets.append(rv[3][0])
        elif rv[0] == "phi":
            for x in rv[1]:
                if x[0] == "adt" and x[2] == "Ok":
                    rets.append(x[3][0])
    return {"names": rule.names, "c": rule.ccalls, "rets": rets, "allocs": rule.allocs}


def combos(n, d, typed=False):
    if typed:
        return [(IDX,) * n]
    if n == 1:
        base = [(d,), (IDX,)]
    elif n == 2:
        base = [(d, d), (d, IDX), (d, "BOOL"), (IDX, d)]
    else:
        base = [(d,) * n, (d, IDX) + (d,) * (n - 2), (d, d, IDX) + (d,) * (n - 3)]
    out = []
    for b in base:
        if b not in out:
            out.append(b)
    return out


def norm(s):
    return re.sub(r"[^a-z0-9]", "", s.lower())


_p = None


def _work(job):
    global _p
    if _p is None:
        _p = program("hodu_core", "hodu_cpu_kernels", "hodu_internal")
    kind, path, op, ds = job
    f = _p.fn(path)
    out = {}
    for d in ds:
        best = None
        for combo in combos(nstor(f), d, any(x.endswith("dtype::DType") for x in f.d["sig"][0])):
            r = run_one(_p, f, combo, d, op)
            if r["c"]:
                best = (combo, r)
                break
            if best is None and r["names"]:
                best = (combo, r)
        if best is None:
            best = (None, {"names": [], "c": [], "rets": [], "allocs": []})
        out[d] = best
    return job, out


def table():
    """{(entry, op key): {dtype: (combo, result)}}; cached per tree hash"""
    d = extract.extract()
    fp = os.path.join(d, "kern.pickle")
    src = b"".join(open(os.path.join(os.path.dirname(__file__), x), "rb").read()
                   for x in ("kern.py", "absint.py", "mir.py", "rules/common.py"))
    import hashlib
    tag = hashlib.sha256(src).hexdigest()
    if os.path.exists(fp):
        with open(fp, "rb") as fh:
            t, v = pickle.load(fh)
        if t == tag:
            return v
    global _p
    _p = p = program("hodu_core", "hodu_cpu_kernels", "hodu_internal")
    ops = all_ops(p)
    ds = dtypes(p)
    probe = []
    for f in entries(p):
        if any(x.endswith("ops::Op") for x in f.d["sig"][0]):
            probe += [("probe", strip_gen(f.path), o, [IDX]) for o in ops]
        else:
            last = norm(f.name.replace("call_ops_", "").replace("call_", ""))
            m = [o for o in ops if o[3] and norm(o[3][0][2]) == last]
            if len(m) != 1:
                raise CheckError("backend entry %s takes no operation and none is named like it" % f.path)
            probe.append(("full", strip_gen(f.path), m[0], ds))
    res = {}
    with ProcessPoolExecutor(8) as ex:
        jobs = []
        for job, out in ex.map(_work, [j for j in probe if j[0] == "probe"], chunksize=16):
            # an operation belongs to the entry when its match on the operation lets it pass
            if any(o[1]["names"] for o in out.values()):
                jobs.append(("full", job[1], job[2], ds))
        jobs += [j for j in probe if j[0] == "full"]
        for job, out in ex.map(_work, jobs, chunksize=1):
            res[(job[1], job[2])] = out
    with open(fp + ".tmp%d" % os.getpid(), "wb") as fh:
        pickle.dump((tag, res), fh)
    os.replace(fp + ".tmp%d" % os.getpid(), fp)
    return res
