"""What a Tensor operation does, as events: executed backend call, created tensors, captured and recorded operations.

Every public operation of the Tensor layer is interpreted abstractly under each combination of (capturing or not,
computing gradients or not, which operand requires grad); the helpers it calls inside the tensor layer are entered, so
the events seen do not depend on how the code is arranged."""
import os, pickle
from mir import strip_gen
from absint import AI, Rule, C, is_c, mk, leaves, CheckError
import extract

T = "hodu_core::tensor::"
TIMPL = "<impl hodu_core::tensor::core::Tensor>::"
TCORE = "hodu_core::tensor::core::Tensor::"
R = "core::result::Result"


def ok(x):
    return ("adt", R, "Ok", (x,))


def is_tensor_ty(t):
    t = strip_gen(t)
    return t.lstrip("&").replace("'_ ", "").strip() == "hodu_core::tensor::core::Tensor"


def roots(p):
    """public operations: methods of Tensor under tensor::ops that return tensors"""
    out = []
    for path, f in p.fns.items():
        if path.startswith(T + "ops::") and TIMPL in path and f.d["dk"] != "Closure" and f.d.get("pub") \
                and "hodu_core::tensor::core::Tensor" in f.d["sig"][1]:
            out.append(path)
    return sorted(out)


class TRule(Rule):
    max_depth = 14

    def __init__(self, p, root, scen, nondiff, pub):
        self.p, self.root, self.scen, self.nondiff, self.pub = p, root, scen, nondiff, pub
        self.sites = {}
        self.done = []
        self.vrg = {}
        self.wid = {}

    def enter(self, path, fn, depth, args=()):
        if not path.startswith((T + "ops::", T + "utils::")):
            # a new module of the tensor layer, not the ones whose functions are events
            return False
        return path not in self.pub

    # -------------------------------------------------------------- facts about tensors
    def rg(self, st, v):
        k = v[0]
        if k == "arg":
            return None
        if k == "targ":
            return v[1] in self.scen
        if k == "new":
            for f in st.facts:
                if f[0] == "new" and f[1] == v[1]:
                    x = f[3]
                    return x[1] if is_c(x) else None
            return None
        if k == "der":
            if v[1] == "0":
                return False
            if v[1] in self.nondiff:
                return False
            rs = [self.rg(st, x) for x in v[2]]
            return True if any(r is True for r in rs) else (None if any(r is None for r in rs) else False)
        if k == "prj":
            return self.rg(st, v[1])
        if k == "phi":
            rs = {self.rg(st, x) for x in v[1]}
            return rs.pop() if len(rs) == 1 else None
        return None

    def tensors(self, v, out=None):
        """outermost tensor terms in a value"""
        out = [] if out is None else out
        k = v[0] if isinstance(v, tuple) and v else None
        if k in ("new", "der", "targ"):
            if v not in out:
                out.append(v)
            return out
        if isinstance(v, (tuple, frozenset)):
            for x in v:
                if isinstance(x, (tuple, frozenset)):
                    self.tensors(x, out)
        return out

    def site(self, fr, bi):
        k = (fr.id, bi)
        if k not in self.sites:
            self.sites[k] = (len(self.sites), fr.fn.path if fr.fn else "?")
        return self.sites[k][0]

    def widen(self, key, v):
        """bounds what loop-carried values contribute to the facts"""
        seen = self.wid.setdefault(key, [])
        if v in seen:
            return v
        if len(seen) >= 8:
            return self.wjoin(seen[0], v)
        seen.append(v)
        return v

    def wjoin(self, a, b):
        if a == b:
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] and len(a) == len(b) \
                and a[0] not in ("bin", "app", "prj", "mut", "big", "c"):
            return tuple(self.wjoin(x, y) for x, y in zip(a, b))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a and isinstance(a[0], tuple):
            return tuple(self.wjoin(x, y) for x, y in zip(a, b))
        return ("top",)

    def fork(self, st, name):
        for f in st.facts:
            if f[0] == name:
                return [(st, C(f[1]))]
        out = []
        for b in (True, False):
            s = st.copy()
            s.facts = s.facts | {(name, b)}
            out.append((s, C(b)))
        return out

    def create(self, ai, st, fr, bi, kind, layout, rg, storage, dtype=None):
        base = self.site(fr, bi)
        s = st.copy()
        live = {f[1] for f in s.facts if f[0] == "new" and f[1][0] == base}
        n = (base, len(live)) if len(live) < 4 else (base, 3)
        if n in live:
            old = frozenset(f for f in s.facts if (f[0] == "new" and f[1] == n) or
                            (f[0] in ("capd", "rec") and f[-1] == ("tid", ("new", n))))
            self.done.append((s.facts, n))
            s.facts = s.facts - old
        layout = self.widen(("lay", n), ai.deep(s, layout))
        rg = ai.deep(s, rg)
        if not is_c(rg):
            a = s.asm.get(rg)
            if isinstance(a, bool):
                rg = C(a)
            else:
                outs = []
                for b in (True, False):
                    s2 = s.copy()
                    s2.asm[rg] = b
                    s2.facts = s2.facts | {("new", n, kind, C(b), ai.deep(s2, layout), ai.deep(s2, storage), dtype),
                                           ("symrg", n)}
                    outs.append((s2, n))
                return outs
        s.facts = s.facts | {("new", n, kind, rg, ai.deep(s, layout), ai.deep(s, storage), dtype)}
        return [(s, n)]

    # -------------------------------------------------------------- calls
    def on_call(self, ai, st, fr, bi, t, d, r, args):
        name = r or d
        last = d.rsplit("::", 1)[1]
        if name.startswith("hodu_core::snapshot::capture::"):
            if last == "is_active":
                return self.fork(st, "cap")
            if last in ("capture_operation", "capture_operation_with_symbolic"):
                v = [self.widen((self.site(fr, bi), i), ai.deep(st, a)) for i, a in enumerate(args)]
                s = st.copy()
                dup = any(f[0] == "capd" and f[-1] == v[3] for f in s.facts)
                s.facts = s.facts | {("capd", v[0], v[1], v[2], v[4], v[5], dup, v[3])}
                return [(s, ok(("tup", ())))]
            return None
        if name.startswith(T + "gradient::"):
            if last == "is_computing_gradients":
                return self.fork(st, "grad")
            if last == "record_operation":
                v = [self.widen((self.site(fr, bi), i), ai.deep(st, a)) for i, a in enumerate(args)]
                s = st.copy()
                dup = any(f[0] == "rec" and f[-1] == v[1] for f in s.facts)
                s.facts = s.facts | {("rec", v[2], v[3], v[0], dup, v[1])}
                return [(s, ok(("tup", ())))]
            return None
        if name.startswith(T + "internal::"):
            if last == "create_builder_tensor":
                return [(s, ("tup", (("tid", ("new", n)), ("new", n)))) for s, n in
                        self.create(ai, st, fr, bi, "builder", args[0], args[2], ("none",), ai.deep(st, args[1]))]
            if last == "from_storage_with_context" or last == "from_storage":
                return [(s, ("new", n)) for s, n in self.create(ai, st, fr, bi, "eager", args[1], args[3], args[0])]
            if last == "from_shared_storage_with":
                return [(s, ("new", n)) for s, n in
                        self.create(ai, st, fr, bi, "shared", args[1], args[2], ("share", ai.deep(st, args[0])))]
            if last == "tensor_from_id":
                v = ai.deep(st, args[0])
                return [(st, v[1] if v[0] == "tid" else mk("app", name, (v,)))]
            return None
        if name.startswith("hodu_core::utils::valid::"):
            if last == "validate_requires_grad_for_op":
                op = ai.deep(st, args[0])
                if op not in self.vrg:
                    try:
                        outs, _ = AI(self.p, Rule()).analyse(name, (op,))
                        vs = {o[0] for o in outs}
                        self.vrg[op] = vs.pop() if len(vs) == 1 else None
                    except CheckError:
                        self.vrg[op] = None
                v = self.vrg[op]
                s = st.copy()
                s.facts = s.facts | {("vrg", op, v)}
                return [(s, v if v is not None else mk("app", name, (op,)))]
            v = tuple(ai.deep(st, a) for a in args)
            s = st.copy()
            s.facts = s.facts | {("val", last, v)}
            return [(s, ok(("tup", ())))]
        if name.startswith(TCORE) or (name.startswith(T + "core::") and TIMPL in name):
            x = ai.deep1(st, args[0])
            if last == "id":
                return [(st, ("tid", x))]
            if last == "layout":
                return [(st, ("lay", x))]
            if last == "dtype":
                return [(st, ("dty", x))]
            if last == "device":
                return [(st, ("dev", x))]
            if last in ("shape", "ndim", "size", "strides", "offset", "dim_size"):
                return [(st, mk("t_" + last, x, *(ai.deep(st, a) for a in args[1:])))]
            if last == "is_requires_grad":
                b = self.rg(st, x)
                return [(st, C(b) if b is not None else ("isrg", x))]
            if last == "with_storage":
                return ai.call_closure(st, fr, bi, args[1], (("stor", x),))
            if last == "with_shape":
                o, u = ai.call_closure(st, fr, bi, args[1], (mk("t_shape", x),))
                return [(s, ("adt", "core::option::Option", "Some", (v,))) for s, v in o], u
            if last == "with_layout":
                o, u = ai.call_closure(st, fr, bi, args[1], (("lay", x),))
                return [(s, ("adt", "core::option::Option", "Some", (v,))) for s, v in o], u
            return None
        if name.startswith("hodu_core::be::storage::BackendStorage::"):
            v = tuple(ai.deep(st, a) for a in args)
            if last in ("dtype", "device"):
                return None
            s = st.copy()
            base = self.site(fr, bi)
            v = tuple(self.widen((base, i), x) for i, x in enumerate(v))
            live = {f[1] for f in s.facts if f[0] == "exec" and f[1][0] == base}
            n = (base, len(live)) if len(live) < 4 else (base, 3)
            vals = frozenset(x for x in s.facts if x[0] == "val")
            s.facts = frozenset(x for x in s.facts if not (x[0] == "exec" and x[1] == n)) | {("exec", n, last, v, vals)}
            f = self.p.fns.get(name)
            x = ("xstor", n)
            return [(s, ok(x) if f is None or f.d["sig"][1].startswith(R) else x)]
        if name.startswith("hodu_core::types::layout::Layout::") and \
                last in ("shape", "ndim", "size", "strides", "offset", "dim_size") and \
                ai.deep1(st, args[0])[0] == "lay":
            return [(st, mk("t_" + last, ai.deep1(st, args[0])[1], *(ai.deep(st, a) for a in args[1:])))]
        if name.endswith("SymbolicLayout::to_max_layout"):
            return [(st, ("adt", "core::option::Option", "Some", (("fresh", mk("app", name, (ai.deep(st, args[0]),))),)))]
        if name == "hodu_core::types::layout::Layout::from_shape":
            return [(st, ("fresh", ai.deep(st, args[0])))]
        if d.startswith("core::convert::Into::into") and args and ai.deep1(st, args[0])[0] in ("targ", "new", "der"):
            return [(st, ai.deep1(st, args[0]))]
        if name.startswith(T) and name in self.p.fns:
            f = self.p.fns[name]
            ret = f.d.get("sig", [[], ""])[1]
            if "hodu_core::tensor::core::Tensor" in ret and not self.enter(name, f, 0):
                if name.startswith((T + "ops::",)):
                    v = tuple(ai.deep(st, a) for a in args)
                    x = ("der", last, tuple(self.tensors(v)))
                elif name.startswith(T + "core::"):
                    return None
                else:
                    x = ("der", "0", (("c", last),))
                if "Vec<" in ret:
                    return None
                if ret.startswith(R):
                    if "(" in ret:
                        return None
                    return [(st, ok(x))]
                return [(st, x)]
        return None

    def part(self, v):
        return None


def mkargs(f, nlist=3):
    """argument terms and the indices of tensor operands"""
    args, ops = [], []
    for i, ty in enumerate(f.d["sig"][0]):
        nm = f.locals[i + 1][1] or str(i)
        ty0 = strip_gen(ty)
        if is_tensor_ty(ty):
            ops.append(len(ops))
            args.append(("targ", ops[-1], nm))
        elif "hodu_core::tensor::core::Tensor" in ty0 and "Option" not in ty0 and ("[" in ty0 or "Vec" in ty0):
            xs = []
            for j in range(nlist):
                ops.append(len(ops))
                xs.append(("targ", ops[-1], "%s[%d]" % (nm, j)))
            args.append(("vec", tuple(xs)))
        elif "hodu_core::tensor::core::Tensor" in ty0 and "Option" in ty0:
            ops.append(len(ops))
            args.append(("optarg", ops[-1], nm))
        elif ty0.startswith("&[") and ty0.endswith("]") and ";" not in ty0:
            args.append(("vec", tuple(("arg", i, "%s[%d]" % (nm, j)) for j in range(2))))
        else:
            args.append(("arg", i, nm))
    return tuple(args), ops


def expand(args):
    """all choices for optional tensors"""
    out = [()]
    O = "core::option::Option"
    for a in args:
        if a[0] == "optarg":
            out = [o + (x,) for o in out for x in (("adt", O, "Some", (("targ", a[1], a[2]),)), ("adt", O, "None", ()))]
        else:
            out = [o + (a,) for o in out]
    return out


def run_root(p, path, nondiff, pub, nlist=3):
    f = p.fn(path)
    args, ops = mkargs(f, nlist)
    scens = [frozenset(), frozenset(ops)] + ([frozenset([i]) for i in ops] if len(ops) > 1 else [])
    res = []
    for a in expand(args):
        present = {x[1] for x in leaves(("tup", a)) if x[0] == "targ"}
        for sc in scens:
            if not sc <= present and sc:
                sc = sc & present
                if not sc:
                    continue
            rule = TRule(p, path, sc, nondiff, pub)
            ai = AI(p, rule, 120000)
            outs, _ = ai.analyse(path, a)
            res.append({"args": a, "scen": sc, "rets": [(rv, s.facts) for rv, s in outs],
                        "done": rule.done, "sites": list(rule.sites.values()),
                        "entered": sorted(ai.entered), "steps": ai.steps,
                        "rg": [[(t, rule.rg(s, t)) for t in rule.tensors(rv)] for rv, s in outs]})
    return res


_P = None


def _work(job):
    path, nondiff, pub = job
    n = (1, 2, 3, 4) if "einsum" in path else (3,)
    r = []
    for k in n:
        try:
            r += run_root(_P, path, nondiff, pub, k)
        except CheckError as e:
            return path, "error: " + str(e)
    return path, r


def analyse(p):
    """{root: results}; two rounds, because whether a derived tensor requires grad depends on the operation"""
    global _P
    _P = p
    dump = extract.extract()
    import hashlib
    me = hashlib.sha1(b"".join(open(os.path.join(os.path.dirname(__file__), x), "rb").read()
                               for x in ("trec.py", "absint.py", "mir.py"))).hexdigest()[:12]
    cache = os.path.join(dump, "trec-%s.pkl" % me)
    if os.path.exists(cache):
        try:
            return pickle.load(open(cache, "rb"))
        except Exception:
            pass
    rs = roots(p)
    pub = frozenset(rs)
    import multiprocessing as mp
    nondiff = frozenset()
    ctx = mp.get_context("fork")
    for rnd in range(3):
        with ctx.Pool(8) as pool:
            res = dict(pool.imap_unordered(_work, [(x, nondiff, pub) for x in rs], chunksize=1))
        nd = set()
        for path, r in res.items():
            if isinstance(r, str):
                continue
            vals = {b for x in r for l in x["rg"] for _t, b in l}
            if vals and True not in vals and None not in vals:
                nd.add(path.rsplit("::", 1)[1])
        if frozenset(nd) == nondiff:
            break
        nondiff = frozenset(nd)
    out = (res, nondiff)
    tmp = cache + ".%d" % os.getpid()
    pickle.dump(out, open(tmp, "wb"))
    os.replace(tmp, cache)
    return out
