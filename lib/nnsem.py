"""Modules, losses and optimizers of hodu_nn interpreted with opaque tensors.

A tensor is ("tn", n): `info[n]` says which operation made it, of which tensors, and whether it requires grad.  Every public
constructor is interpreted for every choice of its booleans, options and enums; forward, parameters, step ... are then interpreted
on the values the constructors return.  Paths on which an operation of the core fails end there."""
import itertools, time
from absint import AI, Rule, CheckError, C, UNIT, TOP, leaves, mk, is_c, State, Frame, as_seq
from mir import strip_gen
from rules.common import *

TEN = "hodu_core::tensor::core::Tensor"
SHP = "hodu_core::types::shape::Shape"
RES = "core::result::Result"
OPT = "core::option::Option"
STATE = "hodu_nn::state::State"


def ok(x):
    return ("adt", RES, "Ok", (x,))


def term(op, vals):
    """a scalar computed from vals: the whole term, or, when that is large, only the symbols in it"""
    t = mk("app", op, vals)
    if t[0] != "big":
        return t
    syms, st = set(), [vals]
    while st:
        x = st.pop()
        if isinstance(x, tuple) and x:
            if x[0] == "sym":
                syms.add(x)
            else:
                st += x
    return ("of",) + tuple(sorted(syms, key=repr))


# size of every dimension, and of every count given to a constructor
SIZE = [2]


class World:
    """tensors of one interpretation"""
    def __init__(self):
        self.ids = {}
        self.info = []
        self.dtype = {}

    def make(self, op, args, grad, tag=None, dtype=None):
        k = (op, args, grad, tag)
        if k not in self.ids:
            self.ids[k] = len(self.info)
            self.info.append((op, args, grad, tag))
            self.dtype[self.ids[k]] = dtype or "?%d" % self.ids[k]
        return ("tn", self.ids[k])

    def deps(self, v):
        """numbers of all tensors v was computed from"""
        out, st = set(), [x[1] for x in leaves(v) if x[0] == "tn"]
        while st:
            n = st.pop()
            if n in out:
                continue
            out.add(n)
            st += [x[1] for a in self.info[n][1] for x in leaves(a) if x[0] == "tn"]
        return out

    def ops(self, v):
        return {self.info[n][0] for n in self.deps(v)}


class NRule(Rule):
    max_depth = 14
    concrete = True
    maxseq = 64
    track_asm = False

    era = None          # tag of the gradients read: tells those of different steps apart

    def __init__(self, p, w, mode=None, rank=3, random=frozenset(), nondiff=frozenset(), seed=0):
        self.nondiff = nondiff
        self.p, self.w, self.mode, self.rank, self.random = p, w, mode, rank, random
        self.unknown = []
        self.nseed = seed

    def enter(self, path, fn, depth, args=()):
        return path.startswith(("hodu_nn::", "<hodu_nn::")) or path.startswith("<") and " as hodu_nn::" in path

    def grad(self, st, n):
        for f in st.facts:
            if f[0] == "grad" and f[1] == n:
                return f[2]
        return self.w.info[n][2]

    def fact(self, st, f, drop=None):
        s = st.copy()
        s.facts = frozenset(x for x in s.facts if not (drop and drop(x))) | {f}
        return s

    def on_call(self, ai, st, fr, bi, t, d, r, args):
        last = d.rsplit("::", 1)[-1]
        tgt = r if r and r in self.p.fns else d
        fn = self.p.fns.get(tgt)
        a = t["f"].get("a") or [""]
        if fn is not None and fn.argc == 0 and strip_gen(fn.locals[0][0]) == STATE:
            if self.mode is None:
                return None
            return [(self.fact(st, ("mode", 1)), ("adt", STATE, self.mode, ()))]
        # cells of interior mutability hold their value directly
        if d.startswith("core::cell::") or d.startswith("std::sync::"):
            if last in ("new",):
                return [(st, args[0])]
            if last in ("borrow", "borrow_mut", "get_mut", "deref", "deref_mut"):
                return [(st, args[0])]
            if last in ("into_inner",):
                return [(st, ai.deep(st, args[0]))]
            if last in ("clone",):
                return [(st, ai.deep(st, args[0]))]
            if last in ("replace", "set", "swap") and args[0][0] == "ref":
                s = st.copy()
                o = ai.load(s, args[0][1], args[0][2])
                ai.store(s, args[0][1], args[0][2], args[1])
                return [(s, o if last == "replace" else UNIT)]
            if last in ("get", "take"):
                return [(st, ai.deep(st, args[0]))]
        if d in ("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut") and a[0].startswith("core::cell::"):
            v = ai.load(st, args[0][1], args[0][2]) if args[0][0] == "ref" else args[0]
            return [(st, v if v[0] == "ref" else args[0])]
        if d in ("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut") and args[0][0] == "ref" and is_c(args[1]):
            base, path = args[0][1], args[0][2]
            v = ai.load(st, base, path)
            while v[0] == "ref":
                base, path = v[1], v[2]
                v = ai.load(st, base, path)
            if v[0] in ("vec", "arr") and args[1][1] < len(v[1]):
                return [(st, ("ref", base, path + (("i", args[1]),)))]
            if v[0] in ("vec", "arr"):
                return []                     # out of bounds: the run ends here
        if last == "last_mut" and args[0][0] == "ref":
            v = ai.load(st, args[0][1], args[0][2])
            if v[0] in ("vec", "arr") and v[1]:
                return [(st, ("adt", OPT, "Some", (("ref", args[0][1], args[0][2] + (("i", C(len(v[1]) - 1)),)),)))]
        if d == "core::clone::Clone::clone" and (strip_gen(a[0]) in (TEN, SHP) or a[0].startswith("core::cell::")):
            return [(st, ai.deep(st, args[0]))]
        vals = tuple(ai.deep(st, x) for x in args)
        core = d.startswith("hodu_core::") or (tgt.startswith("<hodu_core::")) or (r or "").startswith("<hodu_core::")
        tens = [x[1] for v in vals for x in leaves(v) if x[0] == "tn"]
        x = self.scalars(ai, st, d, r, last, a, vals)
        if x is not None:
            return [(st, x)]
        # shapes
        if vals and vals[0][0] == "shape":
            if last in ("ndim", "len"):
                return [(st, C(self.rank))]
            if last in ("index", "dim_size", "get", "dim"):
                return [(st, C(SIZE[0]))]
            if last == "last":
                return [(st, ("adt", OPT, "Some", (C(SIZE[0]),)))]
            if last in ("dims", "deref", "as_slice", "to_vec", "clone", "into", "from"):
                return [(st, vals[0] if last == "clone" else ("vec", tuple(C(SIZE[0]) for _ in range(self.rank))))]
            if last in ("iter", "into_iter"):
                return [(st, ("itr", tuple(C(SIZE[0]) for _ in range(self.rank))))]
            if last == "size":
                return [(st, C(SIZE[0] ** self.rank))]
        if core and fn is not None:
            ret = fn.locals[0][0]
            if last == "dtype" and vals and vals[0][0] == "tn":
                return [(st, ("dtype", self.w.dtype[vals[0][1]]))]
            bad = self.mixed(fn, last, a, vals)
            if bad:
                st = self.fact(st, ("mixed", fr.fn.path, t.get("loc", ""), bad))
            if last == "shape" and vals and vals[0][0] == "tn":
                return [(st, ("shape", vals[0][1]))]
            if last in ("ndim", "rank") and vals and vals[0][0] == "tn":
                return [(st, C(self.rank))]
            if last == "dim_size" and vals and vals[0][0] == "tn":
                return [(st, C(SIZE[0]))]
            if last == "set_requires_grad" and vals[0][0] == "tn":
                if not is_c(vals[1]):
                    self.unknown.append("requires_grad of an unknown value")
                n = vals[0][1]
                return [(self.fact(st, ("grad", n, bool(vals[1][1]) if is_c(vals[1]) else None),
                                   lambda x: x[:2] == ("grad", n)), ok(UNIT))]
            if last in ("is_requires_grad", "requires_grad") and vals[0][0] == "tn":
                g = self.grad(st, vals[0][1])
                return [(st, C(g))] if g is not None else None
            if strip_gen(ret) == TEN or strip_gen(ret).startswith(RES + "<" + TEN) or ret.startswith(RES + "<(" + TEN) or \
                    TEN in ret and "Vec<" in ret and "&" not in ret:
                if last in ("detach", "grad") or last in self.nondiff:
                    g = False
                elif tens:
                    g = any(self.grad(st, n) for n in tens)
                else:
                    g = False
                tag = None
                if tgt in self.random:
                    self.nseed += 1
                    st = self.fact(st, ("random", tgt, self.nseed))
                    tag = self.nseed
                elif not tens:
                    self.nseed += 1
                    tag = self.nseed
                elif last == "grad":
                    tag = self.era
                dty = self.result_dtype(fn, last, a, vals)
                v = self.w.make(tgt, vals, g, tag, dty)
                if ret.startswith(RES + "<(" + TEN) or ret.startswith("(" + TEN):
                    k = ret.count(TEN)
                    v = ("tup", tuple(self.w.make(tgt + "#%d" % i, vals, g, tag, dty) for i in range(k)))
                elif "Vec<" in ret:
                    v = ("vec", tuple(self.w.make(tgt + "#%d" % i, vals, g, tag, dty) for i in range(2)))
                return [(st, ok(v) if ret.startswith(RES) else v)]
            if tens:
                self.nseed += 1
                s = self.fact(st, ("do", tgt, vals, self.nseed))
                if ret.startswith(RES):
                    return [(s, ok(UNIT if "<()" in ret else ("app", tgt, vals)))]
                return [(s, UNIT if ret == "()" else ("app", tgt, vals))]
            if ret.startswith(RES):
                return [(st, ok(("app", tgt, vals)))]
        return None



    def scalars(self, ai, st, d, r, last, a, vals):
        """values of the Scalar type: what is kept is their element type"""
        own = d.startswith(SC + "::") or (r or "").startswith("<" + SC + " as ")
        if own and last in ("to_dtype", "from_f32", "from_usize", "from_isize", "zero", "one") and vals:
            return ("sdt", dt_of_term(vals[-1]), term(last, vals))
        if own and last in ("add", "sub", "mul", "div", "rem"):
            x, y = scalar_dt(vals[0]), scalar_dt(vals[1])
            return ("sdt", x if x == y else None, term(last, vals))
        if own and last in ("sqrt", "powi", "powf", "exp", "ln", "neg", "abs", "clone"):
            return ("sdt", scalar_dt(vals[0]), term(last, vals)) if last != "clone" else vals[0]
        if own and last in ("to_f32", "to_f64") and vals:
            x = vals[0]
            while x[0] == "sdt" and x[2][:2] == ("app", "to_dtype"):
                x = x[2][2][0]
            return ("app", "value", (x[2] if x[0] == "sdt" else x,))
        if own and last == "dtype":
            return ("dtype", scalar_dt(vals[0]) or "?s")
        conv = own and last in ("new", "from") or d == "core::convert::Into::into" and len(a) == 2 and strip_gen(a[1]) == SC
        if conv and vals:
            if vals[0][0] in ("sdt",) or vals[0][0] == "adt" and vals[0][1] == SC:
                return vals[0]
            src = (r or "").split("From<", 1)[1].split(">", 1)[0] if last == "from" and "From<" in (r or "") else (a or [""])[0]
            return ("sdt", PRIMS.get(src), ("app", "into", vals))
        return None

    def argdt(self, v, a):
        """element type of a scalar argument; "" when v is not a scalar"""
        if v[0] == "sdt" or v[0] == "adt" and v[1] == SC:
            return scalar_dt(v) or "caller's"
        for x in a:
            if x in PRIMS:
                return PRIMS[x]
        return ""

    def mixed(self, fn, last, a, vals):
        if not vals or vals[0][0] != "tn" or len(vals) < 2:
            return None
        me = self.w.dtype[vals[0][1]]
        if last in SAME and vals[1][0] == "tn":
            o = self.w.dtype[vals[1][1]]
            if o != me and not o.startswith(("?", "U")) and not me.startswith(("?", "U")):
                return "%s of a tensor of type %s and one of type %s" % (last, word(me), word(o))
        if last not in CREATE and not me.startswith("?"):
            for i in sorted(strict(self.p, fn.path)):
                o = self.argdt(vals[i], a) if i < len(vals) else ""
                if o and o != me and not o.startswith(("?", "U")) and not (me.startswith("U") and o == "D"):
                    return "%s of a tensor of type %s and a scalar of type %s" % (last, word(me), word(o))
        return None

    def result_dtype(self, fn, last, a, vals):
        if last in BOOLRES:
            return "BOOL"
        if last in ("argmax", "argmin"):
            return "I32"
        if last in CREATE:
            return scalar_dt(vals[-1]) or self.argdt(vals[-1], a) or None
        for i in range(fn.argc):
            if strip_gen(fn.locals[i + 1][0]) == DT and i < len(vals):
                return dt_of_term(vals[i])
        tn = [v[1] for v in vals if v[0] == "tn"]
        if not tn:
            tn = [x[1] for v in vals for x in leaves(v) if x[0] == "tn"]
        if tn:
            if last.startswith("where") and len(tn) > 1:
                return self.w.dtype[tn[1]]
            return self.w.dtype[tn[0]]
        for v in vals:
            if scalar_dt(v):
                return scalar_dt(v)
        for x in a:
            for y in PRIMS:
                if x == y or y in x.replace("[", " ").replace("]", " ").replace("<", " ").replace(">", " ").replace(";", " ").replace(",", " ").replace("&", " ").split():
                    return PRIMS[y]
        return None


STRICT = {}
CREATE = {"full_like", "rand_uniform_like", "randn_like"}


def strict(p, path):
    """parameters (0-based) of a tensor operation whose scalar goes on to the backend in the type it came in (it is nowhere converted)"""
    if path in STRICT:
        return STRICT[path]
    STRICT[path] = set()
    fn = p.fns[path]
    own = {i: i - 1 for i in range(1, fn.argc + 1)
           if strip_gen(fn.locals[i][0]) == SC or len(fn.locals[i][0]) <= 2 or fn.locals[i][0].startswith("impl core::convert::Into<" + SC)}
    out, conv, moved = set(), set(), True
    while moved:
        moved = False
        for b in fn.blocks:
            for s in b[0]:
                if s[0] != "=":
                    continue
                for l in used(s[2]):
                    if l in own and not ("discr" in s[2]):
                        if "use" in s[2] or "ref" in s[2]:
                            if s[1][0] not in own:
                                own[s[1][0]] = own[l]
                                moved = True
                        else:
                            out.add(own[l])
            t = b[1]
            if t["t"] != "call":
                continue
            d = t["f"].get("d") or ""
            n = d.rsplit("::", 1)[-1]
            for j, x in enumerate(t["args"]):
                for l in used(x):
                    if l not in own:
                        continue
                    if n in ("into", "from", "clone", "borrow", "deref") or d.startswith(SC + "::from"):
                        if t["dst"][0] not in own:
                            own[t["dst"][0]] = own[l]
                            moved = True
                    elif n.startswith("to_"):
                        conv.add(own[l])
                    elif n.startswith("is_") or n in ("dtype", "fmt"):
                        pass
                    elif d in p.fns and d != path:
                        if j in strict(p, d):
                            out.add(own[l])
                    elif d != path:
                        out.add(own[l])
    STRICT[path] = out - conv
    return STRICT[path]


def used(x):
    """locals an operand or right-hand side names"""
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ("m", "c", "ref", "discr", "len") and isinstance(v, list) and v and isinstance(v[0], int):
                yield v[0]
            else:
                yield from used(v)
    elif isinstance(x, list):
        for y in x:
            yield from used(y)


def word(d):
    return {"D": "given by the user", "caller's": "the caller chose"}.get(d, d)


CMP = {"eq", "ne", "lt", "le", "gt", "ge"}
BOOLRES = CMP | {x + "_scalar" for x in CMP} | {"logical_and", "logical_or", "logical_xor", "logical_not", "isnan", "isinf", "isfinite", "any",
                                                "all"}
SAME = CMP | {"add", "sub", "mul", "div", "maximum", "minimum", "pow", "rem", "matmul", "dot", "add_", "sub_", "mul_", "div_", "set_"}
PRIMS = {"f32": "F32", "f64": "F64", "bool": "BOOL", "i32": "I32", "u32": "U32", "i64": "I64", "u64": "U64", "usize": "USIZE", "u8": "U8",
         "i8": "I8", "half::f16": "F16", "half::bf16": "BF16", "isize": "ISIZE", "u16": "U16", "i16": "I16"}


def dt_of_term(v):
    """element type a DType term stands for"""
    if v[0] == "adt" and v[1] == DT:
        return v[2]
    if v[0] == "sym":
        return "D"
    if v[0] == "dtype":
        return v[1]
    return None


def scalar_dt(v):
    """element type of a Scalar term: a name, "D", or None when nothing is known"""
    if v[0] == "sdt":
        return v[1]
    if v[0] == "adt" and v[1] == SC:
        return v[2]
    return None


def random_ops(p):
    """core functions returning tensors of random numbers: everything that reaches a random back-end entry, by name of the effect"""
    g = p.callgraph(drops=False)
    sinks = {k for k in p.fns if k.startswith("hodu_core::tensor::creation::") and
             any("rand" in x.rsplit("::", 1)[-1] for x in g.get(k, ()))}
    return frozenset(sinks)


def choices(p, ty, mk_tensor):
    """abstract values for a constructor or method parameter of type ty"""
    ty = strip_gen(ty) if not ty.startswith(("core::option", "alloc::vec", "(", "[", "&")) else ty
    if ty == "bool":
        return [C(False), C(True)]
    if ty in ("usize", "u32", "i32", "u64"):
        return [C(SIZE[0])]
    if ty.startswith(OPT + "<"):
        return [("adt", OPT, "None", ())] + [("adt", OPT, "Some", (C(max(1, SIZE[0] - 1)) if x == C(SIZE[0]) else x,))
                                             for x in choices(p, ty[len(OPT) + 1:-1], mk_tensor)]
    if ty.startswith("("):
        return [("tup", c) for c in itertools.product(*[choices(p, x, mk_tensor) for x in split(ty[1:-1])])]
    if ty.startswith("alloc::vec::Vec<"):
        return [("vec", (x,)) for x in choices(p, ty[16:-1], mk_tensor)]
    if ty.startswith("&["):
        return [("vec", (x, x)) for x in choices(p, ty[2:-1], mk_tensor)]
    if ty.startswith("["):
        e, n = ty[1:-1].rsplit(";", 1)
        return [("arr", (x,) * int(n)) for x in choices(p, e.strip(), mk_tensor)]
    if ty.startswith("&"):
        return choices(p, ty[1:].replace("mut ", "", 1) if ty.startswith("&mut") else ty[1:], mk_tensor)
    if ty == TEN:
        return [mk_tensor()]
    a = p.adts.get(ty)
    if a and a["enum"] and ty.startswith("hodu_nn::") and all(not v["f"] for v in a["variants"]):
        return [("adt", ty, v["n"], ()) for v in a["variants"]]
    if ty == SC or "Into<" in ty:
        return [("sdt", None, ("sym", ty))]
    return [("sym", ty)]


def split(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
            continue
        d += c in "<([" 
        d -= c in ">)]"
        cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def modules(p, trait):
    """{type: {method: impl path}} of the derived trait"""
    out = {}
    for q, impls in p.trait_impls.items():
        if q.startswith(trait + "::"):
            for i in impls:
                ty = i[1:].split(" as ", 1)[0]
                out.setdefault(ty, {})[q.rsplit("::", 1)[1]] = i
    return out


def ctors(p, ty):
    out = []
    for k, f in p.fns.items():
        if not k.startswith(strip_gen(ty) + "::") or f.d.get("dk") == "Closure" or k.count("::") != ty.count("::") + 1:
            continue
        r = strip_gen(f.locals[0][0])
        if (r == strip_gen(ty) or r.startswith(RES + "<" + strip_gen(ty) + ",")) and \
                not any(strip_gen(f.locals[i + 1][0]).lstrip("&").replace("mut ", "") == strip_gen(ty) for i in range(f.argc)):
            out.append(k)
    return sorted(out)


def of_scalars(k):
    """a comparison of scalar settings with constants: holds in later calls as well"""
    return k[0] == "bin" and any(x[0] == "app" and x[1] == "value" for x in k[2:] if isinstance(x, tuple)) and \
        all(is_c(x) or x[0] == "flt" or x[0] == "app" and x[1] == "value" for x in k[2:] if isinstance(x, tuple))


def run(p, rule, path, args, facts=frozenset(), self_val=None, budget=600000, seconds=60):
    """-> [(value, facts, self afterwards)] of the paths that end in a value that is not an error"""
    rule.deadline = time.time() + seconds
    ai = AI(p, rule, budget)
    env, a = {}, tuple(args)
    root = ("self", 0)
    if self_val is not None:
        env[root] = self_val
        a = (("ref", root, ()),) + a
    outs, _ = ai.analyse(path, a, facts, env, {f[1]: f[2] for f in facts if f[0] == "known"})
    res = []
    for rv, st in outs:
        if rv[0] == "adt" and rv[1] == RES:
            if rv[2] == "Err":
                continue
            rv = rv[3][0]
        keep = frozenset(("known", k, x) for k, x in st.asm.items() if of_scalars(k))
        res.append((rv, st.facts | keep, ai.deep(st, st.env.get(root, UNIT))))
    return res


def configs(p, ty, w, rank=3):
    """[(constructor, argument description, value, facts)]"""
    out = []
    for c in ctors(p, ty):
        f = p.fns[c]
        n = [0]

        def tensor():
            n[0] += 1
            return w.make("given:%d" % n[0], (), False, "given%d" % n[0], "D")
        for combo in itertools.product(*[choices(p, f.locals[i + 1][0], tensor) for i in range(f.argc)]):
            rule = NRule(p, w, None, rank)
            for v, facts, _s in run(p, rule, c, combo):
                out.append((c, combo, v, frozenset(x for x in facts if x[0] == "grad")))
    return out
