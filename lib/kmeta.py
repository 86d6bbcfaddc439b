"""What each CPU backend entry passes to its C kernels: pointers by operand and the metadata words by meaning.

Each entry is interpreted with layouts of a fixed rank whose sizes, strides and offsets are symbols, every path on its own, so the
metadata vector becomes a list of words such as ("dim", k, i), ("stride", k, i), ("off", k)."""
import itertools, time
from absint import AI, Rule, CheckError, C, UNIT, leaves, mk, is_c, as_seq
from mir import strip_gen
from rules.common import *
import kern

LAY = "hodu_core::types::layout::Layout"
SHP = "hodu_core::types::shape::Shape"


def shape(k, r):
    return ("adt", SHP, "Shape", (("vec", tuple(("dim", k, i) for i in range(r))),))


def layout(k, r):
    return ("adt", LAY, "Layout", (shape(k, r), ("vec", tuple(("stride", k, i) for i in range(r))), ("off", k)))


def lname(v):
    """name of the operand a layout value belongs to, when it is one of the entry's layouts unchanged"""
    if v[0] == "adt" and v[1] == LAY and v[3][2][0] == "off" and v[3][1][0] == "vec" and \
            all(x[0] == "stride" and x[1] == v[3][2][1] for x in v[3][1][1]):
        return v[3][2][1]
    return None


class Enough(Exception):
    """as many calls were found as were asked for"""


class MRule(Rule):
    max_depth = 14
    stop = None
    concrete = True
    maxseq = 200

    def __init__(self, p):
        self.p = p
        self.ccalls = []
        self.unknown = []

    def on_call(self, ai, st, fr, bi, t, d, r, args):
        last = d.rsplit("::", 1)[-1]
        O = "core::option::Option"
        if last == "get_kernel_name":
            return [(st, ai.deep(st, args[0]))]
        if last == "allocate" and d.endswith("BackendDeviceT::allocate"):
            v = ai.deep(st, args[1])
            if v[0] == "adt" and v[1] == DT:
                n = ai.deep(st, args[0])
                return [(st, ("adt", "core::result::Result", "Ok", (("adt", CS, v[2], (("buf", v[2], "out", n),)),)))]
            return None
        if last == "contiguous" and d.endswith("BackendStorageT::contiguous"):
            s, l = ai.deep(st, args[0]), ai.deep(st, args[1])
            if s[0] == "adt" and s[1] == CS and s[3] and s[3][0][0] == "buf":
                b = s[3][0]
                return [(st, ("adt", "core::result::Result", "Ok",
                              (("adt", CS, s[2], (("buf", b[1], b[2] + "@" + str(lname(l)), TOPN),)),)))]
        if last in ("as_ptr", "as_mut_ptr"):
            ty = (t["f"].get("a") or ["?"])[0]
            v = ai.deep(st, args[0])
            return [(st, ("ptr", ty, v, last == "as_mut_ptr"))]
        if last in ("add", "offset", "wrapping_add") and d.startswith("core::ptr::"):
            v = ai.deep(st, args[0])
            return [(st, ("ptradd", v, ai.deep(st, args[1])))]
        if last in ("cast", "cast_mut", "cast_const") and d.startswith("core::ptr::"):
            return [(st, args[0])]
        if last in self.p.foreign and d not in self.p.fns:
            self.ccalls.append((last, tuple(ai.deep(st, a) for a in args), t.get("loc", "")))
            if self.stop and len(self.ccalls) >= self.stop:
                raise Enough()
            return [(st, UNIT)]
        if d in (LAY + "::is_contiguous", LAY + "::size", SHP + "::size", LAY + "::buffer_size"):
            v = ai.deep(st, args[0])
            if v[0] == "adt" and v[1] == LAY:
                k = lname(v)
                if k is not None:
                    return [(st, (last, k))]
                if last == "size":
                    v = v[3][0]
            if last == "size" and v[0] == "adt" and v[1] == SHP and v[3][0][0] == "vec" and v[3][0][1] and \
                    all(x[0] == "dim" for x in v[3][0][1]) and len({x[1] for x in v[3][0][1]}) == 1 and \
                    [x[2] for x in v[3][0][1]] == list(range(len(v[3][0][1]))):
                return [(st, ("size", v[3][0][1][0][1]))]
        if d.startswith("smallvec::"):
            if last in ("from_slice", "from_vec", "into_vec", "to_vec", "from", "from_iter"):
                v = as_seq(ai.deep(st, args[0]))
                return [(st, ("vec", v[1]) if v[0] in ("vec", "arr", "itr") else v)]
            if last in ("new", "with_capacity"):
                return [(st, ("vec", ()))]
            if last in ("deref", "deref_mut", "as_slice", "as_mut_slice", "borrow"):
                return [(st, args[0])]
            if last == "len":
                return [(st, ai.length(st, args[0]))]
            if last == "push":
                return ai.model(st, fr, bi, t, "alloc::vec::Vec::push", r, args)
        if r and r.startswith("<smallvec::") or (t["f"].get("a") or [""])[0].startswith("smallvec::SmallVec"):
            if last in ("deref", "deref_mut"):
                return [(st, args[0])]
            if last in ("clone",):
                return [(st, ai.deep(st, args[0]))]
            if last == "into_iter":
                v = ai.deep(st, args[0])
                return [(st, ("itr", v[1]) if v[0] == "vec" else v)]
            if last == "index" and is_c(args[1]):
                v = ai.deep(st, args[0])
                return [(st, ai.proj(v, ("i", args[1])))]
            if last == "extend" or last == "from":
                if last == "from":
                    return [(st, ai.deep(st, args[0]))]
        if last in ("max", "min") and len(args) == 2 and is_c(args[0]) and is_c(args[1]):
            return [(st, C((max if last == "max" else min)(args[0][1], args[1][1])))]
        if last == "index_mut" and args[0][0] == "ref" and len(args) == 2 and is_c(args[1]):
            v = ai.load(st, args[0][1], args[0][2])
            if v[0] in ("vec", "arr"):
                return [(st, ("ref", args[0][1], args[0][2] + (("i", args[1]),)))]
        # growing and reading vectors
        if last in ("extend", "extend_from_slice", "append", "extend_from_within") and args[0][0] == "ref":
            v = ai.load(st, args[0][1], args[0][2])
            w = as_seq(ai.deep(st, args[1]))
            if v[0] == "ref":
                v = ai.deep(st, v)
            if v[0] in ("vec", "arr") and w[0] in ("vec", "arr", "itr"):
                s = st.copy()
                ai.store(s, args[0][1], args[0][2], ("vec", v[1] + w[1]))
                return [(s, UNIT)]
        if last == "insert" and d.startswith("alloc::vec::") and args[0][0] == "ref" and is_c(args[1]):
            v = ai.load(st, args[0][1], args[0][2])
            if v[0] == "vec":
                s = st.copy()
                i = args[1][1]
                ai.store(s, args[0][1], args[0][2], ("vec", v[1][:i] + (args[2],) + v[1][i:]))
                return [(s, UNIT)]
        if last == "remove" and d.startswith("alloc::vec::") and args[0][0] == "ref" and is_c(args[1]):
            v = ai.load(st, args[0][1], args[0][2])
            if v[0] == "vec" and args[1][1] < len(v[1]):
                s = st.copy()
                i = args[1][1]
                ai.store(s, args[0][1], args[0][2], ("vec", v[1][:i] + v[1][i + 1:]))
                return [(s, v[1][i])]
        if last == "from_elem" and is_c(args[1]) and isinstance(args[1][1], int):
            return [(st, ("vec", (args[0],) * args[1][1]))]
        if last in ("saturating_sub",) and is_c(args[0]) and is_c(args[1]):
            return [(st, C(max(0, args[0][1] - args[1][1])))]
        if d in ("core::slice::<impl [T]>::contains", "core::slice::<impl [T]>::last", "core::slice::<impl [T]>::first",
                 "core::slice::<impl [T]>::get", "core::slice::<impl [T]>::reverse", "core::slice::<impl [T]>::sort",
                 "core::slice::<impl [T]>::sort_unstable") or (d.startswith("alloc::slice::") and last in ("sort", "sort_unstable", "concat", "to_vec", "sort_by")):
            v = ai.deep(st, args[0])
            if v[0] in ("vec", "arr"):
                if last == "contains":
                    x = ai.deep(st, args[1])
                    if is_c(x) and all(is_c(y) for y in v[1]):
                        return [(st, C(x in v[1]))]
                    if not v[1]:
                        return [(st, C(False))]
                elif last in ("last", "first"):
                    return [(st, ("adt", O, "Some", (v[1][-1 if last == "last" else 0],)) if v[1] else ("adt", O, "None", ()))]
                elif last == "get" and is_c(args[1]) and isinstance(args[1][1], int):
                    i = args[1][1]
                    return [(st, ("adt", O, "Some", (v[1][i],)) if 0 <= i < len(v[1]) else ("adt", O, "None", ()))]
                elif last == "to_vec":
                    return [(st, ("vec", v[1]))]
                elif last in ("reverse", "sort", "sort_unstable") and args[0][0] == "ref":
                    s = st.copy()
                    if last == "reverse":
                        ai.store(s, args[0][1], args[0][2], ("vec", v[1][::-1]))
                    elif all(is_c(y) for y in v[1]):
                        ai.store(s, args[0][1], args[0][2], ("vec", tuple(sorted(v[1]))))
                    else:
                        return None
                    return [(s, UNIT)]
        if last in ("product", "sum") and d.startswith("core::iter::"):
            v = as_seq(ai.deep(st, args[0]))
            if v[0] in ("itr", "vec", "arr"):
                acc = C(1 if last == "product" else 0)
                for x in v[1]:
                    x = ai.deep(st, x)
                    acc = x if (acc == C(1) and last == "product") or (acc == C(0) and last == "sum") else \
                        ai.binop("Mul" if last == "product" else "Add", acc, x)
                return [(st, acc)]
        if last in ("filter",) and d.startswith("core::iter::"):
            v = as_seq(ai.deep1(st, args[0]))
            if v[0] in ("itr", "vec", "arr"):
                cur = [(st, ())]
                for x in v[1]:
                    nxt = []
                    for s, acc in cur:
                        o, _u = ai.call_closure(s, fr, bi, args[1], (x,))
                        for s2, rv in o:
                            if is_c(rv):
                                nxt.append((s2, acc + ((x,) if rv[1] else ())))
                            else:
                                nxt.append((s2, acc + (x,)))
                                nxt.append((s2.copy(), acc))
                    cur = nxt[:32]
                return [(s, ("itr", acc)) for s, acc in cur]
        if last in ("filter_map", "flat_map") and d.startswith("core::iter::"):
            v = as_seq(ai.deep1(st, args[0]))
            if v[0] in ("itr", "vec", "arr"):
                cur = [(st, ())]
                for x in v[1]:
                    nxt = []
                    for s, acc in cur:
                        o, _u = ai.call_closure(s, fr, bi, args[1], (x,))
                        for s2, rv in o:
                            if last == "flat_map":
                                w = as_seq(ai.deep(s2, rv))
                                nxt.append((s2, acc + (w[1] if w[0] in ("itr", "vec", "arr") else (w,))))
                            else:
                                for s3, vn, y in ai.option(s2, rv):
                                    nxt.append((s3, acc + ((y,) if vn == "Some" else ())))
                    cur = nxt[:32]
                return [(s, ("itr", acc)) for s, acc in cur]
        if last == "fold" and d.startswith("core::iter::"):
            v = as_seq(ai.deep1(st, args[0]))
            if v[0] in ("itr", "vec", "arr"):
                cur = [(st, args[1])]
                for x in v[1]:
                    nxt = []
                    for s, acc in cur:
                        o, _u = ai.call_closure(s, fr, bi, args[2], (acc, x))
                        nxt += o
                    cur = nxt[:32]
                return cur
        if last == "next" and d.startswith("core::iter::"):
            x = ai.m_iter(st, fr, bi, t, d, r, args)
            if x is None:
                self.unknown.append((fr.fn.path.rsplit("::", 1)[-1], repr(ai.deep(st, args[0]))[:300]))
                return [(st, ("adt", O, "None", ()))]
            return x
        if d == "core::ops::range::RangeInclusive::new":
            return [(st, ("adt", "core::ops::range::RangeInclusive", "RangeInclusive", args))]
        return None


TOPN = ("n",)


def run(p, f, op, d, rank, dims=None, combo=None, lists=1, lens=None, ranks=None, stop=None, given=None, rulecls=None):
    """C calls of backend entry f for operation op: [(C function, args, loc)] per path, the operand order and unknown iterators.

    lens: length of each slice argument (default: the rank); ranks: rank of an operand other than `rank`."""
    lens, ranks = lens or {}, ranks or {}
    sig = f.d["sig"][0]
    names = [f.locals[i + 1][1] or str(i) for i in range(len(sig))]
    stor, args = [], []
    nst = sum(1 for ty in sig if ty == "&" + BS)
    combo = combo or (d,) * nst
    for i, ty in enumerate(sig):
        if ty == "&" + BS:
            stor.append(names[i])
        elif ty == "&[&%s]" % BS:
            stor += ["%s.%d" % (names[i], j) for j in range(lists)]
    n = nl = 0
    for i, ty in enumerate(sig):
        nm = names[i]
        if given and ty in given:
            args.append(given[ty])
        elif ty == "&" + BS:
            c = combo[n] if n < len(combo) else d
            args.append(("adt", BS, "CPU", (("adt", CS, c, (("buf", c, nm, TOPN),)),)))
            n += 1
        elif ty == "&[&%s]" % BS:
            args.append(("arr", tuple(("adt", BS, "CPU", (("adt", CS, d, (("buf", d, "%s.%d" % (nm, j), TOPN),)),))
                                      for j in range(lists))))
        elif ty == "&" + LAY:
            args.append(layout(stor[nl], ranks.get(stor[nl], rank)))
            nl += 1
        elif ty == "&[&%s]" % LAY:
            args.append(("arr", tuple(layout(s, rank) for s in stor[nl:])))
            nl = len(stor)
        elif ty == "&" + SHP:
            args.append(shape(nm, rank))
        elif ty.endswith("ops::Op"):
            args.append(op)
        elif ty.endswith("scalar::Scalar"):
            args.append(("adt", SC, d, (("arg", i, nm),)))
        elif ty.endswith("dtype::DType"):
            args.append(dt(d))
        elif ty == "&[usize]":
            if nm == "dims":
                args.append(("arr", (C(1),)))
            else:
                args.append(("arr", tuple(("par", nm, j) for j in range(lens.get(nm, rank if dims is None else dims)))))
        elif ty == "usize":
            args.append(C(1) if nm in ("dim", "axis") else ("par", nm))
        elif ty.startswith("core::option::Option<usize"):
            args.append(("adt", "core::option::Option", "Some", (C(1),)))
        else:
            args.append(("arg", i, nm))
    rule = (rulecls or MRule)(p)
    rule.deadline = time.time() + 40
    rule.stop = stop
    ai = AI(p, rule, 60000)
    import absint
    old = absint.MAXTERM
    absint.MAXTERM = 4000
    try:
        ai.analyse(f, tuple(args))
    except Enough:
        pass
    finally:
        absint.MAXTERM = old
    return rule.ccalls, stor, rule.unknown


def calls(p, f, op, d, rank, combo, stop=None):
    """the same, finding the argument lengths and operand ranks that the entry accepts at this rank"""
    sig = f.d["sig"][0]
    sl = [f.locals[i + 1][1] for i, ty in enumerate(sig) if ty == "&[usize]" and f.locals[i + 1][1] != "dims"]
    st = [f.locals[i + 1][1] for i, ty in enumerate(sig) if ty == "&" + BS][1:]
    for rk in (None,) + ((1,) if st else ()):
        for ln in itertools.product(*[(rank, rank - 2, 2 * rank) for _ in sl]):
            if any(x < 1 for x in ln):
                continue
            r = run(p, f, op, d, rank, combo=combo, lens=dict(zip(sl, ln)), ranks={s: rk for s in st} if rk else {}, stop=stop)
            if r[0]:
                return r
    return [], [], []


def bufnames(v):
    out = []
    for x in leaves(v):
        if x[0] == "buf" and x[2] not in out:
            out.append(x[2])
    return out
