"""K06: kernels compute in at least the precision of their elements.

A kernel the Rust side calls with vectors of f64 or of 32- or 64-bit integers (and every worker, comparator and helper
reachable from it) evaluates no single-precision expression: no element, coordinate or partial result is rounded to f32.
A 64-bit integer is not truncated to a narrower one, and no kernel uses the conversions of a small float type that is
none of its operand types. Kernels that convert between element types by design are exempt from the parts that concern
the narrower of their two types."""
from common import *
import kern, ksem
from k02 import ELEM, DTYPE
from k09 import SMALL

WIDE = {"f64", "i64", "u64", "i32", "u32"}
CT = {t: next(iter(c)) for t, (c, _k) in ELEM.items() if next(iter(c)) in SMALL}


def check(rep):
    program("hodu_core", "hodu_cpu_kernels", "hodu_internal")
    tab = kern.table()
    ev = ksem.events()
    fn, sig = {}, {}
    for f, l in ev.items():
        for x in l:
            # static helpers may share names across files
            fn.setdefault((f, x[0]), []).append(x)
            if x[2] == "sig":
                sig.setdefault(x[0], []).append((f, x[3], x[4], [q[:-6] if q.endswith(" const") else q for q in x[5:]]))
    conv = {}
    for name, ss in sig.items():
        for f, _l, ret, ps in ss:
            if len(ps) == 1 and ((ps[0] in SMALL and ret == "float") or (ret in SMALL and ps[0] == "float")):
                conv[(f, name)] = ({ret, *ps} & set(SMALL)).pop()
    where = {name: f for (f, name) in fn if any(g == f and l == "extern" for g, l, _r, _p in sig.get(name, ()))}
    el, idx = {}, {}
    for (path, op), res in tab.items():
        for d, (combo, r) in res.items():
            for name, args, loc in r["c"]:
                for n, a in enumerate(args):
                    if a[0] == "ptr" and a[1] in ELEM and a[1] != "usize":
                        el.setdefault(name, {}).setdefault(n, set()).add(a[1])
                    elif a[0] == "ptr" and a[1] not in ELEM:
                        el.setdefault(name, {}).setdefault(n, set()).add(DTYPE.get(d, d.lower()))
    nk = nf = 0
    for name, ts in sorted(el.items()):
        types = set().union(*ts.values())
        if name not in where:
            rep.undecided(name, "no definition found")
            continue
        # everything reachable from the kernel
        seen, work = set(), [(where[name], name)]
        while work:
            k = work.pop()
            if k in seen or k not in fn:
                continue
            seen.add(k)
            for x in fn[k]:
                if x[2] == "call":
                    t = (k[0], x[3])
                    work.append(t if t in fn else (where.get(x[3]), x[3]))
        small = {conv[k] for k in seen if k in conv}
        mine = {CT[t] for t in types if t in CT}
        for s in sorted(small - mine):
            rep.ob("foreign-format", "%s:%s" % (name, s), False,
                   "%s is called with vectors of %s but goes through %s" % (name, ", ".join(sorted(types)), s))
        rep.ob("foreign-format", name, True)
        # the element type: the widest; kernels with an f32 or small float operand convert by design
        elems = types - {"bool", "usize"}
        ints = {t for t in elems if t[0] in "iu"}
        if "f32" in elems or mine or not elems & WIDE:
            continue
        # index operands and index results are i32 in every kernel of an operation
        others = elems - {"i32"}
        if "i32" in elems and not others and not elem_is_i32(name, tab):
            continue
        if elems - {"i32"} and not (elems - {"i32"}) & WIDE:
            continue
        nk += 1
        for k in sorted(seen):
            nf += 1
            hits = sorted({x[1] for x in fn[k] if x[2] == "single"})
            rep.ob("precision", "%s:%s" % (name, k[1]), not hits,
                   "%s is called with vectors of %s but %s computes in single precision" % (name, ", ".join(sorted(elems)), k[1]),
                   hits[0] if hits else "")
            if elems & {"i64", "u64"}:
                cut = sorted({(x[1], x[4], x[6]) for x in fn[k] if x[2] == "conv" and x[3] == "IntegralCast" and not x[6].endswith("size_t")
                              and any(w in x[5] for w in ("i64_t", "u64_t", "int64_t", "uint64_t"))})
                rep.ob("truncation", "%s:%s" % (name, k[1]), not cut,
                       "%s: a 64-bit element is truncated to %s" % (k[1], cut[0][1] if cut else ""), cut[0][0] if cut else "")
    rep.floor("anchor", "kernels of f64 and 32/64-bit integers", nk, 380)
    rep.floor("anchor", "functions reached from them", nf, 450)


_m = {}


def elem_is_i32(name, tab):
    """the kernel is one the table selects for the element type i32"""
    if not _m:
        for (path, op), res in tab.items():
            for d, (combo, r) in res.items():
                for n, args, loc in r["c"]:
                    _m.setdefault(n, set()).add(d)
    return _m.get(name) == {"I32"} or "I32" in _m.get(name, ()) and len(_m[name]) < 10
