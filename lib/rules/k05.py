"""K05: no rank overruns the fixed-size index arrays of a CPU kernel.

Kernels keep coordinates and strides in arrays of a constant length on their stack. Each backend entry is interpreted with operands of
every rank from small to beyond those lengths (and einsum also with more operands and more indices), the metadata it writes is
propagated through the kernel's IR, and the index of every access to such an array must stay below its length. An entry that refuses
the rank before it reaches the kernel satisfies this; one that reaches no kernel at any small rank counts as not analysed."""
import re, itertools
from concurrent.futures import ProcessPoolExecutor
import extract, kern, kmeta, cir, cdep
from extract import CheckError
from absint import C
from rules.common import *

LOW = (2, 3, 4, 5, 6)
PE = "hodu_core::einsum::ParsedEinsum"
ARR = re.compile(r"\[(\d+) x ")
_c = None


class ERule(kmeta.MRule):
    """sizes of einsum indices come out of a hash map: one symbol per index"""
    maxseq = 800

    def on_call(self, ai, st, fr, bi, t, d, r, args):
        if d == PE + "::compute_output_shape":
            return [(st, kmeta.shape("out", len(ai.deep(st, args[0])[3][1][1])))]
        if d == PE + "::get_index_sizes_vec":
            return [(st, ("vec", tuple(("dim", "idx", i) for i in range(len(ai.deep(st, args[0])[3][3][1])))))]
        return super().on_call(ai, st, fr, bi, t, d, r, args)


def parsed(n, rank, nidx):
    ch = [C(ord("a") + i) for i in range(nidx)]
    ins = [("vec", tuple(ch[:rank])) for _ in range(n)]
    ins[-1] = ("vec", tuple(ch[-rank:]))
    out = tuple(ch[:rank])
    return ("adt", PE, "ParsedEinsum", (("vec", tuple(ins)), ("vec", out), ("vec", tuple(ch[rank:])), ("vec", tuple(ch)), ("opaque", "sizes")))


def fixed(name, memo={}):
    """lengths of the integer arrays on the stack of a kernel and of what it calls"""
    if name not in memo:
        memo[name] = set()
        got = cir.fn(name) if name in cir.index() else None
        if got:
            for ins in got[0].blocks.values():
                for i in ins:
                    if i[0] == "alloca" and isinstance(i[2], str) and (re.fullmatch(r"\[\d+ x i(32|64)\]", i[2]) or structarr(i[2], got[1])):
                        memo[name].add(i[2])
                    elif i[0] == "call" and i[2] and i[2].startswith("@"):
                        memo[name] |= fixed(i[2][1:])
                        for _t, v in i[3]:
                            if isinstance(v, str) and v.startswith("@"):
                                memo[name] |= fixed(v[1:])
    return memo[name]


def structarr(ty, types):
    return ty in types and any(re.fullmatch(r"\[\d+ x (i\d+|%.*)\]", x.strip()) for x in types[ty])


def indices(name, args):
    """(function, array length, indices | None) of every access to an array of constant length on the stack"""
    bufs, meta, marg = {}, None, None
    for n, a in enumerate(args):
        if a[0] != "ptr":
            continue
        if a[1] == "usize" and a[2][0] in ("vec", "arr"):
            meta, marg = a[2][1], n
        elif a[1] == "usize":
            raise CheckError("the metadata passed to %s is not a list of known words" % name)
        else:
            bufs[n] = str(n)
    if meta is None:
        return
    an = cdep.Analysis(name, bufs, meta, None, marg)
    for c in an.ctxs:
        for b in c.rpo:
            if b not in c.live:
                continue
            for i in c.f.blocks[b]:
                if i[0] != "gep":
                    continue
                m = ARR.match(i[2])
                if m and len(i[4]) >= 2:
                    iv = c.ival(i[4][1], b)
                    yield c.f.name, int(m.group(1)), iv if isinstance(iv, frozenset) else None


def _work(job):
    global _c
    if _c is None:
        cdep.WIDE = 80
        _c = (program("hodu_core", "hodu_cpu_kernels", "hodu_internal"), kern.table())
    p, tab = _c
    path, op, d = job
    combo, r = tab[(path, op)][d]
    f = p.fn(path)
    short = path.rsplit("::", 1)[-1]
    key = "%s(%s,%s)" % (short, op[3][0][2] if op[3] else op[2], d)
    lens = sorted({int(m) for c in r["c"] for t in fixed(c[0]) for m in ARR.findall(t)} | {16})
    top = max(lens)
    # what may be large: the rank, and for einsum the number of operands and of indices
    if short == "call_ops_einsum":
        shapes = [(2, 2, 3), (3, 3, 4), (4, 4, 6), (4, 16, 16)]
        shapes += [(n, 2, 3) for n in (5, 6, 9)] + [(2, k, k) for k in (17, 18, 24)] + [(2, 2, k) for k in (17, 18, 24)]
        small = 3
    else:
        shapes = [(k,) for k in LOW] + [(k,) for n in lens if n > 6 for k in (n - 1, n, n + 1, n + 2, n + 3)]
        shapes = sorted(set(shapes))
        small = len(LOW)
    out, reached, deep, err = [], 0, 0, ""
    arrays = set()
    for n, s in enumerate(shapes):
        try:
            if short == "call_ops_einsum":
                cc = kmeta.run(p, f, op, d, s[1], combo=combo, lists=s[0] - 1, given={"&" + PE: parsed(*s)}, rulecls=ERule, stop=2)[0]
            else:
                cc = kmeta.calls(p, f, op, d, s[0], combo, stop=4)[0]
        except CheckError as e:
            err = err or "cannot interpret %s for %s: %s" % (key, s, e)
            continue
        if cc and n < small:
            reached += 1
        seen = set()
        for name, args, loc in cc:
            if (name, args) in seen:
                continue
            seen.add((name, args))
            try:
                for fn, ln, iv in indices(name, args):
                    arrays.add(ln)
                    if iv is not None and iv and max(iv) < 1 << 32:
                        deep += 1
                        if max(iv) >= ln:
                            what = "rank %d" % s[0] if len(s) == 1 else "%d operands of rank %d with %d indices" % s
                            out.append("%s indexes an array of %d with %d for %s; %s lets it through" % (fn, ln, max(iv), what, short))
            except CheckError as e:
                err = err or "cannot analyse %s: %s" % (name, e)
    return job, key, reached, deep, out, err


def check(rep):
    p = program("hodu_core", "hodu_cpu_kernels", "hodu_internal")
    cir.build()
    tab = kern.table()
    jobs = []
    skip = set()
    for (path, op), res in sorted(tab.items(), key=lambda x: str(x[0])):
        for d in sorted(res):
            ty = {t for c in res[d][1]["c"] for t in fixed(c[0])}
            if ty:
                jobs.append((path, op, d))
            else:
                skip.add(path)
    n = acc = 0
    ops = set()
    with ProcessPoolExecutor(8) as ex:
        for job, key, reached, deep, out, err in ex.map(_work, jobs, chunksize=4):
            if err:
                rep.undecided(key, err)
            if not reached:
                rep.undecided(key, "no kernel reached at a small rank")
                continue
            if deep:
                n += 1
                ops.add(job[0])
            acc += deep
            rep.ob("array-index", key, not out, out[0] if out else "")
    rep.floor("anchor", "operation and type cells whose kernels index stack arrays", n, 200)
    rep.floor("anchor", "backend entries among them", len(ops), 10)
    rep.floor("anchor", "array accesses bounded", acc, 5000)
    rep.count("entries without such arrays", len(skip))
