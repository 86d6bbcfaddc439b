"""Every CPU kernel reads each operand through that operand's own layout.

The metadata words written by each backend entry are found by interpreting its MIR with layouts of fixed rank whose sizes, strides
and offsets are symbols. The C kernel it calls is compiled to LLVM IR and propagated with exactly these words; the dataflow says which
words the address of each operand access is computed from. Obligations: every metadata read stays inside the vector and inside one
field of it; the address of every read of an operand is computed from that operand's offset and, unless the path is taken only when the
operand is contiguous, from all of its strides; it never is computed from another operand's strides or offset; output addresses use no
operand's strides or offset. An operand made contiguous first must have been so under its own layout."""
import os, re
from concurrent.futures import ProcessPoolExecutor
import extract, kern, kmeta, cir, cdep
from extract import CheckError
from absint import leaves
from rules.common import *

RANKS = (2, 3, 4, 5)
_c = None


def lay(w, k):
    return w[0] in ("stride", "off") and w[1] == k


def one_call(key, name, args, rank, memo, out):
    bufs, meta, marg = {}, None, None
    for n, a in enumerate(args):
        if a[0] != "ptr":
            continue
        if a[1] == "usize":
            if a[2][0] not in ("vec", "arr"):
                out.append(("metadata", key, False, "the metadata %s passes to %s is not a list of known words: %s" %
                            (key, name, str(a[2])[:200])))
                return
            meta, marg = a[2][1], n
        elif a[3]:
            bufs[n] = "out"
        else:
            bn = kmeta.bufnames(a[2])
            if bn:
                bufs[n] = "+".join(bn)
    if meta is None:
        out.append(("metadata", key, False, "no metadata passed to " + name))
        return
    mk_ = (name, tuple(sorted(bufs.items())), meta)
    if mk_ in memo:
        return
    memo.add(mk_)
    has = {(w[0], w[1]) for w in meta if len(w) > 1}
    strided = []
    for n, b in sorted(bufs.items()):
        if b == "out":
            continue
        for x in b.split("+"):
            if "@" in x:
                k, j = x.split("@")
                out.append(("contiguous", "%s:%s" % (key, k), k == j, "%s makes operand %s contiguous under the layout %s" % (key, k, j)))
            else:
                strided.append((n, x))
    an0 = cdep.Analysis(name, bufs, meta, None, marg)
    for fnm, s in an0.metareads():
        if s is None:
            out.append(("metadata", name, False, "a metadata index of %s cannot be bounded" % fnm))
            continue
        bad = [x for x in s if not 0 <= x < len(meta)]
        out.append(("word", name, not bad, "%s reads metadata word %s of the %d that %s writes at rank %d" % (fnm, bad, len(meta), key, rank)))
        if not bad:
            kinds = {(meta[x][0], meta[x][1]) if meta[x][0] in ("stride", "off") else "n" for x in s}
            out.append(("field", name, len(kinds) <= 1, "%s reads one metadata word that is %s depending on the dimension, as %s writes them at "
                        "rank %d" % (fnm, " or ".join(sorted(map(str, kinds))), key, rank)))
    for kind, n, labs, fnm, ty in an0.accesses():
        b = bufs.get(n)
        if b is None:
            continue
        if b == "out" or kind == "write":
            alien = sorted({str(w[:2]) for w in labs if w[0] in ("stride", "off")})
            out.append(("output", name, not alien, "%s computes an output address from %s" % (fnm, alien)))
            continue
        ks = {x.split("@")[0] for x in b.split("+")}
        alien = sorted({str(w[:2]) for w in labs if w[0] in ("stride", "off") and (w[1] not in ks or "@" in b)})
        out.append(("own", "%s:%s" % (name, b), not alien, "%s computes the address of %s from %s (metadata of %s, rank %d)" %
                    (fnm, b, alien, key, rank)))
    rk = {}
    for w in meta:
        if w[0] == "stride":
            rk[w[1]] = max(rk.get(w[1], 0), w[2] + 1)
    groups = {}
    for fnm, wm, ws, grp, val, step in an0.pairs():
        ds = {(x[1], x[2]) for x in leaves(wm) if x[0] == "dim"}
        if ws[0] != "stride" or not ds or any(x[0] not in ("dim", "c") for x in leaves(wm)):
            continue
        bad = [x for x in ds if (x[1] != ws[2] if x[0] == ws[1] else x[0] in rk and rk[x[0]] - x[1] != rk[ws[1]] - ws[2])]
        out.append(("aligned", name, not bad, "%s multiplies an index into dimension %s by the stride of dimension %d of %s" %
                    (fnm, ", ".join("%d of %s" % (i, o) for o, i in sorted(bad)), ws[2], ws[1])))
        if step:
            groups.setdefault((fnm, grp, step), {})[val] = ws[2]
    for (fnm, _g, step), vs in groups.items():
        d = [vs[v + step] - vs[v] for v in vs if v + step in vs]
        inc = sum(x == 1 for x in d) > sum(x == -1 for x in d)
        out.append(("order", name, not inc, "%s takes its running index apart from the first dimension on, but elements are numbered from the "
                    "last dimension on" % fnm))
    for n, k in strided:
        miss = [x for x in ("off", "stride") if (x, k) not in has]
        out.append(("reaches", "%s:%s" % (name, k), not miss, "%s passes operand %s without its %s and without making it contiguous" %
                    (key, k, " and ".join({"off": "offset", "stride": "strides"}[x] for x in miss))))
        if miss:
            continue
        tested, flag = an0.compared(k), ("is_contiguous", k) in has
        for blk, labs, fnm in block_reads(an0, n):
            have = {w[2] for l in labs for w in l if w[0] == "stride" and w[1] == k}
            want = {w[2] for w in meta if w[0] == "stride" and w[1] == k}
            if any(("iv",) in l for l in labs) and not flag:
                out.append(("tested", "%s:%s" % (name, k), want - have <= tested, "%s reads %s on some path without its strides of dimension "
                            "%s and never tests these (rank %d)" % (fnm, k, sorted(want - have - tested), rank)))
        an = cdep.Analysis(name, bufs, meta, k, marg)
        nread = 0
        allhave = {w[2] for _b, ls, _f in block_reads(an, n) for l in ls for w in l if w[0] == "stride" and w[1] == k}
        for blk, labs, fnm in block_reads(an, n):
            nread += 1
            o = all(("off", k) in l for l in labs)
            out.append(("offset", "%s:%s" % (name, k), o, "%s reads %s at an address that ignores its offset (rank %d)" % (fnm, k, rank)))
            have = set()
            for l in labs:
                have |= {w[2] for w in l if w[0] == "stride" and w[1] == k}
            if not any(("iv",) in l for l in labs):
                have |= allhave
            want = {w[2] for w in meta if w[0] == "stride" and w[1] == k}
            out.append(("strides", "%s:%s" % (name, k), have >= want, "%s reads %s at an address that ignores its strides of dimension %s "
                        "although it need not be contiguous there (rank %d)" % (fnm, k, sorted(want - have), rank)))
        out.append(("reads", "%s:%s" % (name, k), nread > 0, "%s never reads operand %s" % (name, k)))
    # offsets are needed on contiguous paths too
    for kind, n, labs, fnm, ty in an0.accesses():
        for m, k in strided:
            if m == n and kind == "read" and ("off", k) in has:
                out.append(("offset", "%s:%s" % (name, k), ("off", k) in labs,
                            "%s reads %s at an address that ignores its offset (rank %d)" % (fnm, k, rank)))


def block_reads(an, n):
    out = {}
    for c in an.ctxs:
        for b in c.rpo:
            if b not in c.live:
                continue
            for i in c.f.blocks[b]:
                ptrs = ()
                if i[0] == "load":
                    ptrs = (i[3],)
                elif i[0] == "call" and i[2] and i[2].startswith("@llvm.memcpy"):
                    ptrs = (i[3][1][1],)
                elif i[0] == "call" and i[2] and not i[2].startswith("@llvm") and i[2][1:] not in cir.index():
                    ptrs = tuple(v for t, v in i[3] if t == "ptr" and isinstance(v, str))
                for p in ptrs:
                    if any(r[0] == ("P", n) for r in c.roots(p)):
                        out.setdefault((c.cid, b), (c.f.name, []))[1].append(an.labels(an.g(c, p)))
    return [(k, labs, fnm) for k, (fnm, labs) in out.items()]


def _work(job):
    global _c
    if _c is None:
        _c = (program("hodu_core", "hodu_cpu_kernels", "hodu_internal"), kern.table())
    p, tab = _c
    path, op, d = job
    combo, r = tab[(path, op)][d]
    f = p.fn(path)
    short = path.rsplit("::", 1)[-1]
    key = "%s(%s,%s)" % (short, op[3][0][2] if op[3] else op[2], d)
    out, memo = [], set()
    got = 0
    m = re.search(r"(\d)d", key.lower())
    for rank in (int(m.group(1)) + 2,) if m else RANKS:
        try:
            cc, st, unk = kmeta.calls(p, f, op, d, rank, combo)
        except CheckError as e:
            out.append(("interpreted", key, False, "cannot interpret %s at rank %d: %s" % (key, rank, e)))
            continue
        if not cc:
            continue
        if short == "call_ops_matmul" and rank > 2:
            # the one operation whose operands may differ in rank
            for low in ("self", "rhs_storage"):
                cc = cc + kmeta.run(p, f, op, d, rank, combo=combo, ranks={low: rank - 1})[0]
        got += 1
        seen = set()
        for name, args, loc in cc:
            if (name, args) in seen:
                continue
            seen.add((name, args))
            try:
                one_call(key, name, args, rank, memo, out)
            except CheckError as e:
                out.append(("interpreted", key, False, "cannot analyse %s: %s" % (name, e)))
        if got >= 2:
            break
    out.append(("called", key, got > 0, "no kernel call of %s could be followed at any rank" % key))
    # fold: one entry per (rule, key), failing if any did
    fold = {}
    for rule, k, ok, what in out:
        o = fold.setdefault((rule, k), [0, 0, ""])
        o[0] += 1
        if ok:
            o[1] += 1
        elif not o[2]:
            o[2] = what
    return job, len(memo), fold


SKIP = {"call_ops_einsum"}


def check(rep):
    p = program("hodu_core", "hodu_cpu_kernels", "hodu_internal")
    cir.build()
    tab = kern.table()
    jobs = [(path, op, d) for (path, op), res in sorted(tab.items(), key=lambda x: str(x[0])) for d in sorted(res)
            if any("_contiguous_" not in c[0] for c in res[d][1]["c"]) and path.rsplit("::", 1)[-1] not in SKIP]
    ncalls = decided = 0
    with ProcessPoolExecutor(8) as ex:
        for job, n, fold in ex.map(_work, jobs, chunksize=6):
            ncalls += n
            und = False
            for (rule, k), (m, ok, what) in fold.items():
                if rule in ("metadata", "interpreted", "called"):
                    if what:
                        rep.undecided(k, what)
                        und = True
                    continue
                for _ in range(ok):
                    rep.ob(rule, k, True)
                if what:
                    rep.ob(rule, k, False, what)
            decided += not und
    rep.floor("anchor", "operation and type cells", len(jobs), 1500)
    rep.floor("anchor", "cells decided", decided, 1000)
    rep.floor("anchor", "kernel calls analysed", ncalls, 2500)
