"""K01: every operation and element type the validator admits reaches exactly the kernel of that operation and type.

For every backend entry, every operation it accepts and every element type, the MIR from the backend-neutral storage
down to the foreign call is interpreted abstractly with the operation and the storages' element types constant and
everything else unknown (kernel-name formatting and the dispatch tables included); the foreign symbols reached are
compared with the operation and the type (copies of operands into dense buffers aside)."""
from common import *
import kern
from kern import norm
from absint import AI, Rule

ASSUMPTIONS = ["a foreign symbol hodu_cpu_<operation>_<type> computes what its name says (the C bodies are K06's subject)"]
NOT_COVERED = "numeric results of the kernels; the CUDA and Metal back ends, which this build does not compile"


class Plain(Rule):
    pass


def admitted(p, op, d):
    """may validate_dtype_for_op return Ok for this element type and operation?"""
    outs, _ = AI(p, Plain()).analyse(p.one("::validate_dtype_for_op").path, (dt(d), op))
    r = set()
    for rv, _s in outs:
        for x in (rv[1] if rv[0] == "phi" else (rv,)):
            r.add(x[2] if x[0] == "adt" else "?")
    return "Ok" in r or "?" in r


def variant_of(mid, ops):
    """operation whose name is the longest prefix of the normalised kernel name"""
    best, bl = set(), 0
    for o in ops:
        if not o[3]:
            continue
        fam, v = o[2], o[3][0][2]
        names = [norm(v)]
        if fam.startswith("Bitwise"):
            names = ["bitwise" + norm(v), norm(v)]
        for n in names:
            if mid.startswith(n):
                if len(n) > bl:
                    best, bl = {(fam, v)}, len(n)
                elif len(n) == bl:
                    best.add((fam, v))
    return best


def check(rep):
    p = program("hodu_core", "hodu_cpu_kernels", "hodu_internal")
    tab = kern.table()
    ops = all_ops(p)
    ds = dtypes(p)
    byop = {}
    for (path, key), res in tab.items():
        byop.setdefault(key, []).append((path, res))
    rep.floor("dispatch", "backend entries", len({k[0] for k in tab}), 30)
    n_cells = 0
    for o in ops:
        if not o[3]:
            continue
        fam, v = o[2], o[3][0][2]
        if fam in ("Shape", "ShapeScalars", "Cast", "Memory"):
            continue
        ent = byop.get(o)
        if not rep.ob("dispatch", "%s::%s" % (fam, v), bool(ent),
                      "no backend entry accepts this operation: it is offered to users and always fails",
                      "crates/hodu_core/src/be/storage.rs"):
            continue
        for path, res in ent:
            f = p.fn(path)
            typed = any(x.endswith("dtype::DType") for x in f.d["sig"][0])
            for d in ds:
                if not typed and not admitted(p, o, d):
                    continue
                combo, r = res[d]
                n_cells += 1
                key = "%s::%s/%s via %s" % (fam, v, d, f.name)
                syms = sorted({c[0] for c in r["c"]})
                loc = r["c"][0][2] if r["c"] else f.loc
                if not syms:
                    rep.ob("dispatch", key, False, "validation admits this element type but the backend reaches no "
                           "kernel (names formed: %s)" % sorted({str(n[1])[:60] for n in r["names"]})[:3], f.loc)
                    continue
                bad = []
                main = [s for s in syms if not s.startswith("hodu_cpu_contiguous_")]
                if not main:
                    bad.append("only operands are copied, no kernel of the operation runs")
                for s in main:
                    suf = "_" + d.lower()
                    if not s.startswith("hodu_cpu_") or not s.endswith(suf):
                        bad.append("%s does not work on %s" % (s, d))
                        continue
                    mid = norm(s[len("hodu_cpu_"):-len(suf)])
                    got = variant_of(mid, ops)
                    if (fam, v) not in got:
                        bad.append("%s is the kernel of %s" % (s, sorted(got) or "no operation"))
                if not r["rets"]:
                    bad.append("no path returns a result after the kernel ran")
                rep.ob("dispatch", key, not bad, "; ".join(bad), loc)
    rep.floor("dispatch", "operation/type cells", n_cells, 1000)
    rep.floor("dispatch", "foreign kernels known", len(p.foreign), 800)
