"""K02: both sides of every kernel call agree on what is passed.

Every C function the Rust side declares and calls exists with the declared number and kinds of arguments and result; every
data pointer passed to it addresses the vector of the element type the C function reads and writes it as (the type
of each view of an untyped parameter in the syntax tree, and the width and class of each load and store reachable from
the parameter in the compiled kernel, its thread workers included); and nothing is written through a pointer the Rust
side passes as shared."""
from concurrent.futures import ProcessPoolExecutor
from common import *
import cir, cdep, kern, ksem
from extract import CheckError

ASSUMPTIONS = ["x86-64 System V sizes (the pinned target)", "the back end as compiled here: std, openblas, no Apple frameworks"]

# element type on the Rust side -> its view in C, and its class in the compiled kernel
ELEM = {"f32": ({"float"}, "float"), "f64": ({"double"}, "double"),
        "bool": ({"_Bool", "unsigned char"}, "i8"), "u8": ({"unsigned char"}, "i8"), "i8": ({"signed char", "char"}, "i8"),
        "u16": ({"unsigned short"}, "i16"), "i16": ({"short"}, "i16"), "u32": ({"unsigned int"}, "i32"), "i32": ({"int"}, "i32"),
        "u64": ({"unsigned long", "unsigned long long"}, "i64"), "i64": ({"long", "long long"}, "i64"),
        "usize": ({"unsigned long", "unsigned long long"}, "i64"),
        "half::bf16": ({"bf16_t"}, "i16"), "half::f16": ({"f16_t"}, "i16"), "half::bfloat::bf16": ({"bf16_t"}, "i16"),
        "half::binary16::f16": ({"f16_t"}, "i16"),
        "float8::F8E4M3": ({"f8e4m3_t"}, "i8"), "float8::F8E5M2": ({"f8e5m2_t"}, "i8")}
SCALAR = {"usize": "unsigned long", "u64": "unsigned long", "u32": "unsigned int", "i32": "int", "i64": "long", "f32": "float",
          "f64": "double", "bool": "_Bool", "u8": "unsigned char", "()": "void"}
WIDTH = {"i1": 1, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "float": 4, "double": 8, "ptr": 8}


def agrees(rust, c):
    """a declared Rust parameter type and the C parameter type"""
    const = c.endswith(" const")
    if const:
        c = c[:-6]
    if rust.startswith("*"):
        mut, _, e = rust[1:].partition(" ")
        if not c.endswith("*"):
            return False
        e, ce = e.strip(), c[:-1]
        if e.startswith("*"):
            return ce.endswith("*")
        if e.endswith("c_void") or ce == "void":
            return not ce.endswith("*")
        return ce in ELEM.get(e, ({e},))[0]
    return SCALAR.get(rust, rust) == c or c in ELEM.get(rust, ({None},))[0]


class Lite(cdep.Analysis):
    def deps(self):
        pass

    def types(self):
        """(kind, argument number, element type or None, C function)"""
        out = set()
        for c in self.ctxs:
            for b in c.rpo:
                if b not in c.live:
                    continue
                for i in c.f.blocks[b]:
                    lst = ()
                    if i[0] == "load":
                        lst = (("read", i[3], i[2]),)
                    elif i[0] == "store":
                        lst = (("write", i[4], i[2]),)
                    elif i[0] == "rmw":
                        lst = (("write", i[2], None),)
                    elif i[0] == "call" and i[2] and i[2].startswith("@llvm.memcpy"):
                        lst = (("write", i[3][0][1], None), ("read", i[3][1][1], None))
                    elif i[0] == "call" and i[2] and i[2].startswith("@llvm.memset"):
                        lst = (("write", i[3][0][1], None),)
                    for kind, q, ty in lst:
                        for loc in c.roots(q):
                            if loc[0][0] == "P":
                                out.add((kind, loc[0][1], ty, c.f.name))
        return out


def _types(name):
    try:
        return name, Lite(name, {}, (), None, None).types()
    except CheckError as e:
        return name, str(e)


def vec(ty):
    """element class of an access type, with the vector types of the SIMD paths taken apart"""
    if ty and ty.startswith("<"):
        return ty.strip("<>").split(" x ")[1]
    return ty


DTYPE = {"BOOL": "bool", "F8E4M3": "float8::F8E4M3", "F8E5M2": "float8::F8E5M2", "BF16": "half::bf16", "F16": "half::f16"}


def expected(a, d):
    """element type of an argument of a kernel call, None when the argument is not a data pointer"""
    if a[0] == "ptr":
        return a[1], a[3]
    if a[0] == "arg" and a[2] == "scalar":
        return DTYPE.get(d, d.lower()), False
    return None, False


def check(rep):
    p = program("hodu_core", "hodu_cpu_kernels", "hodu_internal")
    cir.build()
    tab = kern.table()
    ev = ksem.events()
    sig, views = {}, {}
    for f, l in ev.items():
        for x in l:
            if x[2] == "sig" and x[3] == "extern":
                sig.setdefault(x[0], (x[4], x[5:], x[1]))
            elif x[2] == "pview":
                views.setdefault(x[0], {}).setdefault(int(x[3]), set()).add((x[4], x[1]))
    # 1. declarations
    n = 0
    for name, d in sorted(p.foreign.items()):
        if not name.startswith("hodu_cpu_"):
            continue
        n += 1
        if name not in sig:
            rep.ob("defined", name, False, "%s is declared for the CPU back end but no C file of the build defines it" % name, d["loc"])
            continue
        ret, ps, where = sig[name]
        ok = len(ps) == len(d["inputs"]) and all(agrees(a, b) for a, b in zip(d["inputs"], ps)) and agrees(d["output"], ret)
        rep.ob("signature", name, ok, "%s is declared as (%s) -> %s but defined (%s) as (%s) -> %s" % (
            name, ", ".join(d["inputs"]), d["output"], where, ", ".join(ps), ret), d["loc"])
    rep.floor("anchor", "C functions declared", n, 1700)
    # 2. calls
    calls = {}
    for (path, op), res in tab.items():
        for d, (combo, r) in res.items():
            for name, args, loc in r["c"]:
                calls.setdefault(name, {}).setdefault((args, combo, d), loc)
    names = sorted(calls)
    with ProcessPoolExecutor(8) as ex:
        acc = dict(ex.map(_types, names, chunksize=24))
    nv = na = 0
    for name in names:
        cv = views.get(name, {})
        at = acc[name]
        if isinstance(at, str):
            rep.undecided(name, at)
            at = ()
        want = {}
        for (args, combo, d), loc in calls[name].items():
            for i, a in enumerate(args):
                e, mut = expected(a, d)
                if e is None:
                    continue
                if e not in ELEM:
                    rep.undecided("%s:%d" % (name, i), "argument of type " + e)
                    continue
                want.setdefault(i, {}).setdefault((e, mut), (loc, d))
        for i, es in sorted(want.items()):
            if not any(j == i for _k, j, _t, _f in at):
                rep.undecided("%s:%d" % (name, i), "no access through this argument found")
            for (e, mut), (loc, d) in sorted(es.items()):
                cs, cl = ELEM[e]
                for v, where in sorted(cv.get(i, ())):
                    nv += 1
                    rep.ob("view", "%s:%d" % (name, i), v[:-1] in cs,
                           "%s passes a vector of %s to %s, which reads it as %s (%s)" % (loc, e, name, v[:-1], where), where)
                for kind, j, ty, fnm in sorted(at, key=str):
                    if j != i:
                        continue
                    if ty is not None:
                        na += 1
                        t = vec(ty)
                        ok = t == cl or (t == "i1" and cl == "i8")
                        rep.ob("access", "%s:%d" % (name, i), ok,
                               "%s passes a vector of %s to %s, where %s accesses it as %s" % (loc, e, name, fnm, ty), loc)
                    if kind == "write":
                        rep.ob("shared", "%s:%d" % (name, i), mut,
                               "%s passes a shared vector to %s, where %s writes through it" % (loc, name, fnm), loc)
    rep.floor("anchor", "kernels called", len(names), 1400)
    rep.floor("anchor", "typed views of data arguments", nv, 3000)
    rep.floor("anchor", "typed accesses to data arguments", na, 4000)
