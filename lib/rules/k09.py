"""K09: elements of the integer-backed float types are computed on as floats.

f16, bf16 and the two 8-bit floats are unsigned integers to the compiler, so C accepts arithmetic on their bits. In every
kernel and helper: no arithmetic, comparison, truth test, shift or numeric conversion is applied to such a value outside
the functions that convert the type to float and back (and compare-and-swap loops that reload the bits); no value of one
of the types is assigned, passed or returned as another, nor as a plain number, nor a number as one of them other than the
bit patterns of zero, one and the extremes; and a kernel the Rust side calls with vectors of such a type, or of any other
element type, views no operand as a different one."""
import struct
from common import *
import cir, kern, ksem
from k02 import ELEM, DTYPE

SMALL = ("f16_t", "bf16_t", "f8e4m3_t", "f8e5m2_t")


def f16bits(x):
    return struct.unpack("<H", struct.pack("<e", x))[0]


# bit patterns of 0, -0, 1, -1, the infinities or the largest finite values, NaN
CONST = {"f16_t": {0, 0x8000, 0x3c00, 0xbc00, 0x7c00, 0xfc00, 0x7bff, 0xfbff, 0x7e00},
         "bf16_t": {0, 0x8000, 0x3f80, 0xbf80, 0x7f80, 0xff80, 0x7f7f, 0xff7f, 0x7fc0},
         "f8e4m3_t": {0, 0x80, 0x38, 0xb8, 0x7e, 0xfe, 0x7f, 0xff},
         "f8e5m2_t": {0, 0x80, 0x3c, 0xbc, 0x7b, 0xfb, 0x7c, 0xfc, 0x7e, 0x7f, 0xff}}


def small(t):
    return t.rstrip("*") in SMALL


def check(rep):
    ev = ksem.events()
    byfn = {}
    for f, l in ev.items():
        for x in l:
            byfn.setdefault((x[0], x[1].split(":")[0] if x[2] in ("fn", "sig") else None), [])
            byfn.setdefault(x[0], {}).setdefault(tuple(x[1:]), f)
    fns = {k: list(v) for k, v in byfn.items() if isinstance(k, str)}
    nfl = nsmall = 0
    callers, convs = {}, {}
    for name, xs in fns.items():
        sg = [x for x in xs if x[1] == "sig"]
        ret, ps = (sg[0][3], [q[:-6] if q.endswith(" const") else q for q in sg[0][4:]]) if sg else ("", [])
        # a conversion: one value of the type in and float out, or the reverse
        if len(ps) == 1 and ((ps[0] in SMALL and ret == "float") or (ret in SMALL and ps[0] == "float")):
            convs[name] = {ret, *ps} & set(SMALL)
        for x in xs:
            if x[1] == "call" and x[2] != name:
                callers.setdefault(x[2], set()).add(name)
    nconv = len(convs)
    # and what is called from the conversions of one type only
    while True:
        more = {}
        for f, cs in callers.items():
            if f in fns and f not in convs and all(c in convs for c in cs):
                ts = set().union(*(convs[c] for c in cs))
                if len(ts) == 1:
                    more[f] = ts
        if not more:
            break
        convs.update(more)
    for name, xs in sorted(fns.items()):
        conv = convs.get(name, set())
        cas = any(x[1] == "cast" and x[3].startswith("_Atomic(") and small(x[4]) for x in xs)
        touched = False
        for x in xs:
            where = x[0]
            if x[1] == "arith":
                touched = True
                rep.ob("bits", "%s:%s" % (name, x[2]), bool(conv) and x[3] in conv,
                       "%s applies %s to the bits of %s" % (name, x[2], x[3]), where)
            elif x[1] == "cast":
                kind, d, s = x[2:5]
                if not small(d) and not small(s):
                    continue
                touched = True
                if d.startswith("_Atomic(") or d.rstrip("*") == s.rstrip("*"):
                    ok = True
                elif kind in ("BitCast", "NoOp") and d.endswith("*") and not small(s):
                    ok = True
                elif s.startswith("const:"):
                    ok = int(s[6:]) in CONST.get(d, ())
                elif conv:
                    ok = (d if d in SMALL else s) in conv
                else:
                    ok = False
                rep.ob("cast", "%s:%s<-%s" % (name, d, s), ok, "%s converts %s to %s by its bits (%s)" % (name, s, d, kind), where)
            elif x[1] == "flow":
                kind, d, s = x[2:5]
                touched = True
                nfl += 1
                if d == s:
                    ok = True
                elif s == "void*":
                    ok = d.endswith("*")
                elif s.startswith("const:"):
                    ok = d.endswith("*") or int(s[6:]) in CONST.get(d, ())
                elif conv:
                    ok = (d if d in SMALL else s) in conv
                elif cas:
                    ok = d in ("uint16_t", "uint8_t", "unsigned short", "unsigned char") or (d in SMALL and s == "int")
                else:
                    ok = False
                rep.ob("flow", "%s:%s<-%s" % (name, d, s), ok, "%s: %s of %s as %s" % (name, kind, s, d), where)
        nsmall += touched
    rep.floor("anchor", "functions using the small float types", nsmall, 600)
    rep.floor("anchor", "conversion functions", nconv, 8)
    rep.floor("anchor", "value flows of the small float types", nfl, 1800)
    # operands of the kernels the Rust side calls
    tab = kern.table()
    types = {}
    for (path, op), res in tab.items():
        for d, (combo, r) in res.items():
            for name, args, loc in r["c"]:
                for a in args:
                    if a[0] == "ptr" and a[1] in ELEM:
                        types.setdefault(name, set()).update(v for v in ELEM[a[1]][0])
                    elif a[0] == "arg" and a[2] == "scalar":
                        types.setdefault(name, set()).update(ELEM[DTYPE.get(d, d.lower())][0])
    # thread workers view the operands of the kernel that starts them
    nv = 0
    for name, ts in sorted(types.items()):
        for x in fns.get(name, ()):
            if x[1] == "view" and small(x[2]):
                nv += 1
                rep.ob("view", "%s:%s" % (name, x[2]), x[2].rstrip("*") in ts,
                       "%s is called with vectors of %s but views one as %s" % (name, ", ".join(sorted(ts)), x[2]), x[0])
    rep.floor("anchor", "views of kernel operands", nv, 400)
