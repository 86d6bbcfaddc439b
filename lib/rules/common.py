"""Vocabulary of the workspace that several rules share."""
from mir import Program, strip_gen
from absint import AI, Rule, CheckError

OPS = "hodu_core::ops::"
CS = "hodu_core::be_cpu::storage::CpuStorage"
BS = "hodu_core::be::storage::BackendStorage"
DT = "hodu_core::types::dtype::DType"
SC = "hodu_core::scalar::Scalar"

_prog = {}


def program(*crates):
    key = crates or None
    if key not in _prog:
        _prog[key] = Program(list(crates) or None)
    return _prog[key]


def all_ops(p):
    """every value of the Op enum that carries only a sub-operation"""
    out = []
    for v in p.adt(OPS + "Op")["variants"]:
        if not v["f"]:
            out.append(("adt", OPS + "Op", v["n"], ()))
            continue
        inner = strip_gen(v["f"][0][1])
        for w in p.adt(inner)["variants"]:
            out.append(("adt", OPS + "Op", v["n"], (("adt", inner, w["n"], ()),)))
    return out


def op_name(op):
    """('Binary','Add') of an Op value, or None when it is not a constant"""
    if op[0] == "adt" and op[1] == OPS + "Op":
        if not op[3]:
            return (op[2], None)
        x = op[3][0]
        if x[0] == "adt":
            return (op[2], x[2])
    return None


def dtypes(p):
    return p.variants(DT)


def dt(n):
    return ("adt", DT, n, ())
