"""F01: an element type means the same in every table: its name, its width, its class, and the bytes of its elements.

An element-type table is any enum with a variant per element type (the core's and the plugins' DType, Scalar, the CPU storage).
Every function from one of them to another, to a name, to a width or to a class is evaluated for every variant, every function from
a name (or tag) back is evaluated on the names the other direction gives, and every pair of functions from storage to bytes and back
is followed on symbolic elements of every type: decoding what was encoded has to give the same elements, in order."""
import re
from rules.common import *
from absint import C, UNIT, TOP, is_c, mk

CRATES = ("hodu_core", "hodu_plugin", "hodu_plugin_runtime", "hodu_plugin_sdk", "hodu_cli")
WIDTH = {"BOOL": 1, "F8E4M3": 1, "F8E5M2": 1, "BF16": 2, "F16": 2}
RUST = {"half::bfloat::bf16": "BF16", "half::binary16::f16": "F16", "float8::F8E4M3": "F8E4M3", "float8::F8E5M2": "F8E5M2", "bool": "BOOL"}
OPT, RES = "core::option::Option", "core::result::Result"


def width(n):
    return WIDTH.get(n) or int(re.search(r"\d+$", n).group()) // 8


def cls(n):
    return "bool" if n == "BOOL" else "float" if n[0] in "FB" else "uint" if n[0] == "U" else "int"


def rust(ty):
    ty = ty.strip()
    return RUST.get(ty) or (ty.upper() if re.fullmatch(r"[fiu]\d+", ty) else None)


def variant(enums, v):
    """name of the element type in a value: ('DType', name), Ok/Some of it; None when there is none"""
    while v[0] == "adt" and v[1] in (OPT, RES) and v[2] in ("Ok", "Some") and v[3]:
        v = v[3][0]
    return v[2] if v[0] == "adt" and v[1] in enums else None


class Tab(Rule):
    concrete = True
    unwind = False
    max_depth = 8
    maxseq = 64

    def __init__(self, p):
        self.p = p

    def enter(self, path, fn, depth, args=()):
        return True

    def on_call(self, ai, st, fr, bi, t, d, r, args):
        m = r or d or ""
        n = m.rsplit("::", 1)[-1]
        ty = self.owner(m, t)
        if n in ("to_lowercase", "to_ascii_lowercase", "to_uppercase", "to_ascii_uppercase") and args:
            v = ai.deep(st, args[0])
            if is_c(v) and isinstance(v[1], str):
                return [(st, C(v[1].lower() if "lower" in n else v[1].upper()))]
        if n in ("as_str", "to_string", "into_string", "trim", "as_ref", "borrow", "to_owned") and args:
            v = ai.deep(st, args[0])
            if is_c(v) and isinstance(v[1], str):
                return [(st, C(v[1].strip() if n == "trim" else v[1]))]
        if n in ("eq", "ne", "eq_ignore_ascii_case") and len(args) == 2:
            a, b = ai.deep(st, args[0]), ai.deep(st, args[1])
            if is_c(a) and is_c(b) and isinstance(a[1], str) and isinstance(b[1], str):
                x = a[1].lower() == b[1].lower() if "ignore" in n else a[1] == b[1]
                return [(st, C(x != (n == "ne")))]
        if n == "parse" and "core::str" in m:
            for x in t["f"].get("a") or ():
                f = self.p.fns.get("<%s as core::str::traits::FromStr>::from_str" % x)
                if f is not None:
                    return ai.activate(st, fr, bi, f, args)
        if n in ("serialize_unit_variant",) and len(args) == 4:
            return [(st, ("adt", RES, "Ok", (("tup", (ai.deep(st, args[2]), ai.deep(st, args[3]))),)))]
        if n in ("write_str", "write_fmt", "pad") and "fmt::Formatter" in m and len(args) == 2:
            v = ai.deep(st, args[1])
            if n == "write_fmt":
                v = ai.fmt_string(st, fr, bi, v)
            s = st.copy()
            s.facts = s.facts | {("out", v[1] if is_c(v) else str(v))}
            return [(s, ("adt", RES, "Ok", (UNIT,)))]
        # ---- bytes of elements
        if n in ("to_le_bytes", "to_ne_bytes", "to_be_bytes") and args:
            v = ai.deep(st, args[0])
            e = self.elt(v)
            if e:
                k = width(e)
                bs = tuple(("byte", v, i) for i in range(k))
                return [(st, ("arr", bs if n == "to_le_bytes" else bs[::-1]))]
        if n in ("from_le_bytes", "from_ne_bytes", "from_be_bytes") and args and ty:
            v = ai.deep(st, args[0])
            if v[0] in ("arr", "vec"):
                bs = v[1] if n == "from_le_bytes" else v[1][::-1]
                return [(st, self.join(ty, bs))]
        if n == "to_bits" and args:
            v = ai.deep(st, args[0])
            e = self.elt(v)
            if e and width(e) == 1:
                return [(st, ("byte", v, 0))]
            return [(st, ("bits", v))]
        if n == "from_bits" and args and ty:
            v = ai.deep(st, args[0])
            if v[0] == "bits":
                return [(st, v[1] if self.elt(v[1]) == ty else ("conv", ty, v))]
            return [(st, self.join(ty, (v,)))]
        if n in ("from", "into", "to_f32", "from_f32", "to_f64", "from_f64") and len(args) == 1:
            v = ai.deep(st, args[0])
            e = self.elt(v)
            to = {"to_f32": "F32", "to_f64": "F64"}.get(n)
            if n in ("from_f32", "from_f64"):
                to = ty
            if n in ("from", "into"):
                mm = re.search(r"<(\S+) as core::convert::From<(\S+)>>", m)
                to = rust(mm.group(1)) if mm else rust((t["f"].get("a") or ["", ""])[0 if n == "from" else -1])
            if e and to:
                return [(st, self.conv(to, v))]
        if n in ("index", "index_mut") and len(args) == 2:
            v, i = ai.deep(st, args[0]), ai.deep(st, args[1])
            if v[0] in ("arr", "vec") and i[0] == "adt" and "::range::" in i[1] and all(is_c(x) for x in i[3][:2]):
                k = i[1].rsplit("::", 1)[1]
                e = len(v[1])
                lo, hi = {"RangeTo": lambda a: (0, a), "RangeFrom": lambda a: (a, e), "Range": lambda a, b: (a, b),
                          "RangeFull": lambda: (0, e), "RangeInclusive": lambda a, b, *_: (a, b + 1)}.get(k, lambda *_: (0, -1))(
                    *[x[1] for x in i[3] if isinstance(x[1], int) and not isinstance(x[1], bool)])
                if 0 <= lo <= hi <= e:
                    if n == "index":
                        return [(st, ("vec", v[1][lo:hi]))]
                    return [(st, ("part", args[0], lo, hi))]
        if n == "downcast_ref" and args:
            v = ai.deep(st, args[0])
            to = re.search(r"Vec<([^<>]*)>", (t["f"].get("a") or [""])[-1])
            if to and v[0] in ("vec", "arr") and v[1] and all(self.elt(x) for x in v[1]):
                if rust(to.group(1)) == self.elt(v[1][0]):
                    return [(st, ("adt", OPT, "Some", (("ref", ("obj", ("vec", v[1])), ()),)))]
                return [(st, ("adt", OPT, "None", ()))]
        if n == "copy_from_slice" and len(args) == 2 and args[0][0] == "part":
            a, lo, hi = args[0][1:]
            b = ai.deep(st, args[1])
            s = st.copy()
            while a[0] == "ref" and ai.load(s, a[1], a[2])[0] == "ref":
                a = ai.load(s, a[1], a[2])
            cur = ai.load(s, a[1], a[2]) if a[0] == "ref" else TOP
            if cur[0] in ("vec", "arr") and b[0] in ("vec", "arr") and len(b[1]) == hi - lo:
                ai.store(s, a[1], a[2], (cur[0], cur[1][:lo] + b[1] + cur[1][hi:]))
                return [(s, UNIT)]
        if n == "copy_from_slice" and len(args) == 2:
            b = ai.deep(st, args[1])
            a = args[0]
            if a[0] == "ref" and b[0] in ("vec", "arr"):
                cur = ai.load(st, a[1], a[2])
                if cur[0] in ("vec", "arr") and len(cur[1]) == len(b[1]):
                    s = st.copy()
                    ai.store(s, a[1], a[2], (cur[0], b[1]))
                    return [(s, UNIT)]
        if n == "try_into" and args:
            v = ai.deep(st, args[0])
            if v[0] in ("arr", "vec"):
                return [(st, ("adt", RES, "Ok", (("arr", v[1]),)))]
        if n in ("to_vec", "clone", "to_owned") and args:
            v = ai.deep(st, args[0])
            if v[0] in ("vec", "arr", "el"):
                return [(st, v)]
        if n == "len" and args:
            v = ai.deep(st, args[0])
            if v[0] in ("vec", "arr"):
                return [(st, C(len(v[1])))]
        return None

    def owner(self, m, t):
        """element type whose method is called"""
        mm = re.search(r"(half::bfloat::bf16|half::binary16::f16|float8::F8E4M3|float8::F8E5M2)", m)
        if mm:
            return rust(mm.group(1))
        mm = re.search(r"<impl ([fiu]\d+)>", m)
        return rust(mm.group(1)) if mm else None

    def elt(self, v):
        """element type of a symbolic element"""
        if v[0] == "el":
            return v[1]
        if v[0] == "conv":
            return v[1]
        if v[0] == "cast":
            return rust(v[1])
        return None

    def conv(self, to, v):
        e = self.elt(v)
        if e == to:
            return v
        if v[0] == "conv" and self.elt(v[2]) == to and wide(v[1], to):
            return v[2]
        return ("conv", to, v)

    def join(self, ty, bs):
        """element of type ty with these bytes"""
        if bs and all(b[0] == "byte" and b[1] == bs[0][1] and b[2] == i for i, b in enumerate(bs)) and \
                self.elt(bs[0][1]) == ty and len(bs) == width(ty):
            return bs[0][1]
        return ("joined", ty, tuple(bs))


def wide(a, b):
    """every value of type b is a value of type a"""
    if cls(b) == "bool":
        return True
    if cls(a) == "float" and cls(b) == "float":
        mant = {"F64": 52, "F32": 23, "F16": 10, "BF16": 7, "F8E4M3": 3, "F8E5M2": 2}
        exp = {"F64": 11, "F32": 8, "F16": 5, "BF16": 8, "F8E4M3": 4, "F8E5M2": 5}
        return mant[a] >= mant[b] and exp[a] >= exp[b]
    if cls(a) == "float":
        return {"F64": 53, "F32": 24, "F16": 11, "BF16": 8}.get(a, 0) >= width(b) * 8 - (cls(b) == "int")
    if cls(b) == "float":
        return False
    return width(a) > width(b) - (cls(a) == cls(b)) if cls(a) in ("int",) or cls(b) == "uint" else False


class Conv(AI):
    def rvalue(self, st, fr, rv):
        if isinstance(rv, dict) and "cast" in rv:
            v = self.deep(st, self.operand(st, fr, rv["cast"]))
            e = self.rule.elt(v)
            to = rust(rv["ty"])
            if v[0] == "byte" and to and width(to) == 1:
                return self.rule.join(to, (v,)) if self.rule.elt(v[1]) == to else v
            if e and to:
                if width(e) == width(to) == 1 and {e, to} <= {"U8", "I8"}:
                    return ("byte", v, 0) if e != to else v
                return self.rule.conv(to, v)
        return super().rvalue(st, fr, rv)


def value(v):
    return v[1] if is_c(v) else None


def check(rep):
    p = program(*CRATES)
    enums = {a: [v["n"] for v in d["variants"]] for a, d in p.adts.items()
             if len(d["variants"]) > 8 and {"F32", "I64", "BOOL", "BF16"} <= {v["n"] for v in d["variants"]}}
    rep.floor("anchor", "enums with a variant per element type", len(enums), 4)
    names = {n for ns in enums.values() for n in ns}
    for a, ns in sorted(enums.items()):
        rep.ob("variants", a, set(ns) == names, "%s lacks %s" % (a, sorted(names - set(ns))), "")
    # widths of the elements the storage really holds
    for v in p.adt(CS)["variants"]:
        el = re.search(r"Vec<(.*)>", v["f"][0][1])
        rep.ob("variants", "storage of " + v["n"], bool(el) and rust(el.group(1)) == v["n"], "the storage of %s holds %s" % (
            v["n"], v["f"][0][1]), "")
    tables = {k: [] for k in ("enum", "name", "parse", "size", "class", "enc", "dec", "ser", "typed", "made")}
    for k, f in sorted(p.fns.items()):
        if "{closure" in k or f.d.get("dk") == "Closure":
            continue
        tys = [re.sub(r"^&(?:'\w+ )?(?:mut )?", "", strip_gen(f.locals[i][0])) for i in range(f.argc + 1)]
        out, ins = tys[0], tys[1:]
        inner = re.sub(r"^core::(?:result::Result|option::Option)<([^,>]*(?:<[^>]*>)?).*$", r"\1", out)
        base = k.rsplit("::", 1)[-1]
        if len(ins) == 1 and ins[0] in enums:
            if inner in enums and base not in ("clone", "sqrt", "abs", "neg"):
                tables["enum"].append((k, f, ins[0]))
            elif inner in ("str", "alloc::string::String"):
                tables["name"].append((k, f, ins[0]))
            elif out == "usize" and re.search("size|width|bytes", base.replace("usize", "").replace("isize", "")):
                tables["size"].append((k, f, ins[0]))
            elif out == "bool" and base.startswith("is_"):
                tables["class"].append((k, f, ins[0]))
            elif out.startswith("alloc::vec::Vec<u8"):
                tables["enc"].append((k, f, ins[0]))
        elif len(ins) == 2 and base == "fmt" and "Display" in k and ins[0] in enums and enums[ins[0]] and \
                not p.adt(ins[0])["variants"][0]["f"]:
            tables["name"].append((k, f, ins[0]))
        elif ins == ["str"] and inner in enums:
            tables["parse"].append((k, f, inner))
        elif len(ins) == 2 and ins[0] == "[u8]" and ins[1] in enums and inner in enums:
            tables["dec"].append((k, f, ins[1], inner))
        elif len(ins) == 1 and rust(ins[0]) and inner in enums or not ins and inner in enums:
            st = f.d.get("impl_self") or ""
            tables["typed"].append((k, f, ins, inner))
        elif len(ins) == 2 and ins[1] in enums and inner in enums and base not in ("eq",) and (
                ins[0] not in enums or not p.adt(ins[1])["variants"][0]["f"] and p.adt(inner)["variants"][0]["f"]):
            tables["made"].append((k, f, ins, inner))

    def run(f, args):
        ru = Tab(p)
        ai = Conv(p, ru, 60000)
        rets, unws = ai.analyse(f.path, args)
        return [(ai.deep(s, v), s) for v, s in rets], unws

    def unit(a, n):
        v = next(x for x in p.adt(a)["variants"] if x["n"] == n)
        return ("adt", a, n, tuple(("sym", "payload") for _ in v["f"]))
    ntab = 0
    for k, f, a in tables["enum"]:
        bad = []
        for n in enums[a]:
            rets, _ = run(f, [("ref", ("obj", unit(a, n)), ()) if f.locals[1][0].startswith("&") else unit(a, n)])
            got = {variant(enums, v) for v, s in rets}
            if got - {n, None} or got == {None} and not all(v[0] == "adt" and v[2] in ("Err", "None") for v, s in rets):
                bad.append("%s becomes %s" % (n, sorted(map(str, got))))
        ntab += 1
        rep.ob("map", k, not bad, "%s: %s" % (k, "; ".join(bad[:3])), f.loc)
    rep.floor("anchor", "maps between element-type enums", len(tables["enum"]), 8)
    rep.count("evaluated entries", ntab * len(names))
    named = {}
    for k, f, a in tables["name"]:
        got, bad = {}, []
        for n in enums[a]:
            arg = unit(a, n)
            args = [("ref", ("obj", arg), ()) if f.locals[1][0].startswith("&") else arg]
            if f.argc == 2:
                args.append(("ref", ("obj", ("sym", "formatter")), ()))
            rets, _ = run(f, args)
            vs = set()
            for v, s in rets:
                o = [x[1] for x in s.facts if x[0] == "out"] if f.argc == 2 else [value(v)]
                vs |= set(o)
            if len(vs) != 1 or not isinstance(next(iter(vs)), str):
                if f.argc == 2:
                    got = None
                    break
                bad.append("%s has no single name" % n)
                continue
            got.setdefault(vs.pop(), []).append(n)
        if got is None:
            rep.undecided("names|" + k, "formatted text not established")
            continue
        bad += ["%s are all called %r" % (" and ".join(ns), s) for s, ns in sorted(got.items()) if len(ns) > 1]
        bad += ["%s is called %r" % (ns[0], s) for s, ns in sorted(got.items()) if s.upper() != ns[0]]
        named.setdefault(a, {}).update({ns[0]: s for s, ns in got.items()})
        rep.ob("names", k, not bad, "%s: %s" % (k, "; ".join(bad[:3])), f.loc)
    rep.floor("anchor", "tables of names", len(tables["name"]), 2)
    for k, f, a in tables["parse"]:
        bad = []
        for n in enums[a]:
            s = (named.get(a) or {}).get(n, n.lower())
            rets, _ = run(f, [C(s)])
            got = {variant(enums, v) for v, _ in rets}
            if got != {n}:
                bad.append("%r is read as %s" % (s, sorted(map(str, got))))
        rep.ob("parse", k, not bad, "%s: %s" % (k, "; ".join(bad[:3])), f.loc)
    rep.floor("anchor", "readers of names", len(tables["parse"]), 2)
    for k, f, a in tables["size"]:
        bad = []
        for n in enums[a]:
            rets, _ = run(f, [("ref", ("obj", unit(a, n)), ()) if f.locals[1][0].startswith("&") else unit(a, n)])
            got = {value(v) for v, _ in rets}
            if got != {width(n)}:
                bad.append("%s takes %d bytes, not %s" % (n, width(n), sorted(map(str, got))))
        rep.ob("width", k, not bad, "%s: %s" % (k, "; ".join(bad[:3])), f.loc)
    rep.floor("anchor", "tables of widths", len(tables["size"]), 2)
    CLS = {"is_float": {"float"}, "is_bool": {"bool"}, "is_uint": {"uint"}, "is_integer": {"int", "uint"}, "is_signed": {"int", "float"}}
    for k, f, a in tables["class"]:
        base = k.rsplit("::", 1)[-1]
        yes = set()
        ok = True
        for n in enums[a]:
            rets, _ = run(f, [("ref", ("obj", unit(a, n)), ()) if f.locals[1][0].startswith("&") else unit(a, n)])
            got = {value(v) for v, _ in rets}
            if got == {True}:
                yes.add(n)
            elif got != {False}:
                ok = False
        if not ok:
            continue
        want = [{n for n in enums[a] if cls(n) in c} for c in
                ([CLS[base]] if base in CLS else [{"int"}, {"int", "uint"}] if base == "is_int" else [])]
        if want:
            odd = sorted(min((w ^ yes for w in want), key=len))
            rep.ob("class", k, yes in want, "%s is wrong about %s" % (k, ", ".join(odd)), f.loc)
    for k, f, ins, out in tables["typed"]:
        st = f.d.get("impl_self") or ""
        n = rust(st) or (rust(ins[0]) if ins else None)
        if n is None or n == "U64" and "usize" in k:
            continue
        args = [("el", n, 0)] * len(ins)
        try:
            rets, _ = run(f, args)
        except CheckError:
            continue
        got = {variant(enums, v) for v, _ in rets}
        if got - {None}:
            rep.ob("typed", k, got == {n}, "%s: elements of type %s are tagged %s" % (k, n, sorted(map(str, got))), f.loc)
    for k, f, ins, out in tables["made"]:
        bad = []
        known = True
        for n in enums[ins[1]]:
            a0 = ("el", rust(ins[0]), 0) if rust(ins[0]) else unit(ins[0], "F32") if ins[0] in enums else ("sym", "arg1")
            if f.locals[1][0].startswith("&"):
                a0 = ("ref", ("obj", a0), ())
            try:
                rets, _ = run(f, [a0, unit(ins[1], n)])
            except CheckError:
                known = False
                break
            got = {variant(enums, v) for v, _ in rets}
            if got - {n, None}:
                bad.append("asked for %s, makes %s" % (n, sorted(map(str, got - {n}))))
        if known:
            rep.ob("made", k, not bad, "%s: %s" % (k, "; ".join(bad[:3])), f.loc)
    reads(rep, p, enums, run, unit)
    # bytes
    nenc = 0
    for k, f, a in tables["enc"]:
        for k2, f2, d, a2 in tables["dec"]:
            if a2 != a or k.rsplit("::", 1)[0] != k2.rsplit("::", 1)[0]:
                continue
            nenc += 1
            bad = []
            for n in enums[a]:
                xs = tuple(("el", n, i) for i in range(2))
                src = ("adt", a, n, (("vec", xs),))
                try:
                    rets, _ = run(f, [("ref", ("obj", src), ())])
                except CheckError as e:
                    rep.undecided("bytes|%s|%s" % (k, n), str(e))
                    continue
                for v, s in rets:
                    if v[0] not in ("vec", "arr", "itr"):
                        bad.append("%s: the bytes of its elements cannot be established" % n)
                        continue
                    want = xs
                    if n == "BOOL":
                        want = tuple(C(bool(s.asm.get(x))) if x in s.asm else x for x in xs)
                    rets2, _ = run(f2, [("ref", ("obj", ("vec", v[1])), ()), unit(d, n)])
                    got = set()
                    for v2, s2 in rets2:
                        if v2[0] == "adt" and v2[2] == "Ok":
                            got.add(v2[3][0])
                        else:
                            got.add(v2)
                    if got != {("adt", a, n, (("vec", want),))}:
                        bad.append("%s: elements written as [%s] are read back as %s" % (
                            n, ", ".join(map(showb, v[1])), "; ".join(showv(x) for x in got)))
            rep.ob("bytes", "%s / %s" % (k, k2), not bad, "%s, read by %s: %s" % (k, k2, "; ".join(bad[:3])), f.loc)
    rep.floor("anchor", "pairs of byte encoders and decoders", nenc, 2)
    serde(rep, p, enums)


class Reads(Tab):
    """the elements of a tensor of a known type, taken as a vector"""
    def __init__(self, p, dt):
        Tab.__init__(self, p)
        self.dt = dt
        self.seen = set()

    def enter(self, path, fn, depth, args=()):
        return depth < 2

    def on_call(self, ai, st, fr, bi, t, d, r, args):
        m = r or d or ""
        n = m.rsplit("::", 1)[-1]
        if m.endswith("Tensor::dtype"):
            return [(st, self.dt)]
        if READ.search(m):
            e = rust((t["f"].get("a") or [""])[-1])
            if e:
                self.seen.add(e)
            return [(st, ("sym", "elements"))]
        return super().on_call(ai, st, fr, bi, t, d, r, args)


READ = re.compile(r"hodu_core::.*::(to_flatten_vec|to_vec[1-9]d|to_scalar\w*)$")


def reads(rep, p, enums, run, unit):
    """where a function reads a tensor's elements in one of many types, it reads each tensor in the type of its elements"""
    n = 0
    for k, f in sorted(p.fns.items()):
        sites = [t for b, t, c in f.calls() if READ.search(t["f"].get("r") or t["f"].get("d") or "")]
        if len({(t["f"].get("a") or [""])[-1] for t in sites}) < 5:
            continue
        n += 1
        bad = []
        for e in enums[DT]:
            ru = Reads(p, unit(DT, e))
            ai = Conv(p, ru, 3000)
            a = [unit(DT, e) if strip_gen(f.locals[i + 1][0]).endswith(DT) else ("sym", "arg%d" % i) for i in range(f.argc)]
            try:
                ai.analyse(f.path, a)
            except CheckError as x:
                if "budget" not in str(x):
                    raise
            if not ru.seen:
                rep.undecided("read|%s|%s" % (k, e), "no read of elements reached")
            elif ru.seen - {e}:
                bad.append("the elements of a %s tensor are read as %s" % (e, " and ".join(sorted(ru.seen)) or "nothing"))
        rep.ob("read", k, not bad, "%s: %s" % (k, "; ".join(bad[:3])), f.loc)
    rep.floor("anchor", "functions that read elements of every type", n, 2)


def serde(rep, p, enums):
    """derived (de)serialization: the tag a variant is written with is the tag it is read from"""
    n = 0
    for a, ns in sorted(enums.items()):
        ser = [f for k, f in p.fns.items() if k.endswith("::serialize") and ("for %s>" % a in k or "<%s as serde_core::ser::Serialize" % a in k)]
        vis = [f for k, f in p.fns.items() if ("for %s>" % a in k or "<%s as " % a in k) and "__FieldVisitor" in k and
               k.endswith("::visit_u64")]
        if not ser or not vis:
            continue
        n += 1
        bad = []
        for nm in ns:
            tags = set()
            v = next(x for x in p.adt(a)["variants"] if x["n"] == nm)
            ai = Conv(p, Ser(p), 20000)
            rets, _ = ai.analyse(ser[0].path, [("ref", ("obj", ("adt", a, nm, tuple(("sym", "x") for _ in v["f"]))), ()), ("sym", "s")])
            for rv, s in rets:
                tags |= {x[1:] for x in s.facts if x[0] == "tag"}
            if len(tags) != 1:
                bad.append("%s is written with tags %s" % (nm, sorted(map(str, tags))))
                continue
            i, name = tags.pop()
            ai = Conv(p, Ser(p), 20000)
            rets, _ = ai.analyse(vis[0].path, [("sym", "v"), C(i)])
            got = {field(v) for v, s in rets}
            if got != {ns.index(nm)}:
                bad.append("%s is written with tag %s, which is read as %s" % (nm, i, sorted(
                    ns[g] if isinstance(g, int) and g < len(ns) else str(g) for g in got)))
        rep.ob("serde", a, not bad, "%s: %s" % (a, "; ".join(bad[:3])), ser[0].loc)
    rep.floor("anchor", "serialized element-type enums", n, 1)


def field(v):
    if v[0] == "adt" and v[2] == "Ok":
        v = v[3][0]
    if v[0] == "adt" and v[2].startswith("__field") and v[2][7:].isdigit():
        return int(v[2][7:])
    return None


class Ser(Tab):
    def on_call(self, ai, st, fr, bi, t, d, r, args):
        n = (d or "").rsplit("::", 1)[-1]
        if n in ("serialize_unit_variant", "serialize_newtype_variant") and len(args) >= 4:
            i, nm = ai.deep(st, args[2]), ai.deep(st, args[3])
            s = st.copy()
            s.facts = s.facts | {("tag", value(i), value(nm))}
            return [(s, ("adt", RES, "Ok", (UNIT,)))]
        return super().on_call(ai, st, fr, bi, t, d, r, args)


def showb(b):
    return "byte %d of element %s" % (b[2], b[1][2]) if b[0] == "byte" and b[1][0] == "el" else str(b[1]) if is_c(b) else b[0]


def showv(v):
    return str(v)[:160]
