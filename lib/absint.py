"""Flow-sensitive abstract interpretation of MIR (conditional constant propagation with provenance).

Values are terms; states are joined at merge points except where they differ in the variant of an
Option/Result/ControlFlow, in a constant bool, or in a fact of the rule (trace partitioning).  Callees
in the workspace are entered context-sensitively unless the rule's policy says otherwise, so that
extracting a helper or rewriting a match does not change what a rule sees."""
import sys, time
from mir import strip_gen, callee
from extract import CheckError
sys.setrecursionlimit(20000)

TOP = ("top",)
UNIT = ("tup", ())
MAXTERM = 60
PART_ADTS = {"core::option::Option", "core::result::Result", "core::ops::control_flow::ControlFlow"}


def C(x):
    return ("c", x)


def is_c(v):
    return v[0] == "c"


_size = {}


def tsize(v):
    """approximate number of nodes of a term"""
    if not isinstance(v, tuple):
        return 1
    s = _size.get(v)
    if s is None:
        s = 1
        for x in v:
            if isinstance(x, tuple):
                s += tsize(x)
            elif isinstance(x, frozenset):
                s += sum(tsize(y) for y in x)
        if len(_size) > 400000:
            _size.clear()
        _size[v] = s
    return s


def mk(*v):
    if tsize(v) > MAXTERM:
        # keep what the head says, drop the operands
        return ("big",) + tuple(x for x in v[:2] if not isinstance(x, tuple))
    return v


def join(a, b):
    if a == b:
        return a
    if a == TOP or b == TOP:
        return TOP
    xs = set()
    for v in (a, b):
        if v[0] == "phi":
            xs |= v[1]
        else:
            xs.add(v)
    if a[0] == b[0] and a[0] == "adt" and a[1] == b[1] and a[2] == b[2] and len(a[3]) == len(b[3]):
        return ("adt", a[1], a[2], tuple(join(x, y) for x, y in zip(a[3], b[3])))
    if a[0] == b[0] and a[0] in ("tup", "arr", "vec") and len(a[1]) == len(b[1]):
        return (a[0], tuple(join(x, y) for x, y in zip(a[1], b[1])))
    if len(xs) > 4 or sum(tsize(x) for x in xs) > 2 * MAXTERM:
        return TOP
    return ("phi", frozenset(xs))


def leaves(v, seen=None):
    """all sub-terms of v"""
    st = [v]
    seen = set()
    while st:
        x = st.pop()
        if not isinstance(x, (tuple, frozenset)) or x in seen:
            continue
        seen.add(x)
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            yield x
        st.extend(y for y in x if isinstance(y, (tuple, frozenset)))


GROW = {"push", "core::iter::traits::collect::Extend::extend", "alloc::vec::Vec::extend_from_slice"}


class State:
    __slots__ = ("env", "asm", "facts")

    def __init__(self, env, asm, facts):
        self.env, self.asm, self.facts = env, asm, facts

    def copy(self):
        return State(dict(self.env), dict(self.asm), self.facts)


def merge(a, b):
    """join b into a; returns True when a changed"""
    ch = False
    ea, eb = a.env, b.env
    for k, v in eb.items():
        o = ea.get(k)
        if o is None:
            ea[k] = v
            ch = True
        elif o != v:
            j = join(o, v)
            if j != o:
                ea[k] = j
                ch = True
    aa, ab = a.asm, b.asm
    for k in [k for k, v in aa.items() if ab.get(k) != v]:
        del aa[k]
        ch = True
    return ch


class Rule:
    """Policy and hooks of an analysis; subclass per rule."""
    max_depth = 12
    unwind = False
    track_asm = False      # partition on assumptions about symbolic values too
    concrete = False       # follow every path separately (for code whose loops have known bounds)
    maxseq = 12
    deadline = None

    def enter(self, path, fn, depth, args=()):
        return True

    def on_call(self, ai, st, fr, bi, t, d, r, args):
        """None, or a list of (state, return value)."""
        return None

    def on_drop(self, ai, st, fr, bi, t, val):
        return None

    def on_return(self, ai, st, fr):
        return None

    def part(self, v):
        return None

    def track(self, v):
        return False


class Frame:
    __slots__ = ("fn", "id", "depth", "stack", "args", "site")

    def __init__(self, fn, fid, depth, stack, args, site):
        self.fn, self.id, self.depth, self.stack, self.args, self.site = fn, fid, depth, stack, args, site


class AI:
    def __init__(self, prog, rule, budget=400000):
        self.p = prog
        self.rule = rule
        self.steps = 0
        self.budget = budget
        self.entered = set()
        self.live_cache = {}
        self.adt_variant = {}
        self.serial = 0

    # ------------------------------------------------------------ places
    def proj(self, v, e):
        k = v[0]
        if e == "*":
            return v
        if k == "top":
            return TOP
        if k == "ref":
            # raw pointer / Unique / NonNull wrappers around a pointer
            return v
        if k == "phi":
            r = None
            for x in v[1]:
                y = self.proj(x, e)
                if y == ("bot",):
                    continue
                r = y if r is None else join(r, y)
            return r if r is not None else ("bot",)
        if k == "upd":
            for pr, val in reversed(v[2]):
                if pr == (e,):
                    return val
                if pr[:1] == (e,):
                    b = self.proj(v[1], e)
                    rest = tuple((p[1:], x) for p, x in v[2] if p[:1] == (e,) and len(p) > 1)
                    return ("upd", b, rest)
            return self.proj(v[1], e)
        if e[0] == "v":
            if k == "adt":
                return v if v[2] == e[1] else ("bot",)
            return mk("prj", v, e)
        if e[0] == "f":
            i = e[1]
            if k == "adt":
                return v[3][i] if i < len(v[3]) else TOP
            if k in ("tup", "clo"):
                f = v[1] if k == "tup" else v[2]
                return f[i] if i < len(f) else TOP
            return mk("prj", v, ("f", e[2]))
        if e[0] == "sl":
            return (k, v[1][e[1]:e[2]]) if k in ("arr", "vec") and e[2] <= len(v[1]) else mk("prj", v, e)
        if e[0] == "i":
            if k == "mut" and len(v) == 4 and isinstance(v[3], tuple) and v[3] and v[1] in GROW \
                    and e[1] is not None and is_c(e[1]) and v[3][0][0] in ("vec", "arr", "mut"):
                b = v[3][0]
                while b[0] == "mut" and len(b) == 4 and b[1] in GROW and b[3]:
                    b = b[3][0]
                if b[0] in ("vec", "arr") and isinstance(e[1][1], int) and 0 <= e[1][1] < len(b[1]):
                    return b[1][e[1][1]]
            if k in ("arr", "vec"):
                ix = e[1]
                if ix is not None and is_c(ix) and isinstance(ix[1], int) and 0 <= ix[1] < len(v[1]):
                    return v[1][ix[1]]
                r = None
                for x in v[1]:
                    r = x if r is None else join(r, x)
                return r if r is not None else ("bot",)
            return mk("prj", v, e)
        return mk("prj", v, e)

    def elems(self, st, fr, place):
        for e in place[1:]:
            if e == "*":
                yield "*"
            elif isinstance(e, dict):
                if "f" in e:
                    yield ("f", e["f"], e["n"])
                elif "v" in e:
                    yield ("v", e["n"])
                elif "i" in e:
                    yield ("i", self.load(st, (fr.id, e["i"]), ()))
                elif "ci" in e:
                    yield ("i", C(e["ci"])) if not e["fe"] else ("i", C(-e["ci"]))
                else:
                    yield ("i", None)
            else:
                yield ("i", None)

    def load(self, st, root, pr):
        v = st.env.get(root)
        if v is None:
            v = root[1] if root[0] == "obj" else TOP
        for e in pr:
            v = self.proj(v, e)
        return v

    def resolve(self, st, fr, place):
        root, pr = (fr.id, place[0]), ()
        for e in self.elems(st, fr, place):
            if e == "*":
                v = self.load(st, root, pr)
                if v[0] == "ref":
                    root, pr = v[1], v[2]
                elif v[0] == "phi" or v == TOP or v[0] in ("adt", "c", "tup", "arr", "vec", "clo", "fn", "bot"):
                    pr = pr + ("*",)
                else:
                    root, pr = ("obj", v), ()
            else:
                pr = pr + (e,)
        return root, tuple(x for x in pr if x != "*")

    def read(self, st, fr, place):
        root, pr = self.resolve(st, fr, place)
        v = self.load(st, root, pr)
        if v == TOP and root[0] == "obj":
            return TOP
        return v

    def upd(self, v, pr, val):
        if not pr:
            return val
        e = pr[0]
        k = v[0] if v else "top"
        if k == "adt" and e[0] == "v" and v[2] == e[1]:
            return self.upd(v, pr[1:], val)
        if k == "adt" and e[0] == "f" and e[1] < len(v[3]):
            f = list(v[3])
            f[e[1]] = self.upd(f[e[1]], pr[1:], val)
            return ("adt", v[1], v[2], tuple(f))
        if k == "tup" and e[0] == "f" and e[1] < len(v[1]):
            f = list(v[1])
            f[e[1]] = self.upd(f[e[1]], pr[1:], val)
            return ("tup", tuple(f))
        if k in ("arr", "vec") and e[0] == "sl" and e[2] <= len(v[1]):
            n = self.upd((k, v[1][e[1]:e[2]]), pr[1:], val)
            if n[0] in ("arr", "vec") and len(n[1]) == e[2] - e[1]:
                return (k, v[1][:e[1]] + tuple(n[1]) + v[1][e[2]:])
            return ("upd", v, ((pr, val),))
        if k in ("arr", "vec") and e[0] == "i":
            ix = e[1]
            if ix is not None and is_c(ix) and 0 <= ix[1] < len(v[1]):
                f = list(v[1])
                f[ix[1]] = self.upd(f[ix[1]], pr[1:], val)
                return (k, tuple(f))
            return (k, tuple(join(x, self.upd(x, pr[1:], val)) for x in v[1]))
        if e[0] == "f" and e[2] in ("value", "pointer") and k in ("top", "uninit"):
            return self.upd(v, pr[1:], val)
        if k == "upd":
            keep = tuple((p, x) for p, x in v[2] if p[:len(pr)] != pr)
            if len(keep) > 12:
                return TOP
            return ("upd", v[1], keep + ((pr, val),))
        return ("upd", v, ((pr, val),))

    def store(self, st, root, pr, val):
        if not pr:
            st.env[root] = val
            return
        v = st.env.get(root)
        if v is None:
            v = root[1] if root[0] == "obj" else ("uninit",)
        if v[0] == "phi":
            nv = None
            for x in v[1]:
                y = self.upd(x, pr, val)
                nv = y if nv is None else join(nv, y)
            st.env[root] = nv
            return
        st.env[root] = self.upd(v, pr, val)

    def write(self, st, fr, place, val):
        root, pr = self.resolve(st, fr, place)
        self.store(st, root, pr, val)

    # ------------------------------------------------------------ operands / rvalues
    def const(self, k, fr=None):
        if "fn" in k:
            return ("fn", strip_gen(k["fn"].get("r", k["fn"]["d"])), tuple(k["fn"].get("a", ())))
        if "int" in k:
            ty = k["ty"]
            n = int(k["int"])
            if ty == "bool":
                return C(bool(n))
            if ty in ("f32", "f64"):
                return ("flt", ty, n)
            return C(n)
        if "str" in k:
            return C(k["str"])
        if "bytes" in k:
            return ("bytes", tuple(k["bytes"]))
        if "variant" in k:
            ty = strip_gen(k["ty"]) if "<" in k["ty"] else k["ty"]
            return ("adt", ty.split("<")[0], k["variant"], ())
        if "static" in k:
            return ("static", k["static"])
        if "promoted" in k:
            return self.promoted(k, fr)
        if k["ty"] == "()":
            return UNIT
        if "def" in k:
            f = self.p.fns.get(strip_gen(k["def"]))
            if f is not None and len(f.blocks) <= 12:
                v = self.const_body(f.body)
                if v is not None:
                    return v
            return ("k", strip_gen(k["def"]))
        return ("kty", k["ty"])

    def const_body(self, body):
        """Value of a promoted/const body (straight-line)."""
        key = id(body)
        c = self.live_cache.get(("cb", key))
        if c is not None:
            return c[0]
        self.live_cache[("cb", key)] = (None, body)
        st = State({}, {}, frozenset())
        fid = ("const", key)
        fr = Frame(None, fid, 99, (), (), None)
        bi = 0
        v = None
        for _ in range(40):
            b = body["blocks"][bi]
            for s in b[0]:
                self.stmt(st, fr, s)
            t = b[1]
            if t["t"] == "goto":
                bi = t["to"]
            elif t["t"] in ("drop", "assert"):
                bi = t["to"]
            elif t["t"] == "call" and t["to"] is not None:
                d, r = callee(t)
                args = [self.operand(st, fr, a) for a in t["args"]]
                self.write(st, fr, t["dst"], mk("app", r or d, tuple(args)))
                bi = t["to"]
            elif t["t"] == "return":
                v = self.deep(st, st.env.get((fid, 0), TOP))
                break
            else:
                break
        self.live_cache[("cb", key)] = (v, body)
        return v

    def deep(self, st, v, n=0):
        """Replace references to locals by what they refer to."""
        if n > 12:
            return v
        if v[0] == "ref":
            w = self.load(st, v[1], v[2])
            return self.deep(st, w, n + 1) if w != v else v
        if v[0] == "adt":
            return ("adt", v[1], v[2], tuple(self.deep(st, x, n + 1) for x in v[3]))
        if v[0] in ("tup", "arr", "vec", "itr"):
            return (v[0], tuple(self.deep(st, x, n + 1) for x in v[1]))
        if v[0] == "clo":
            return ("clo", v[1], tuple(self.deep(st, x, n + 1) for x in v[2]))
        if v[0] == "prj":
            return mk("prj", self.deep(st, v[1], n + 1), v[2])
        if v[0] == "phi":
            r = None
            for x in v[1]:
                y = self.deep(st, x, n + 1)
                r = y if r is None else join(r, y)
            return r
        if v[0] == "app":
            return mk("app", v[1], tuple(self.deep(st, x, n + 1) for x in v[2])) if len(v) == 3 else v
        return v

    def promoted(self, k, fr):
        own = strip_gen(k["def"])
        f = self.p.fns.get(own)
        if f is None:
            return ("k", own + "#" + str(k["promoted"]))
        pr = f.d["promoted"]
        i = k["promoted"]
        if i < len(pr):
            v = self.const_body(pr[i])
            if v is not None:
                return v
        return ("k", own + "#" + str(i))

    def operand(self, st, fr, o):
        if "c" in o:
            return self.read(st, fr, o["c"])
        if "m" in o:
            return self.read(st, fr, o["m"])
        if "k" in o:
            return self.const(o["k"], fr)
        return TOP

    BIN = {
        "Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mul": lambda a, b: a * b,
        "Eq": lambda a, b: a == b, "Ne": lambda a, b: a != b, "Lt": lambda a, b: a < b, "Le": lambda a, b: a <= b,
        "Gt": lambda a, b: a > b, "Ge": lambda a, b: a >= b, "BitAnd": lambda a, b: a & b,
        "BitOr": lambda a, b: a | b, "BitXor": lambda a, b: a ^ b,
        "Div": lambda a, b: a // b if b else None, "Rem": lambda a, b: a % b if b else None,
        "Shl": lambda a, b: a << b if b < 128 else None, "Shr": lambda a, b: a >> b,
    }

    def binop(self, op, a, b):
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if is_c(a) and is_c(b) and base in self.BIN and type(a[1]) in (int, bool) and type(b[1]) in (int, bool):
            r = self.BIN[base](a[1], b[1])
            if r is not None:
                r = C(r)
                return ("tup", (r, C(False))) if op.endswith("WithOverflow") else r
        if base in ("Eq", "Ne") and a == b and a != TOP and a[0] not in ("phi", "big") and not _volatile(a):
            return C(base == "Eq")
        if base in ("BitAnd", "BitOr"):
            for x, y in ((a, b), (b, a)):
                if is_c(x) and isinstance(x[1], bool):
                    if base == "BitAnd":
                        return y if x[1] else C(False)
                    return C(True) if x[1] else y
        r = mk("bin", base, a, b)
        return ("tup", (r, ("ovf",))) if op.endswith("WithOverflow") else r

    def rvalue(self, st, fr, rv):
        if "use" in rv:
            return self.operand(st, fr, rv["use"])
        if "ref" in rv or "addr" in rv:
            pl = rv.get("ref") or rv.get("addr")
            root, pr = self.resolve(st, fr, pl)
            if root[0] == "obj" and not pr:
                if root not in st.env:
                    return root[1]
            if "*" in pl[1:] and root[0] == fr.id and root[1] == pl[0] and not rv.get("mut"):
                # shared reborrow through a pointer held by value: the value itself
                return self.load(st, root, pr)
            return ("ref", root, pr)
        if "agg" in rv:
            ops = tuple(self.operand(st, fr, o) for o in rv["ops"])
            k = rv["agg"]
            if k == "adt":
                names = rv["names"]
                return ("adt", strip_gen(rv["adt"]), rv["variant"], ops)
            if k == "tuple":
                return ("tup", ops)
            if k == "array":
                return ("arr", ops)
            if k == "closure":
                return ("clo", strip_gen(rv["fn"]), ops)
            if k == "rawptr":
                return ops[0] if ops else TOP
            return mk("agg", k, ops)
        if "cast" in rv:
            v = self.operand(st, fr, rv["cast"])
            kd = rv["kind"]
            if kd.startswith("IntToInt"):
                if is_c(v):
                    return C(int(v[1])) if rv["ty"] != "bool" else v
                return mk("cast", rv["ty"], v)
            if kd.startswith(("FloatTo", "IntToFloat")):
                return mk("cast", rv["ty"], v)
            return v
        if "bin" in rv:
            return self.binop(rv["bin"], self.operand(st, fr, rv["l"]), self.operand(st, fr, rv["r"]))
        if "un" in rv:
            x = self.operand(st, fr, rv["x"])
            if rv["un"] == "Not" and is_c(x) and isinstance(x[1], bool):
                return C(not x[1])
            if rv["un"] == "Not" and x[0] == "not":
                return x[1]
            if rv["un"] == "Neg" and is_c(x):
                return C(-x[1])
            if rv["un"] == "PtrMetadata":
                return self.length(st, x)
            return mk("not" if rv["un"] == "Not" else "un", x) if rv["un"] == "Not" else mk("un", rv["un"], x)
        if "discr" in rv:
            return self.discr(self.read(st, fr, rv["discr"]))
        if "repeat" in rv:
            v = self.operand(st, fr, rv["repeat"])
            n = rv["n"]
            if n is not None and n <= 16:
                return ("arr", (v,) * n)
            return mk("rep", v, C(n))
        if "tls" in rv:
            return ("static", rv["tls"])
        return TOP

    def length(self, st, x):
        v = self.deep(st, x) if x[0] == "ref" else x
        if v[0] in ("arr", "vec", "itr"):
            return C(len(v[1]))
        return mk("len", v)

    def vidx(self, adt, variant):
        key = (adt, variant)
        r = self.adt_variant.get(key)
        if r is None:
            a = self.p.adts.get(adt)
            if a is not None:
                for v in a["variants"]:
                    self.adt_variant[(adt, v["n"])] = int(v["d"])
                r = self.adt_variant.get(key)
            else:
                std = {("core::option::Option", "None"): 0, ("core::option::Option", "Some"): 1,
                       ("core::result::Result", "Ok"): 0, ("core::result::Result", "Err"): 1,
                       ("core::ops::control_flow::ControlFlow", "Continue"): 0,
                       ("core::ops::control_flow::ControlFlow", "Break"): 1,
                       ("core::cmp::Ordering", "Less"): 255, ("core::cmp::Ordering", "Equal"): 0,
                       ("core::cmp::Ordering", "Greater"): 1,
                       ("alloc::borrow::Cow", "Borrowed"): 0, ("alloc::borrow::Cow", "Owned"): 1}
                r = std.get(key)
        return r

    def discr(self, v):
        if v[0] == "adt":
            i = self.vidx(v[1], v[2])
            if i is not None:
                return C(i)
        if v[0] == "phi":
            r = None
            for x in v[1]:
                y = self.discr(x)
                r = y if r is None else join(r, y)
            return r
        return mk("discr", v)

    def stmt(self, st, fr, s):
        if s[0] == "=":
            self.write(st, fr, s[1], self.rvalue(st, fr, s[2]))
        elif s[0] == "dead":
            st.env.pop((fr.id, s[1]), None)
        elif s[0] == "sd":
            pass

    # ------------------------------------------------------------ intraprocedural fixpoint
    def live(self, fn):
        c = self.live_cache.get(fn.path)
        if c is not None:
            return c
        # block-level liveness of locals; address-taken locals count as always live
        use, de, taken = {}, {}, set()

        def pl_use(pl, u, d):
            if pl[0] not in d:
                u.add(pl[0])
            for e in pl[1:]:
                if isinstance(e, dict) and "i" in e and e["i"] not in d:
                    u.add(e["i"])

        def op_use(o, u, d):
            if "c" in o:
                pl_use(o["c"], u, d)
            elif "m" in o:
                pl_use(o["m"], u, d)

        for i, b in enumerate(fn.blocks):
            u, d = set(), set()
            for s in b[0]:
                if s[0] != "=":
                    continue
                rv = s[2]
                for key in ("use", "cast", "l", "r", "x", "repeat"):
                    if key in rv and isinstance(rv[key], dict):
                        op_use(rv[key], u, d)
                for o in rv.get("ops", ()):
                    op_use(o, u, d)
                for key in ("ref", "addr", "discr"):
                    if key in rv and isinstance(rv[key], list):
                        pl_use(rv[key], u, d)
                        if key != "discr" and "*" not in rv[key][1:]:
                            taken.add(rv[key][0])
                if len(s[1]) == 1:
                    d.add(s[1][0])
                else:
                    pl_use(s[1], u, d)
            t = b[1]
            if t["t"] == "switch":
                op_use(t["on"], u, d)
            elif t["t"] == "call":
                for a in t["args"]:
                    op_use(a, u, d)
                if "op" in t["f"]:
                    op_use(t["f"]["op"], u, d)
                if len(t["dst"]) == 1:
                    d.add(t["dst"][0])
                else:
                    pl_use(t["dst"], u, d)
            elif t["t"] == "drop":
                pl_use(t["p"], u, d)
            elif t["t"] == "assert":
                op_use(t["c"], u, d)
            elif t["t"] == "return":
                u.add(0)
            use[i], de[i] = u, d
        lin = {i: set(use[i]) for i in range(len(fn.blocks))}
        order = list(fn.rpo(True))
        order.reverse()
        ch = True
        while ch:
            ch = False
            for i in order:
                o = set()
                for s in fn.succs(i, True):
                    o |= lin[s]
                n = use[i] | (o - de[i])
                if n != lin[i]:
                    lin[i] = n
                    ch = True
        r = (lin, taken)
        self.live_cache[fn.path] = r
        return r

    def tag(self, v):
        if v[0] == "adt" and v[1] in PART_ADTS:
            inner = None
            if len(v[3]) == 1:
                x = v[3][0]
                if x[0] == "adt" and x[1] in PART_ADTS:
                    inner = self.tag(x)
            return v[2] if inner is None else (v[2], inner)
        if v[0] == "c" and isinstance(v[1], bool):
            return v[1]
        if v[0] == "itr":
            return ("itr", len(v[1]))
        return self.rule.part(v)

    def key(self, st, fr, bi):
        lin, taken = self.live(fr.fn)
        lv = lin[bi]
        ks = []
        fid = fr.id
        for root, v in st.env.items():
            if root[0] == fid:
                l = root[1]
                if l in lv or l in taken:
                    t = self.tag(v)
                    if t is not None:
                        ks.append((l, t))
        ks.sort(key=repr)
        asm = ()
        if self.rule.track_asm or True:
            asm = tuple(sorted(((k, v) for k, v in st.asm.items() if self.rule.track(k)), key=repr))
        return (tuple(ks), asm, st.facts)

    def run(self, fr, st0):
        """Analyses one activation; returns (return states, unwind states)."""
        fn = fr.fn
        self.entered.add(fn.path)
        rpo = fn.rpo(self.rule.unwind)
        states = {}
        work = set()
        visits = {}
        rets, unws = {}, {}

        def push(bi, st):
            if self.rule.concrete:
                # every path on its own; loops over sequences of known length end by themselves
                self.serial += 1
                k = (bi, self.serial)
                states[k] = st.copy()
                work.add(k)
                return
            lin, taken = self.live(fn)
            k = (bi, self.key(st, fr, bi))
            o = states.get(k)
            if o is None:
                states[k] = st.copy()
                work.add(k)
            else:
                n = visits.get(k, 0)
                if merge(o, st):
                    if n > 24:
                        for r in list(o.env):
                            if o.env[r] != st.env.get(r):
                                o.env[r] = TOP
                    work.add(k)

        push(0, st0)
        while work:
            if self.rule.concrete:
                k = max(work, key=lambda x: x[1])
            else:
                k = min(work, key=lambda x: (rpo.get(x[0], 1 << 30), repr(x[1])) if len(work) > 1 else 0)
            work.discard(k)
            visits[k] = visits.get(k, 0) + 1
            self.steps += 1
            if self.steps > self.budget or (self.rule.deadline and time.time() > self.rule.deadline):
                raise CheckError("analysis budget exceeded in " + fn.path)
            bi = k[0]
            st = states.pop(k) if self.rule.concrete else states[k].copy()
            b = fn.blocks[bi]
            for s in b[0]:
                self.stmt(st, fr, s)
            t = b[1]
            kind = t["t"]
            if kind == "goto":
                push(t["to"], st)
            elif kind == "switch":
                for tgt, s2 in self.switch(st, fr, t):
                    push(tgt, s2)
            elif kind == "return":
                self.rule.on_return(self, st, fr)
                rv = st.env.get((fr.id, 0), UNIT)
                out = (rv, st)
                kk = (self.tag(rv), st.facts, tuple(sorted(((a, v) for a, v in st.asm.items() if self.rule.track(a)),
                                                           key=repr)))
                if self.rule.concrete:
                    self.serial += 1
                    kk = (self.serial,)
                o = rets.get(kk)
                if o is None:
                    rets[kk] = st
                else:
                    merge(o, st)
            elif kind == "resume":
                kk = st.facts
                o = unws.get(kk)
                if o is None:
                    unws[kk] = st
                else:
                    merge(o, st)
            elif kind == "drop":
                v = self.read(st, fr, t["p"])
                res = self.rule.on_drop(self, st, fr, bi, t, v)
                if res is None:
                    res = [st]
                for s2 in res:
                    if self.rule.unwind and isinstance(t["uw"], int):
                        push(t["uw"], s2)
                    if len(t["p"]) == 1:
                        pass
                    push(t["to"], s2)
            elif kind == "assert":
                c = self.operand(st, fr, t["c"])
                if self.rule.unwind and isinstance(t["uw"], int) and not (is_c(c) and c[1] == t["exp"]):
                    push(t["uw"], st)
                elif self.rule.unwind and t["uw"] == "c" and not (is_c(c) and c[1] == t["exp"]):
                    self._unw(unws, st)
                if not (is_c(c) and c[1] != t["exp"]):
                    push(t["to"], st)
            elif kind == "call":
                self.call(st, fr, bi, t, push, unws)
        return rets, unws

    def _unw(self, unws, st):
        o = unws.get(st.facts)
        if o is None:
            unws[st.facts] = st
        else:
            merge(o, st)

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t["on"])
        return self.switch_val(st, v, t)

    def switch_val(self, st, v, t):
        isbool = t["ty"] == "bool"
        if v == ("bot",):
            return []
        if is_c(v):
            n = int(v[1]) if not isinstance(v[1], str) else None
            for cv, tgt in t["cases"]:
                if int(cv) == n or (n is not None and n < 0 and int(cv) == n % (1 << 8)):
                    return [(tgt, st)]
            return [(t["else"], st)]
        neg = False
        while v[0] == "not":
            v = v[1]
            neg = not neg
        a = st.asm.get(v)
        if a is not None and not isinstance(a, frozenset):
            n = int((not a) if neg else a) if isbool else a
            for cv, tgt in t["cases"]:
                if int(cv) == n:
                    return [(tgt, st)]
            return [(t["else"], st)]
        excl = a if isinstance(a, frozenset) else frozenset()
        out = []
        cvs = set()
        poss = None
        if v[0] == "phi":
            if all(is_c(x) for x in v[1]):
                poss = {int(x[1]) for x in v[1]}
        for cv, tgt in t["cases"]:
            cv = int(cv)
            cvs.add(cv)
            if cv in excl or (poss is not None and cv not in poss):
                continue
            s2 = st.copy()
            if not _volatile(v):
                s2.asm[v] = (bool(cv) != neg) if isbool else cv
            self.refine(s2, v, cv if not isbool else (bool(cv) != neg))
            out.append((tgt, s2))
        dead_else = poss is not None and poss <= cvs
        if not dead_else and v[0] == "discr":
            n = self.nvariants(v[1])
            if n is not None and len(cvs | excl) >= n:
                dead_else = True
        if not dead_else:
            s2 = st.copy()
            if not _volatile(v):
                if isbool:
                    s2.asm[v] = not neg
                else:
                    s2.asm[v] = excl | frozenset(cvs)
            if isbool:
                self.refine(s2, v, not neg)
            out.append((t["else"], s2))
        return out

    def nvariants(self, v):
        return None

    def refine(self, st, v, val):
        """equality facts: replace a symbolic value compared with a constant by the constant"""
        if v[0] == "bin" and v[1] in ("Eq", "Ne") and isinstance(val, bool):
            pass

    # ------------------------------------------------------------ calls
    def call(self, st, fr, bi, t, push, unws):
        d, r = callee(t)
        args = tuple(self.operand(st, fr, a) for a in t["args"])
        if t["f"].get("k") == "ptr" and "op" in t["f"]:
            fv = self.operand(st, fr, t["f"]["op"])
            d = "<fnptr>"
            if fv[0] in ("fn", "clo"):
                d = fv[1]
            else:
                args = (fv,) + args
                d = "<fnptr>"
        res = self.apply(st, fr, bi, t, d, r, args)
        unwound = res[1] if isinstance(res, tuple) else []
        outs = res[0] if isinstance(res, tuple) else res
        for s2 in unwound:
            if isinstance(t["uw"], int):
                push(t["uw"], s2)
            elif t["uw"] == "c":
                self._unw(unws, s2)
        if t["to"] is None:
            return
        for s2, rv in outs:
            self.write(s2, fr, t["dst"], rv)
            push(t["to"], s2)

    def apply(self, st, fr, bi, t, d, r, args):
        """-> (list of (state, value), list of unwind states)"""
        h = self.rule.on_call(self, st, fr, bi, t, d, r, args)
        if h is not None:
            if isinstance(h, tuple):
                return h
            return h, ([st] if self.rule.unwind else [])
        m = self.model(st, fr, bi, t, d, r, args)
        if m is not None:
            return m if isinstance(m, tuple) else (m, [])
        tgt = None
        for q in (r, d):
            if q and q in self.p.fns:
                tgt = q
                break
        if tgt is None and (t["f"].get("k") in ("decl", "virtual")) and d in self.p.trait_impls and args:
            # dispatch on the type of the receiver value when it is known
            v = self.deep(st, args[0])
            if v[0] == "adt":
                for q in self.p.trait_impls[d]:
                    if q.startswith("<" + v[1] + " as ") and q in self.p.fns:
                        tgt = q
        if tgt is not None:
            fn = self.p.fns[tgt]
            if (tgt not in fr.stack and len(fr.stack) < self.rule.max_depth and
                    self.rule.enter(tgt, fn, fr.depth + 1, args)):
                return self.enter(st, fr, bi, fn, args)
        return self.opaque(st, fr, bi, t, d, r, args), ([st] if self.rule.unwind else [])

    def enter(self, st, fr, bi, fn, args):
        if fn.path and fn.d["dk"] == "Closure":
            return self.call_closure(st, fr, bi, ("clo", strip_gen(fn.path), args[:1]), args[1:])
        return self.activate(st, fr, bi, fn, args)

    def activate(self, st, fr, bi, fn, args):
        fid = (fr.id, bi, fn.path)
        s = st.copy()
        # values a loop left behind in an earlier activation of the same frame
        for root in [k for k in s.env if k[0] == fid]:
            del s.env[root]
        for i, a in enumerate(args):
            s.env[(fid, i + 1)] = a
        nf = Frame(fn, fid, fr.depth + 1, fr.stack + (strip_gen(fn.path),), args, (fr.id, bi))
        rets, unws = self.run(nf, s)
        outs = []
        for kk, s2 in rets.items():
            rv = s2.env.get((fid, 0), UNIT)
            rv = self.escape(s2, rv, fid)
            # what caller-visible memory refers to must survive the frame
            s2 = s2.copy()
            for root in list(s2.env):
                if self.inframe(root, fid):
                    continue
                v = s2.env[root]
                if _refs_frame(v, fid):
                    s2.env[root] = self.escape(s2, v, fid)
            for root in [k for k in s2.env if self.inframe(k, fid)]:
                del s2.env[root]
            outs.append((s2, rv))
        us = []
        for s2 in unws.values():
            s2 = s2.copy()
            for root in [k for k in s2.env if self.inframe(k, fid)]:
                del s2.env[root]
            us.append(s2)
        return outs, us

    def inframe(self, root, fid):
        return root[0] == fid

    def escape(self, st, v, fid, n=0):
        """A value leaving its frame: references to the frame's locals are replaced by their contents."""
        if n > 12:
            return TOP
        k = v[0]
        if k == "ref":
            if v[1][0] == fid:
                return self.escape(st, self.load(st, v[1], v[2]), fid, n + 1)
            return v
        if k == "adt":
            return ("adt", v[1], v[2], tuple(self.escape(st, x, fid, n + 1) for x in v[3]))
        if k in ("tup", "arr", "vec", "itr"):
            return (k, tuple(self.escape(st, x, fid, n + 1) for x in v[1]))
        if k == "clo":
            return ("clo", v[1], tuple(self.escape(st, x, fid, n + 1) for x in v[2]))
        if k == "phi":
            r = None
            for x in v[1]:
                y = self.escape(st, x, fid, n + 1)
                r = y if r is None else join(r, y)
            return r
        if k in ("app", "prj", "bin", "cast", "upd", "len", "not", "un", "discr", "mut", "agg"):
            if _refs_frame(v, fid):
                return _subst(self, st, v, fid, n)
        return v

    def call_closure(self, st, fr, bi, clo, args):
        clo0 = clo
        if clo[0] == "ref":
            clo = self.deep1(st, clo)
        if clo[0] == "fn":
            fn = self.p.fns.get(clo[1])
            if fn is None or clo[1] in fr.stack or not self.rule.enter(clo[1], fn, fr.depth + 1, args):
                t = {"f": {"k": "item"}, "args": [], "loc": "?"}
                h = self.rule.on_call(self, st, fr, bi, t, clo[1], None, tuple(args))
                if h is not None:
                    return h if isinstance(h, tuple) else (h, [])
                m = self.model(st, fr, bi, t, clo[1], None, tuple(args))
                if m is not None:
                    return m if isinstance(m, tuple) else (m, [])
                return [(st, mk("app", clo[1], tuple(args)))], []
            return self.activate(st, fr, bi, fn, tuple(args))
        if clo[0] != "clo":
            return [(st, mk("app", "<callback>", (clo,) + tuple(args)))], []
        fn = self.p.fns.get(clo[1])
        if fn is None or clo[1] in fr.stack:
            return [(st, mk("app", clo[1], tuple(args)))], []
        return self.activate(st, fr, bi, fn, (clo0 if clo0[0] == "ref" else clo,) + tuple(args))

    def deep1(self, st, v):
        n = 0
        while v[0] == "ref" and n < 10:
            v = self.load(st, v[1], v[2])
            n += 1
        return v

    def opaque(self, st, fr, bi, t, d, r, args):
        """A function whose body is not entered: pure term; memory behind &mut arguments is havocked."""
        name = r or d
        vals = tuple(self.deep(st, a) for a in args)
        st = st.copy()
        f = t["f"]
        # closures passed to library code may run
        states = [st]
        for a in args:
            v = self.deep1(st, a)
            if v[0] == "clo" and v[1] in self.p.fns and v[1] not in fr.stack:
                fnb = self.p.fns[v[1]]
                cargs = tuple(mk("cbarg", name, i, vals[0] if vals else TOP) for i in range(fnb.argc - 1))
                o, _u = self.call_closure(st, fr, (bi, "cb"), a, cargs)
                for s2, _rv in o:
                    if not any(s2.facts == s.facts and s2.env == s.env for s in states):
                        states.append(s2)
            elif v[0] == "fn" and v[1] in self.p.fns and v[1] not in fr.stack:
                fnb = self.p.fns[v[1]]
                cargs = tuple(mk("cbarg", name, i, vals[0] if vals else TOP) for i in range(fnb.argc))
                o, _u = self.call_closure(st, fr, (bi, "cb"), v, cargs)
                for s2, _rv in o:
                    states.append(s2)
        outs = []
        for s in states:
            for i, o in enumerate(t["args"]):
                a = args[i] if i < len(args) else TOP
                if a[0] == "ref" and self.is_mut_arg(fr, o):
                    self.store(s, a[1], a[2], mk("mut", name, i, vals))
            outs.append((s, mk("app", name, vals)))
        return outs

    def is_mut_arg(self, fr, o):
        if fr.fn is None:
            return False
        pl = o.get("m") or o.get("c")
        if not pl or len(pl) > 1:
            return False
        return fr.fn.locals[pl[0]][0].startswith("&") and "mut " in fr.fn.locals[pl[0]][0][:12]

    # ------------------------------------------------------------ library models
    IDENT = {
        "core::clone::Clone::clone", "core::convert::From::from", "core::convert::Into::into",
        "core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut", "core::convert::AsRef::as_ref",
        "core::borrow::Borrow::borrow", "alloc::borrow::ToOwned::to_owned", "alloc::string::ToString::to_string",
        "alloc::string::String::as_str", "alloc::string::String::leak", "alloc::boxed::Box::leak", "core::convert::AsMut::as_mut", "alloc::vec::Vec::as_slice",
        "alloc::slice::<impl [T]>::to_vec", "alloc::boxed::Box::new", "core::iter::traits::collect::IntoIterator::into_iter",
        "alloc::slice::<impl [T]>::into_vec", "alloc::boxed::box_assume_init_into_vec_unsafe",
        "core::hint::must_use", "alloc::str::<impl str>::to_owned", "core::borrow::BorrowMut::borrow_mut",
        "core::str::<impl str>::as_bytes", "alloc::string::String::into_boxed_str", "core::mem::transmute",
        "alloc::slice::<impl [T]>::into_boxed_slice", "alloc::vec::Vec::into_boxed_slice",
        "alloc::vec::Vec::as_mut_slice", "core::hint::black_box", "alloc::string::String::as_bytes",
        "core::num::<impl u32>::from_le_bytes__no", "core::option::Option::as_ref", "core::option::Option::as_mut",
        "core::option::Option::as_deref", "core::option::Option::iter", "core::option::Option::copied", "core::option::Option::cloned",
        "core::result::Result::as_ref", "core::iter::traits::iterator::Iterator::cloned__no",
        "core::result::Result::as_mut", "core::option::Option::as_deref_mut",
    }

    def opt(self, st, v, adt, none, some):
        """split a symbolic Option/Result into its variants: [(state, variant, payload)]"""
        v = self.deep1(st, v)
        if v[0] == "adt" and v[1] == adt:
            return [(st, v[2], v[3][0] if v[3] else None)]
        if v[0] == "phi":
            out = []
            for x in v[1]:
                out += self.opt(st.copy(), x, adt, none, some)
            return out
        dv = mk("discr", v)
        a = st.asm.get(dv)
        out = []
        for i, (nm, has) in enumerate((none, some)):
            if a is not None and not isinstance(a, frozenset) and a != i:
                continue
            if isinstance(a, frozenset) and i in a:
                continue
            s = st.copy()
            if not _volatile(dv):
                s.asm[dv] = i
            out.append((s, nm, mk("prj", mk("prj", v, ("v", nm)), ("f", "0")) if has else None))
        return out

    def option(self, st, v):
        return self.opt(st, v, "core::option::Option", ("None", False), ("Some", True))

    def result(self, st, v):
        return self.opt(st, v, "core::result::Result", ("Ok", True), ("Err", True))

    def model(self, st, fr, bi, t, d, r, args):
        O, R, CF = "core::option::Option", "core::result::Result", "core::ops::control_flow::ControlFlow"

        def some(x):
            return ("adt", O, "Some", (x,))
        NONE = ("adt", O, "None", ())

        def ok(x):
            return ("adt", R, "Ok", (x,))

        def err(x):
            return ("adt", R, "Err", (x,))
        if d == "core::ops::try_trait::Try::branch":
            a0 = (t["f"].get("a") or [""])[0]
            if a0.startswith(O):
                out = []
                for s, vn, x in self.option(st, args[0]):
                    out.append((s, ("adt", CF, "Continue", (x,)) if vn == "Some" else ("adt", CF, "Break", (NONE,))))
                return out
            out = []
            for s, vn, x in self.result(st, args[0]):
                out.append((s, ("adt", CF, "Continue", (x,)) if vn == "Ok" else ("adt", CF, "Break", (err(x),))))
            return out
        if d == "core::ops::try_trait::FromResidual::from_residual":
            v = args[0]
            if v[0] == "adt" and v[1] == R:
                return [(st, err(v[3][0]))]
            if v[0] == "adt" and v[1] == O:
                a0 = (t["f"].get("a") or [""])[0]
                if a0.startswith(O):
                    return [(st, NONE)]
            return [(st, mk("app", d, args))]
        if d == "core::ops::try_trait::Try::from_output":
            a0 = (t["f"].get("a") or [""])[0]
            return [(st, some(args[0]) if a0.startswith(O) else ok(args[0]))]
        if d in ("core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut",
                 "core::ops::function::Fn::call"):
            tup = args[1] if len(args) > 1 else UNIT
            cargs = tup[1] if tup[0] == "tup" else (tup,)
            f = args[0]
            fv = self.deep1(st, f)
            if fv[0] in ("clo", "fn"):
                return self.call_closure(st, fr, bi, f if fv[0] == "clo" else fv, cargs)
            return None
        if d == "core::clone::Clone::clone":
            if r and r in self.p.fns and self.rule.enter(r, self.p.fns[r], fr.depth + 1, args):
                return None
            if self.clone_is_identity(r, args):
                return [(st, self.deep1(st, args[0]))]
            return None
        if d == "core::convert::From::from" or d == "core::convert::Into::into":
            if r and r in self.p.fns:
                return None
            a = t["f"].get("a", [])
            if len(a) == 2 and d.endswith("Into::into"):
                # blanket Into: go to the From impl of the workspace, if there is one
                q = "<%s as core::convert::From<%s>>::from" % (a[1], a[0])
                q2 = strip_gen(q)
                if q2 in self.p.fns:
                    if q2 in fr.stack or not self.rule.enter(q2, self.p.fns[q2], fr.depth + 1, args):
                        return [(st, mk("app", q2, tuple(self.deep(st, x) for x in args)))]
                    return self.activate(st, fr, bi, self.p.fns[q2], args)
            return [(st, self.deep1(st, args[0]) if args[0][0] == "ref" else args[0])]
        if d == "alloc::string::ToString::to_string":
            x = self.m_fmt(st, fr, bi, t, d, r, args)
            if x is not None:
                return x
        if d in self.IDENT:
            if r and r in self.p.fns:
                return None
            if d == "core::ops::deref::DerefMut::deref_mut" or d.endswith("as_mut") or d.endswith("as_deref_mut") \
                    or d.endswith("as_mut_slice"):
                if d.startswith("core::option") or d.startswith("core::result"):
                    v = self.deep1(st, args[0])
                    return [(st, v)]
                return [(st, args[0])]
            if d == "core::ops::deref::Deref::deref":
                return [(st, args[0])]
            if d in ("alloc::boxed::Box::new",):
                return [(st, args[0])]
            v = self.deep1(st, args[0]) if args[0][0] == "ref" else args[0]
            return [(st, v)]
        if d in ("alloc::boxed::Box::new_uninit", "alloc::alloc::exchange_malloc", "alloc::boxed::box_new_uninit"):
            root = (("heap", fr.id, bi), 0)
            s = st.copy()
            s.env[root] = ("uninit",)
            return [(s, ("ref", root, ()))]
        if d.endswith("Box::assume_init"):
            return [(st, args[0])]
        if d.startswith("core::option::Option::"):
            m = d.rsplit("::", 1)[1]
            return self.m_option(st, fr, bi, t, m, args, some, NONE, ok, err)
        if d.startswith("core::result::Result::"):
            m = d.rsplit("::", 1)[1]
            return self.m_result(st, fr, bi, t, m, args, some, NONE, ok, err)
        if d in ("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne"):
            if r and r in self.p.fns and self.rule.enter(r, self.p.fns[r], fr.depth + 1, args) \
                    and not self.derived(r):
                return None
            a, b = self.deep(st, args[0]), self.deep(st, args[1])
            e = structural_eq(a, b)
            if e is None:
                x = mk("eq", *sorted((a, b), key=repr))
            else:
                x = C(e)
            if d.endswith("ne"):
                x = C(not x[1]) if is_c(x) else ("not", x)
            return [(st, x)]
        if d in ("core::mem::discriminant",):
            return [(st, self.discr(self.deep1(st, args[0])))]
        if d == "alloc::vec::Vec::new" or d == "alloc::vec::Vec::with_capacity":
            return [(st, ("vec", ()))]
        if d == "alloc::vec::Vec::push":
            if args[0][0] == "ref":
                s = st.copy()
                v = self.load(s, args[0][1], args[0][2])
                if (v[0] == "vec" or v[0] == "arr" and self.rule.concrete) and len(v[1]) < self.rule.maxseq:
                    nv = ("vec", v[1] + (args[1],))
                else:
                    nv = mk("mut", "push", 0, (self.deep(s, v), self.deep(s, args[1])))
                self.store(s, args[0][1], args[0][2], nv)
                return [(s, UNIT)]
            return None
        if self.rule.concrete and d == "core::iter::traits::collect::Extend::extend":
            x = self.m_seq(st, "extend", args)
            if x is not None:
                return x
        if d == "core::iter::traits::collect::Extend::extend" and args[0][0] == "ref":
            s = st.copy()
            v = self.load(s, args[0][1], args[0][2])
            self.store(s, args[0][1], args[0][2], mk("mut", d, 0, (self.deep(s, v), self.deep(s, args[1]))))
            return [(s, UNIT)]
        if d == "core::ops::index::IndexMut::index_mut" and self.rule.concrete and len(args) == 2 and args[0][0] == "ref":
            root, path = args[0][1], args[0][2]
            v = self.load(st, root, path)
            while v[0] == "ref":
                root, path = v[1], v[2]
                v = self.load(st, root, path)
            if v[0] not in ("vec", "arr"):
                return None
            ix, n = args[1], len(v[1])
            if is_c(ix) and isinstance(ix[1], int):
                return [(st, ("ref", root, path + (("i", ix),)))] if 0 <= ix[1] < n else []
            if ix[0] == "adt" and ix[1].startswith("core::ops::range::Range") and all(is_c(x) for x in ix[3]):
                b = [x[1] for x in ix[3]]
                lo, hi = {"RangeFrom": lambda: (b[0], n), "RangeTo": lambda: (0, b[0]), "Range": lambda: (b[0], b[1]),
                          "RangeFull": lambda: (0, n), "RangeInclusive": lambda: (b[0], b[1] + 1)}.get(
                              ix[1].rsplit("::", 1)[1], lambda: (None, None))()
                if lo is None:
                    return None
                return [(st, ("ref", root, path + (("sl", lo, hi),)))] if lo <= hi <= n else []
            return None
        if d == "core::ops::index::Index::index" and len(args) == 2 and is_c(args[1]):
            v = self.deep(st, args[0])
            if v[0] in ("vec", "arr", "mut"):
                x = self.proj(v, ("i", args[1]))
                if x[0] not in ("prj", "bot"):
                    return [(st, x)]
            return None
        if d in ("core::slice::<impl [T]>::len", "alloc::vec::Vec::len"):
            return [(st, self.length(st, args[0]))]
        if d in ("core::slice::<impl [T]>::is_empty", "alloc::vec::Vec::is_empty"):
            n = self.length(st, args[0])
            return [(st, C(n[1] == 0) if is_c(n) else mk("bin", "Eq", n, C(0)))]
        if d in ("core::mem::drop", "core::mem::forget"):
            return None
        if d in ("core::ops::arith::AddAssign::add_assign", "core::ops::arith::Add::add",
                 "alloc::slice::<impl [T]>::concat", "alloc::slice::<impl [T]>::join"):
            x = self.m_fmt(st, fr, bi, t, d, r, args)
            if x is not None:
                return x
        if d == "core::ops::range::RangeInclusive::new" and self.rule.concrete:
            return [(st, ("adt", "core::ops::range::RangeInclusive", "RangeInclusive", (args[0], args[1], C(False))))]
        if self.rule.concrete and d.startswith(("core::slice::", "alloc::slice::", "alloc::vec::Vec::", "core::iter::traits::collect::Extend::")):
            x = self.m_seq(st, d.rsplit("::", 1)[1], args)
            if x is not None:
                return x
        if d.startswith(("core::iter::", "core::slice::", "core::ops::index::", "alloc::vec::")):
            x = self.m_iter(st, fr, bi, t, d, r, args)
            if x is not None:
                return x
        if d.startswith(("core::fmt::", "alloc::fmt::", "alloc::string::")):
            return self.m_fmt(st, fr, bi, t, d, r, args)
        return None

    def truth(self, st, v):
        """[(truth, state)] of a condition"""
        if is_c(v):
            return [(bool(v[1]), st)]
        out = []
        for tgt, s in self.switch_val(st, v, {"ty": "bool", "cases": [[0, "n"]], "else": "y"}):
            out.append((tgt == "y", s))
        return out

    def m_seq(self, st, m, args):
        """methods of vectors and slices whose elements are known one by one"""
        O = "core::option::Option"
        none = ("adt", O, "None", ())

        def some(x):
            return ("adt", O, "Some", (x,))
        if not args or args[0][0] != "ref":
            v, at = args[0] if args else TOP, None
        else:
            root, path = args[0][1], args[0][2]
            v = self.load(st, root, path)
            while v[0] == "ref":
                root, path = v[1], v[2]
                v = self.load(st, root, path)
            at = (root, path)
        if v[0] not in ("vec", "arr"):
            return None
        xs = v[1]
        n = len(xs)

        def item(i):
            return ("ref", at[0], at[1] + (("i", C(i)),)) if at else xs[i]

        def put(ys, rv=UNIT):
            if at is None:
                return None
            s = st.copy()
            self.store(s, at[0], at[1], ("vec", tuple(ys)))
            return [(s, rv)]
        k = args[1][1] if len(args) > 1 and is_c(args[1]) and isinstance(args[1][1], int) and not isinstance(args[1][1], bool) else None
        if m in ("copy_from_slice", "clone_from_slice") and len(args) == 2:
            o = self.deep(st, args[1])
            if o[0] not in ("vec", "arr"):
                return None
            return put(o[1]) if len(o[1]) == n else []
        if m == "fill" and len(args) == 2:
            return put([args[1]] * n)
        if m in ("first", "first_mut"):
            return [(st, some(item(0)) if n else none)]
        if m in ("last", "last_mut"):
            return [(st, some(item(n - 1)) if n else none)]
        if m in ("get", "get_mut") and k is not None:
            return [(st, some(item(k)) if k < n else none)]
        if m == "to_vec":
            return [(st, ("vec", tuple(self.deep1(st, x) for x in xs)))]
        if m in ("split_first", "split_last") and at is None:
            if not n:
                return [(st, none)]
            return [(st, some(("tup", (xs[0], ("vec", xs[1:])) if m == "split_first" else (xs[-1], ("vec", xs[:-1])))))]
        if m == "split_at" and k is not None:
            return [] if k > n else [(st, ("tup", (("vec", xs[:k]), ("vec", xs[k:]))))]
        if m == "clear":
            return put(())
        if m == "truncate" and k is not None:
            return put(xs[:k])
        if m == "reverse":
            return put(xs[::-1])
        if m == "pop":
            return put(xs[:-1], some(xs[-1])) if n else [(st, none)]
        if m in ("remove", "swap_remove") and k is not None:
            if k >= n:
                return []
            ys = list(xs)
            y = ys.pop(k)
            if m == "swap_remove" and k < len(ys):
                ys.insert(k, ys.pop())
            return put(ys, y)
        if m == "insert" and k is not None:
            return [] if k > n else put(xs[:k] + (args[2],) + xs[k:])
        if m == "swap" and k is not None and is_c(args[2]):
            j = args[2][1]
            if k >= n or j >= n:
                return []
            ys = list(xs)
            ys[k], ys[j] = ys[j], ys[k]
            return put(ys)
        if m in ("extend_from_slice", "extend", "append"):
            w = as_seq(self.deep1(st, args[1]))
            if w[0] == "ref":
                w = self.load(st, w[1], w[2])
            if w[0] not in ("itr", "vec", "arr") or len(w[1]) + n > self.rule.maxseq:
                return None
            ys = w[1] if m != "extend_from_slice" else tuple(self.deep1(st, x) for x in w[1])
            if m == "append" and args[1][0] == "ref":
                r = put(xs + ys)
                if r:
                    self.store(r[0][0], args[1][1], args[1][2], ("vec", ()))
                return r
            return put(xs + ys)
        if m in ("chunks", "windows", "chunks_exact") and k:
            if m == "windows":
                out = [xs[i:i + k] for i in range(n - k + 1)]
            else:
                out = [xs[i:i + k] for i in range(0, n, k)]
                if m == "chunks_exact":
                    out = [y for y in out if len(y) == k]
            return [(st, ("itr", tuple(("vec", y) for y in out)))]
        if m == "contains":
            es = [structural_eq(self.deep(st, x), self.deep(st, args[1])) for x in xs]
            if any(e is True for e in es):
                return [(st, C(True))]
            if all(e is False for e in es):
                return [(st, C(False))]
        return None

    # ------------------------------------------------------------ iteration over sequences of known length
    def m_iter(self, st, fr, bi, t, d, r, args):
        m = d.rsplit("::", 1)[1]
        if not args:
            return None
        if m in ("iter", "iter_mut") and d.startswith("core::slice::"):
            v = self.deep(st, args[0])
            if v[0] in ("vec", "arr"):
                if m == "iter_mut":
                    if args[0][0] != "ref":
                        return None
                    return [(st, ("itr", tuple(("ref", args[0][1], args[0][2] + (("i", C(i)),))
                                               for i in range(len(v[1])))))]
                return [(st, ("itr", v[1]))]
            return None
        if d == "core::ops::index::Index::index" and len(args) == 2 and args[1][0] == "adt" \
                and args[1][1].startswith("core::ops::range::Range"):
            v = self.deep(st, args[0])
            nm = args[1][1].rsplit("::", 1)[1]
            b = args[1][3]
            if v[0] in ("vec", "arr") and all(is_c(x) for x in b):
                lo, hi = 0, len(v[1])
                if nm == "RangeFrom":
                    lo = b[0][1]
                elif nm == "RangeTo":
                    hi = b[0][1]
                elif nm == "Range":
                    lo, hi = b[0][1], b[1][1]
                elif nm != "RangeFull":
                    return None
                if lo > hi or hi > len(v[1]):
                    return []
                return [(st, ("vec", v[1][lo:hi]))]
            return None
        if not d.startswith("core::iter::"):
            return None
        it = args[0]
        if d.startswith("core::iter::sources::") or m in ("once", "empty", "repeat_n", "repeat"):
            if m == "once":
                return [(st, ("itr", (args[0],)))]
            if m == "empty":
                return [(st, ("itr", ()))]
            if m == "repeat_n" and is_c(args[1]) and isinstance(args[1][1], int) and args[1][1] < 64:
                return [(st, ("itr", (args[0],) * args[1][1]))]
            if m == "repeat":
                return [(st, ("rep", args[0]))]
        if m == "next":
            if it[0] != "ref":
                return None
            v = self.load(st, it[1], it[2])
            if v[0] == "ref":
                it = v
                v = self.load(st, it[1], it[2])
            if v[0] in ("vec", "arr"):
                v = ("itr", v[1])
            if self.rule.concrete:
                v = as_seq(v)
            if v[0] != "itr":
                return None
            s = st.copy()
            O = "core::option::Option"
            if not v[1]:
                return [(s, ("adt", O, "None", ()))]
            self.store(s, it[1], it[2], ("itr", v[1][1:]))
            return [(s, ("adt", O, "Some", (v[1][0],)))]
        v = self.deep1(st, it)
        if self.rule.concrete:
            v = as_seq(v)
        if v[0] == "rep" and m == "take" and is_c(args[1]) and isinstance(args[1][1], int) and args[1][1] < 64:
            return [(st, ("itr", (v[1],) * args[1][1]))]
        if v[0] not in ("itr", "vec", "arr") or len(v[1]) > max(8, self.rule.maxseq - 4):
            return None
        xs = v[1]
        if m == "step_by" and is_c(args[1]) and isinstance(args[1][1], int) and args[1][1] > 0:
            return [(st, ("itr", xs[::args[1][1]]))]
        if m == "last":
            O = "core::option::Option"
            return [(st, ("adt", O, "Some", (xs[-1],)) if xs else ("adt", O, "None", ()))]
        if m in ("into_iter", "copied", "cloned", "by_ref", "fuse", "peekable"):
            return [(st, ("itr", tuple(self.deep1(st, x) for x in xs) if m in ("copied", "cloned") else xs))]
        if m == "rev":
            return [(st, ("itr", xs[::-1]))]
        if m in ("skip", "take") and is_c(args[1]) and isinstance(args[1][1], int):
            n = args[1][1]
            return [(st, ("itr", xs[n:] if m == "skip" else xs[:n]))]
        if m == "enumerate":
            return [(st, ("itr", tuple(("tup", (C(i), x)) for i, x in enumerate(xs))))]
        if m in ("zip", "chain"):
            w = self.deep1(st, args[1])
            if self.rule.concrete:
                w = as_seq(w)
            if w[0] not in ("itr", "vec", "arr"):
                return None
            if m == "chain":
                return [(st, ("itr", xs + w[1]))]
            return [(st, ("itr", tuple(("tup", (a, b)) for a, b in zip(xs, w[1]))))]
        if m in ("count",):
            return [(st, C(len(xs)))]
        if m == "collect":
            b = (t["f"].get("a") or ["", ""])[-1]
            if "Vec<" in b or "[" in b:
                if b.startswith("core::result::Result"):
                    cur = [(st, ())]
                    done = []
                    R = "core::result::Result"
                    for x in xs:
                        nxt = []
                        for s, acc in cur:
                            for s2, vn, y in self.result(s, x):
                                if vn == "Ok":
                                    nxt.append((s2, acc + (y,)))
                                else:
                                    done.append((s2, ("adt", R, "Err", (y,))))
                        cur = nxt[:16]
                    return done + [(s, ("adt", R, "Ok", (("vec", acc),))) for s, acc in cur]
                if b.startswith("core::option::Option"):
                    return None
                return [(st, ("vec", tuple(self.deep1(st, x) for x in xs)))]
            return None
        if m == "position" and self.rule.concrete:
            O = "core::option::Option"
            cur, done, us = [st], [], []
            for i, x in enumerate(xs):
                nxt = []
                for s in cur:
                    o, u = self.call_closure(s, fr, bi, args[1], (x,))
                    us += u
                    for s2, rv in o:
                        if not is_c(rv):
                            return None
                        if rv[1]:
                            done.append((s2, ("adt", O, "Some", (C(i),))))
                        else:
                            nxt.append(s2)
                cur = nxt[:16]
            return done + [(s, ("adt", O, "None", ())) for s in cur], us
        if m == "flat_map" and self.rule.concrete:
            cur, us = [(st, ())], []
            for x in xs:
                nxt = []
                for s, acc in cur:
                    o, u = self.call_closure(s, fr, bi, args[1], (x,))
                    us += u
                    for s2, rv in o:
                        w = as_seq(self.deep1(s2, rv))
                        if w[0] not in ("itr", "vec", "arr"):
                            return None
                        nxt.append((s2, acc + w[1]))
                cur = nxt[:16]
            return [(s, ("itr", acc)) for s, acc in cur], us
        if m == "flatten" and self.rule.concrete:
            cur = [(st, ())]
            for x in xs:
                w = as_seq(self.deep1(st, x))
                if w[0] == "adt" and w[1] in ("core::option::Option", "core::result::Result") and w[2] in ("None", "Err"):
                    w = ("itr", ())
                elif w[0] == "adt" and w[2] in ("Some", "Ok"):
                    w = ("itr", (w[3][0],))
                if w[0] not in ("itr", "vec", "arr"):
                    return None
                cur = [(s, acc + w[1]) for s, acc in cur]
            return [(s, ("itr", acc)) for s, acc in cur]
        if m in ("filter", "filter_map", "find", "find_map", "take_while", "skip_while", "fold", "partition", "inspect") and self.rule.concrete:
            O = "core::option::Option"
            cur = [(st, args[1] if m == "fold" else (), True)]
            done, us = [], []
            for x in xs:
                nxt = []
                for s, acc, open_ in cur:
                    if m == "fold":
                        o, u = self.call_closure(s, fr, bi, args[2], (acc, x))
                    elif m == "skip_while" and not open_:
                        nxt.append((s, acc + (x,), False))
                        continue
                    elif m == "take_while" and not open_:
                        nxt.append((s, acc, False))
                        continue
                    else:
                        ref = x
                        if m in ("filter", "find", "take_while", "skip_while", "partition"):
                            s = s.copy()
                            self.serial += 1
                            root = ("obj", ("tmp", self.serial))
                            s.env[root] = x
                            ref = ("ref", root, ())
                        o, u = self.call_closure(s, fr, bi, args[1], (ref,))
                    us += u
                    for s2, rv in o:
                        if m == "fold":
                            nxt.append((s2, rv, True))
                        elif m == "inspect":
                            nxt.append((s2, acc + (x,), True))
                        elif m in ("filter_map", "find_map"):
                            for s3, vn, y in self.option(s2, rv):
                                if vn == "Some" and m == "find_map":
                                    done.append((s3, ("adt", O, "Some", (y,))))
                                else:
                                    nxt.append((s3, acc + ((y,) if vn == "Some" else ()), True))
                        else:
                            for yes, s3 in self.truth(s2, rv):
                                if m == "find":
                                    (done if yes else nxt).append((s3, ("adt", O, "Some", (x,))) if yes else (s3, acc, True))
                                elif m == "filter":
                                    nxt.append((s3, acc + ((x,) if yes else ()), True))
                                elif m == "partition":
                                    nxt.append((s3, acc + ((yes, x),), True))
                                elif m == "take_while":
                                    nxt.append((s3, acc + ((x,) if yes else ()), yes))
                                else:
                                    nxt.append((s3, acc + (() if yes else (x,)), yes))
                cur = nxt[:16]
            for s, acc, _o in cur:
                if m == "fold":
                    done.append((s, acc))
                elif m in ("find", "find_map"):
                    done.append((s, ("adt", O, "None", ())))
                elif m == "partition":
                    done.append((s, ("tup", (("vec", tuple(x for y, x in acc if y)), ("vec", tuple(x for y, x in acc if not y))))))
                else:
                    done.append((s, ("itr", acc)))
            return done, us
        if m == "unzip" and self.rule.concrete:
            ys = [self.deep1(st, x) for x in xs]
            if all(y[0] == "tup" and len(y[1]) == 2 for y in ys):
                return [(st, ("tup", (("vec", tuple(y[1][0] for y in ys)), ("vec", tuple(y[1][1] for y in ys)))))]
            return None
        if m in ("sum", "product", "max", "min") and self.rule.concrete:
            ys = [self.deep1(st, x) for x in xs]
            if not all(is_c(y) and isinstance(y[1], int) for y in ys):
                return None
            ns = [y[1] for y in ys]
            O = "core::option::Option"
            if m in ("max", "min"):
                return [(st, ("adt", O, "Some", (C(max(ns) if m == "max" else min(ns)),)) if ns else ("adt", O, "None", ()))]
            n = sum(ns)
            if m == "product":
                n = 1
                for x in ns:
                    n *= x
            return [(st, C(n))]
        if m == "try_for_each" and self.rule.concrete:
            cur, done, us = [(st, None)], [], []
            for x in xs:
                nxt = []
                for s, _v in cur:
                    o, u = self.call_closure(s, fr, bi, args[1], (x,))
                    us += u
                    for s2, rv in o:
                        if rv[0] != "adt":
                            return None
                        (nxt if rv[2] in ("Ok", "Some", "Continue") else done).append((s2, rv))
                cur = nxt[:16]
            if not xs:
                return None
            return done + cur, us
        if m in ("map", "any", "all", "for_each"):
            cur = [(st, (), False)]
            done, us = [], []
            for x in xs:
                nxt = []
                for s, acc, unk in cur:
                    o, u = self.call_closure(s, fr, bi, args[1], (x,))
                    us += u
                    for s2, rv in o:
                        if m == "map":
                            nxt.append((s2, acc + (rv,), False))
                        elif m == "for_each":
                            nxt.append((s2, acc, False))
                        elif is_c(rv) and bool(rv[1]) == (m == "any"):
                            done.append((s2, C(m == "any")))
                        else:
                            nxt.append((s2, acc + (rv,), unk or not is_c(rv)))
                cur = nxt[:16]
            for s, acc, unk in cur:
                if m == "map":
                    done.append((s, ("itr", acc)))
                elif m == "for_each":
                    done.append((s, UNIT))
                elif unk:
                    done.append((s, mk("app", d, tuple(self.deep(s, a) for a in acc))))
                else:
                    done.append((s, C(m != "any")))
            return done, us
        return None

    # ------------------------------------------------------------ formatting
    def m_fmt(self, st, fr, bi, t, d, r, args):
        OK = ("adt", "core::result::Result", "Ok", (UNIT,))
        if d.startswith("core::fmt::rt::Argument::new_"):
            return [(st, ("farg", d.rsplit("_", 1)[1], self.deep(st, args[0])))]
        if d == "core::fmt::Arguments::new":
            tv = self.deep(st, args[0])
            av = self.deep(st, args[1])
            return [(st, ("fargs", tv, av))]
        if d in ("core::fmt::Arguments::from_str", "core::fmt::Arguments::from_str_nonconst"):
            return [(st, ("fargs", None, self.deep(st, args[0])))]
        if d == "alloc::fmt::format":
            return [(st, self.fmt_string(st, fr, bi, self.deep(st, args[0])))]
        if d in ("core::fmt::Formatter::write_str", "core::fmt::Formatter::pad", "core::fmt::Formatter::write_fmt",
                 "core::fmt::Write::write_str", "core::fmt::Write::write_fmt", "alloc::string::String::push_str",
                 "core::fmt::Write::write_char", "alloc::string::String::push"):
            if args[0][0] != "ref":
                return None
            s = st.copy()
            cur = self.load(s, args[0][1], args[0][2])
            a = self.deep(s, args[1])
            if d.endswith("write_fmt"):
                a = self.fmt_string(s, fr, bi, a)
            if d.endswith(("write_char", "::push")) and is_c(a) and isinstance(a[1], int):
                a = C(chr(a[1]))
            self.store(s, args[0][1], args[0][2], str_cat([cur, a]))
            return [(s, OK if d.startswith("core::fmt") else UNIT)]
        if d in ("alloc::string::String::new", "alloc::string::String::with_capacity"):
            return [(st, C(""))]
        a0 = str((t["f"].get("a") or [""])[0])
        if d == "core::ops::arith::AddAssign::add_assign" and a0 == "alloc::string::String" and args[0][0] == "ref":
            s = st.copy()
            cur = self.load(s, args[0][1], args[0][2])
            self.store(s, args[0][1], args[0][2], str_cat([cur, self.deep(s, args[1])]))
            return [(s, UNIT)]
        if d == "core::ops::arith::Add::add" and a0 == "alloc::string::String":
            return [(st, str_cat([self.deep(st, args[0]), self.deep(st, args[1])]))]
        if d in ("alloc::slice::<impl [T]>::concat", "alloc::slice::<impl [T]>::join") and \
                a0.replace("&", "").strip() in ("str", "alloc::string::String"):
            v = self.deep(st, args[0])
            if v[0] in ("arr", "vec", "tup"):
                sep = self.deep(st, args[1]) if d.endswith("join") else C("")
                parts = []
                for k, x in enumerate(v[1]):
                    parts += ([sep] if k else []) + [self.deep(st, x)]
                return [(st, str_cat(parts))]
        if d == "alloc::string::ToString::to_string":
            v = self.deep(st, args[0])
            if v[0] == "adt" or (is_c(v) and not isinstance(v[1], str)):
                return [(st, self.fmt_value(st, fr, bi, v, "display"))]
        return None

    def fmt_string(self, st, fr, bi, a):
        if a[0] != "fargs":
            return mk("app", "alloc::fmt::format", (a,))
        if a[1] is None:
            return a[2]
        tm = a[1]
        if tm[0] == "bytes":
            by = tm[1]
        elif tm[0] == "c" and isinstance(tm[1], str):
            by = tuple(tm[1].encode("latin1", "replace"))
        elif tm[0] == "arr" and all(is_c(x) for x in tm[1]):
            by = tuple(x[1] for x in tm[1])
        else:
            return mk("app", "alloc::fmt::format", (a,))
        av = a[2][1] if a[2][0] in ("arr", "tup", "vec") else ()
        parts = []
        i = nx = 0
        while i < len(by):
            n = by[i]
            i += 1
            if n == 0:
                break
            if n < 0x80:
                parts.append(C(bytes(by[i:i + n]).decode("utf8", "replace")))
                i += n
            elif n == 0x80:
                ln = by[i] | by[i + 1] << 8
                i += 2
                parts.append(C(bytes(by[i:i + ln]).decode("utf8", "replace")))
                i += ln
            else:
                spec = n != 0xC0
                i += (4 if n & 1 else 0) + (2 if n & 2 else 0) + (2 if n & 4 else 0)
                ix = nx
                if n & 8:
                    ix = by[i] | by[i + 1] << 8
                    i += 2
                nx = ix + 1
                if ix >= len(av):
                    parts.append(TOP)
                elif av[ix][0] != "farg":
                    parts.append(av[ix])
                else:
                    v = self.fmt_value(st, fr, bi, av[ix][2], av[ix][1])
                    parts.append(("app", "fmtspec", (v,)) if spec and n & 7 and not is_c(v) else v)
        return str_cat(parts)

    def fmt_value(self, st, fr, bi, v, how):
        if is_c(v):
            if isinstance(v[1], str):
                return v if how == "display" else C('"%s"' % v[1])
            if isinstance(v[1], bool):
                return C(str(v[1]).lower())
            return C(str(v[1]))
        if v[0] == "fmtv":
            return v
        if v[0] == "adt":
            q = "<%s as core::fmt::%s>::fmt" % (v[1], "Display" if how == "display" else "Debug")
            f = self.p.fns.get(q)
            if f is not None and q not in fr.stack:
                root = (("heap", fr.id, bi, "fmt", len(fr.stack)), 0)
                s = st.copy()
                s.env[root] = C("")
                o, _ = self.activate(s, fr, (bi, "fmt", repr(v)[:80]), f, (v, ("ref", root, ())))
                res = {self.load(s2, root, ()) for s2, rv in o if not (rv[0] == "adt" and rv[2] == "Err")}
                if len(res) == 1:
                    return res.pop()
                if not res:
                    # derived Debug and the like
                    return mk("app", "fmt", (v,))
            if how == "debug" and not v[3] and f is not None:
                return C(v[2])
        return mk("app", "fmt", (v,))

    def derived(self, path):
        f = self.p.fns.get(path)
        return f is not None and "Derive" in f.d.get("exp", "")

    def clone_is_identity(self, r, args):
        return True

    def m_option(self, st, fr, bi, t, m, args, some, NONE, ok, err):
        if m in ("is_some", "is_none"):
            out = []
            for s, vn, x in self.option(st, args[0]):
                out.append((s, C((vn == "Some") == (m == "is_some"))))
            return out
        if m in ("unwrap", "expect"):
            return [(s, x) for s, vn, x in self.option(st, args[0]) if vn == "Some"]
        if m in ("unwrap_or",):
            return [(s, x if vn == "Some" else args[1]) for s, vn, x in self.option(st, args[0])]
        if m in ("ok_or",):
            return [(s, ok(x) if vn == "Some" else err(args[1])) for s, vn, x in self.option(st, args[0])]
        if m in ("unwrap_or_default",):
            dv = ("vec", ()) if self.rule.concrete and "<alloc::vec::Vec<" in t["f"].get("d", "") + str(t["f"].get("a")) or \
                self.rule.concrete and (t["f"].get("a") or [""])[0].startswith("alloc::vec::Vec<") else mk("app", "default", ())
            return [(s, x if vn == "Some" else dv) for s, vn, x in self.option(st, args[0])]
        if m in ("map", "and_then", "ok_or_else", "unwrap_or_else", "or_else", "map_or", "filter", "is_some_and",
                 "map_or_else", "inspect"):
            outs, us = [], []
            for s, vn, x in self.option(st, args[0]):
                if vn == "Some":
                    if m in ("map", "and_then", "is_some_and"):
                        o, u = self.call_closure(s, fr, bi, args[1], (x,))
                        us += u
                        for s2, rv in o:
                            outs.append((s2, some(rv) if m == "map" else rv))
                    elif m in ("map_or", "map_or_else"):
                        o, u = self.call_closure(s, fr, bi, args[2], (x,))
                        us += u
                        outs += o
                    elif m in ("ok_or_else",):
                        outs.append((s, ok(x)))
                    elif m == "unwrap_or_else":
                        outs.append((s, x))
                    elif m == "or_else":
                        outs.append((s, some(x)))
                    elif m == "filter":
                        s = s.copy()
                        self.serial += 1
                        root = ("obj", ("tmp", self.serial))
                        s.env[root] = x
                        o, u = self.call_closure(s, fr, bi, args[1], (("ref", root, ()),))
                        us += u
                        for s2, rv in o:
                            for yes, s3 in self.truth(s2, rv):
                                outs.append((s3, some(x) if yes else NONE))
                    else:
                        o, u = self.call_closure(s, fr, bi, args[1], (x,))
                        outs += [(s2, some(x)) for s2, _ in o]
                else:
                    if m in ("map", "and_then", "filter", "inspect"):
                        outs.append((s, NONE))
                    elif m == "is_some_and":
                        outs.append((s, C(False)))
                    elif m == "map_or":
                        outs.append((s, args[1]))
                    else:
                        o, u = self.call_closure(s, fr, bi, args[1], ())
                        us += u
                        for s2, rv in o:
                            outs.append((s2, err(rv) if m == "ok_or_else" else rv))
            return outs, us
        if m == "take" and args[0][0] == "ref":
            s = st.copy()
            v = self.load(s, args[0][1], args[0][2])
            self.store(s, args[0][1], args[0][2], NONE)
            return [(s, v)]
        return None

    def m_result(self, st, fr, bi, t, m, args, some, NONE, ok, err):
        if m in ("is_ok", "is_err"):
            return [(s, C((vn == "Ok") == (m == "is_ok"))) for s, vn, x in self.result(st, args[0])]
        if m in ("unwrap", "expect"):
            return [(s, x) for s, vn, x in self.result(st, args[0]) if vn == "Ok"]
        if m == "ok":
            return [(s, some(x) if vn == "Ok" else NONE) for s, vn, x in self.result(st, args[0])]
        if m == "err":
            return [(s, some(x) if vn == "Err" else NONE) for s, vn, x in self.result(st, args[0])]
        if m == "unwrap_or":
            return [(s, x if vn == "Ok" else args[1]) for s, vn, x in self.result(st, args[0])]
        if m == "unwrap_or_default":
            return [(s, x if vn == "Ok" else mk("app", "default", ())) for s, vn, x in self.result(st, args[0])]
        if m in ("map_or", "map_or_else"):
            outs, us = [], []
            for s, vn, x in self.result(st, args[0]):
                if vn == "Err" and m == "map_or":
                    outs.append((s, args[1]))
                    continue
                o, u = self.call_closure(s, fr, bi, args[2 if vn == "Ok" else 1], (x,))
                us += u
                outs += o
            return outs, us
        if m in ("map", "and_then", "map_err", "unwrap_or_else", "or_else"):
            outs, us = [], []
            for s, vn, x in self.result(st, args[0]):
                hit = (vn == "Ok") == (m in ("map", "and_then"))
                if not hit:
                    if m == "unwrap_or_else":
                        outs.append((s, x))
                    else:
                        outs.append((s, ok(x) if vn == "Ok" else err(x)))
                    continue
                o, u = self.call_closure(s, fr, bi, args[1], (x,))
                us += u
                for s2, rv in o:
                    if m == "map":
                        rv = ok(rv)
                    elif m == "map_err":
                        rv = err(rv)
                    outs.append((s2, rv))
            return outs, us
        return None

    # ------------------------------------------------------------ entry
    def analyse(self, path, args=None, facts=frozenset(), env=None, asm=None):
        fn = self.p.fn(path) if isinstance(path, str) else path
        fid = ("root", strip_gen(fn.path))
        st = State(dict(env or {}), dict(asm or {}), facts)
        if args is None:
            args = tuple(("arg", i, fn.locals[i + 1][1] or str(i)) for i in range(fn.argc))
        for i, a in enumerate(args):
            st.env[(fid, i + 1)] = a
        fr = Frame(fn, fid, 0, (strip_gen(fn.path),), args, None)
        rets, unws = self.run(fr, st)
        outs = []
        for s in rets.values():
            outs.append((self.deep(s, s.env.get((fid, 0), UNIT)), s))
        return outs, list(unws.values())


def _volatile(v):
    """values that two evaluations need not agree on"""
    return v == TOP or v[0] in ("ovf", "big")


def _refs_frame(v, fid):
    for x in leaves(v):
        if x[0] == "ref" and x[1][0] == fid:
            return True
    return False


def _subst(ai, st, v, fid, n):
    def go(x):
        if isinstance(x, tuple):
            if x and x[0] == "ref" and x[1][0] == fid:
                return ai.escape(st, x, fid, n + 1)
            return tuple(go(y) for y in x)
        return x
    return go(v)


def as_seq(v):
    """integer ranges and options as sequences"""
    if v[0] == "adt" and v[1].startswith("core::ops::range::Range") and len(v[3]) >= 2 and is_c(v[3][0]) and is_c(v[3][1]):
        a, b = v[3][0][1], v[3][1][1] + (1 if v[1].endswith("RangeInclusive") else 0)
        if isinstance(a, int) and isinstance(b, int) and b - a <= 64:
            return ("itr", tuple(C(i) for i in range(a, b)))
    if v[0] == "adt" and v[1] == "core::option::Option":
        return ("itr", tuple(v[3]))
    return v


def str_cat(parts):
    out = []
    for p in parts:
        for q in (p[1] if p[0] == "fmtv" else (p,)):
            if q == C(""):
                continue
            if out and is_c(q) and is_c(out[-1]) and isinstance(q[1], str) and isinstance(out[-1][1], str):
                out[-1] = C(out[-1][1] + q[1])
            else:
                out.append(q)
    if not out:
        return C("")
    if len(out) == 1:
        return out[0] if is_c(out[0]) else ("fmtv", tuple(out))
    return ("fmtv", tuple(out))


def structural_eq(a, b):
    """True/False when two terms are certainly equal / different constants, else None"""
    if a[0] == "c" and b[0] == "c":
        return a[1] == b[1]
    if a[0] == "adt" and b[0] == "adt" and a[1] == b[1]:
        if a[2] != b[2]:
            return False
        if len(a[3]) != len(b[3]):
            return None
        r = True
        for x, y in zip(a[3], b[3]):
            e = structural_eq(x, y)
            if e is False:
                return False
            if e is None:
                r = None
        return r
    if a[0] in ("tup", "arr", "vec") and a[0] == b[0] and len(a[1]) == len(b[1]):
        r = True
        for x, y in zip(a[1], b[1]):
            e = structural_eq(x, y)
            if e is False:
                return False
            if e is None:
                r = None
        return r
    if a[0] in ("arr", "vec") and b[0] in ("arr", "vec") and len(a[1]) != len(b[1]):
        return False
    return None
