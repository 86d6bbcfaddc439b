"""T06: the count kept for a tensor is the number of handles and gradient links that name it, and decides its removal.

The registry is the static map whose values carry an atomic count; a handle is the type that wraps the map's key and has a Drop.
Every function that makes handles, changes a count, links a gradient or inserts or removes an entry is followed along each of its
paths: what it does to the count of an entry must equal what it does to the handles and links that name it.  A function that is not
balanced by itself is judged inside each of its callers.  An entry is removed only on a path where its count is known to have
reached zero, and by a handle's drop only while no gradients are being computed (derivatives pass tensors on by key).  Recorded
operations hold handles, not keys, of their operands."""
import time
import mir
from rules.common import *
from rules import t04
from absint import State, C, TOP, UNIT, is_c, leaves, mk

ATOMIC = "core::sync::atomic::Atomic"


def anchor(p):
    """(static, key type, entry type, handle type, count field, link field)"""
    for s, d in sorted(p.statics.items()):
        ty = d.get("ty", "")
        for a in p.adts:
            if "DashMap<" in ty and ("HashMap<" in ty or True) and a.startswith("hodu_core") and (", " + a + ">") in ty:
                key = ty.split("DashMap<", 1)[1].split(",", 1)[0].strip()
                fields = p.adt(a)["variants"][0]["f"]
                cnt = [(i, n) for i, (n, t, *_) in enumerate(fields) if ATOMIC in t and "usize" in t or t.endswith("AtomicUsize")]
                link = [(i, n) for i, (n, t, *_) in enumerate(fields) if t.startswith("core::option::Option<") and key in t]
                if len(cnt) == 1 and len(link) == 1:
                    for h in p.adts:
                        v = p.adt(h)["variants"]
                        if h.startswith("hodu_core") and len(v) == 1 and len(v[0]["f"]) == 1 and v[0]["f"][0][1] == key and \
                                "<%s as core::ops::drop::Drop>::drop" % h in p.fns:
                            return s, key, a, h, cnt[0], link[0], fields
    return None


class RC(Rule):
    concrete = True
    max_depth = 14
    unwind = False

    def __init__(self, p, an, enters, balanced):
        self.p, self.balanced, self.enters = p, balanced, enters
        self.static, self.key, self.entry, self.handle, self.cnt, self.link, self.fields = an
        self.notes = []

    def enter(self, path, fn, depth, args=()):
        if path in self.balanced:
            return False
        return path in self.enters or len(fn.blocks) <= 8 and path.startswith(("hodu_core", "<hodu_core"))

    # -------------------------------------------------------------- helpers
    def kid(self, ai, st, v):
        v = ai.deep(st, v)
        while v[0] == "adt" and v[1] in (self.key, self.handle) and len(v[3]) == 1:
            v = v[3][0]
        return v

    def ev(self, ai, st, *e):
        ai.serial += 1
        st.facts = st.facts | {("e", ai.serial) + e}

    def evs(self, st):
        return sorted((x for x in st.facts if x[0] == "e"), key=lambda x: x[1])

    def presence(self, st, k):
        for x in st.facts:
            if x[0] == "pres" and x[1] == k:
                return x[2]
        return None

    def setpres(self, st, k, v):
        st.facts = frozenset(x for x in st.facts if not (x[0] == "pres" and x[1] == k)) | {("pres", k, v)}

    def lookup(self, ai, st, k):
        """[(state, found)]"""
        pr = self.presence(st, k)
        if pr is not None:
            return [(st.copy(), pr)]
        out = []
        a = st.copy()
        self.setpres(a, k, False)
        out.append((a, False))
        kinds = [None] if k[0] == "grad" else [None, ("adt", self.key, self.key.rsplit("::", 1)[1], (("grad", k),))]
        for g in kinds:
            b = st.copy()
            self.setpres(b, k, True)
            fs = []
            for i, f in enumerate(self.fields):
                if i == self.link[0]:
                    fs.append(("adt", "core::option::Option", "None", ()) if g is None else
                              ("adt", "core::option::Option", "Some", (g,)))
                elif i == self.cnt[0]:
                    fs.append(("count", k))
                else:
                    fs.append(("fld", f[0], k))
            b.env[("reg", k)] = ("adt", self.entry, self.p.adt(self.entry)["variants"][0]["n"], tuple(fs))
            out.append((b, True))
        return out

    def counter(self, ai, st, v):
        """key of the entry whose count the reference names"""
        for _ in range(6):
            if v[0] != "ref":
                return None
            if v[1][0] == "reg" and v[2] and v[2][0][0] == "f" and v[2][0][1] == self.cnt[0]:
                return v[1][1]
            v = ai.load(st, v[1], v[2])
            if v[0] == "count":
                return v[1]
        return None

    def delta(self, new, prev):
        if new == prev:
            return 0
        if new[0] == "tup" and new[1]:
            new = new[1][0]
        if new[0] == "bin" and new[1].startswith(("Add", "Sub")) and new[2] == prev and is_c(new[3]):
            return new[3][1] if new[1].startswith("Add") else -new[3][1]
        return None

    def grad_of(self, v):
        """key in an Option value: key, None, or False when unknown"""
        if v[0] == "adt" and v[2] == "None":
            return None
        if v[0] == "adt" and v[2] == "Some":
            return v[3][0]
        return False

    # -------------------------------------------------------------- calls
    def on_call(self, ai, st, fr, bi, t, d, r, args):
        m = (r or d or "")
        n = m.rsplit("::", 1)[-1]
        if d and d.startswith("dashmap::DashMap") or (r or "").startswith("dashmap::DashMap"):
            ty = str(t["f"].get("a", ()))
            if self.entry not in ty:
                return None
            if n in ("get", "get_mut", "contains_key", "try_get", "try_get_mut", "view"):
                k = self.kid(ai, st, args[1])
                out = []
                for s, found in self.lookup(ai, st, k):
                    if n == "contains_key":
                        out.append((s, C(found)))
                    elif n == "view":
                        return None
                    elif found:
                        out.append((s, ("adt", "core::option::Option", "Some", (("ref", ("reg", k), ()),))))
                    else:
                        out.append((s, ("adt", "core::option::Option", "None", ())))
                return out
            if n == "insert":
                k = self.kid(ai, st, args[1])
                v = ai.deep(st, args[2])
                s = st.copy()
                self.setpres(s, k, True)
                c0 = v[3][self.cnt[0]] if v[0] == "adt" and len(v[3]) > self.cnt[0] else TOP
                g = self.grad_of(v[3][self.link[0]]) if v[0] == "adt" and len(v[3]) > self.link[0] else False
                if c0[0] == "atomic" and is_c(c0[1]):
                    self.ev(ai, s, "cnt", k, c0[1][1])
                else:
                    self.ev(ai, s, "odd", k, "an entry is inserted with a count that is not a constant")
                if g is None:
                    pass
                elif g is False:
                    self.ev(ai, s, "odd", k, "an entry is inserted with a link that is not known")
                else:
                    self.ev(ai, s, "link", self.kid(ai, s, g), 1)
                if v[0] == "adt":
                    s.env[("reg", k)] = v
                return [(s, ("adt", "core::option::Option", "None", ()))]
            if n in ("remove", "remove_if"):
                k = self.kid(ai, st, args[1])
                out = []
                for s, found in self.lookup(ai, st, k):
                    if found:
                        v = s.env.get(("reg", k), TOP)
                        g = self.grad_of(ai.proj(v, ("f",) + (self.link[0], self.link[1]))) if v != TOP else False
                        if n == "remove_if":
                            self.ev(ai, s, "odd", k, "remove_if")
                        else:
                            self.ev(ai, s, "remove", k, self.known(s, k), self.flags_down(s))
                        if g not in (None, False):
                            self.ev(ai, s, "link", self.kid(ai, s, g), -1)
                        self.setpres(s, k, False)
                        s.facts = s.facts | {("removed", k)}
                    out.append((s, ("adt", "core::option::Option", "Some" if found else "None",
                                    (("removedvalue", k),) if found else ())))
                return out
            if n in ("clear", "retain", "alter", "entry", "alter_all"):
                s = st.copy()
                self.ev(ai, s, "odd", ("all",), n)
                return [(s, mk("app", m, ()))]
            return None
        if d in ("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut"):
            v = args[0]
            for _ in range(6):
                if v[0] != "ref":
                    break
                if v[1][0] == "reg":
                    return [(st, v)]
                v = ai.load(st, v[1], v[2])
            return None
        if n in ("key", "value", "value_mut", "pair") and "dashmap::mapref" in m and args:
            v = args[0]
            for _ in range(6):
                if v[0] != "ref":
                    break
                if v[1][0] == "reg":
                    return [(st, v if n != "key" else v[1][1])]
                v = ai.load(st, v[1], v[2])
        if d and d.startswith(ATOMIC):
            return self.atomic(ai, st, fr, bi, t, n, d, args)
        if n in ("checked_sub", "checked_add") and "core::num" in m and len(args) == 2:
            a, b = ai.deep(st, args[0]), ai.deep(st, args[1])
            if a[0] == "prev":
                s1, s2 = st.copy(), st.copy()
                if n == "checked_sub":
                    s1.asm[mk("bin", "Lt", a, b)] = True
                    s2.asm[mk("bin", "Lt", a, b)] = False
                    op = "Sub"
                    return [(s1, ("adt", "core::option::Option", "None", ())),
                            (s2, ("adt", "core::option::Option", "Some", (mk("bin", op, a, b),)))]
                return [(s2, ("adt", "core::option::Option", "Some", (mk("bin", "Add", a, b),)))]
            return None
        if n in ("saturating_sub", "wrapping_sub", "wrapping_add", "saturating_add") and "core::num" in m and len(args) == 2:
            a, b = ai.deep(st, args[0]), ai.deep(st, args[1])
            if a[0] == "prev":
                return [(st, mk("bin", "Sub" if "sub" in n else "Add", a, b))]
        if n == "next" and ("Iterator" in (d or "")) and args:
            v = ai.deep(st, args[0])
            if v[0] not in ("itr", "vec", "arr"):
                # one representative round of an unknown loop
                site = (fr.id, bi)
                if ("round", site) in st.facts:
                    return [(st, ("adt", "core::option::Option", "None", ()))]
                s1, s2 = st.copy(), st.copy()
                s2.facts = s2.facts | {("round", site)}
                return [(s1, ("adt", "core::option::Option", "None", ())),
                        (s2, ("adt", "core::option::Option", "Some", (("sym", "item", site),)))]
        if m in ("core::mem::forget",) or m.startswith("core::mem::manually_drop::ManuallyDrop") and n == "new":
            if self.handle in str(t["f"].get("a", ())):
                s = st.copy()
                self.ev(ai, s, "handle", self.kid(ai, st, args[0]), -1)
                return [(s, UNIT)]
        return None

    def atomic(self, ai, st, fr, bi, t, n, d, args):
        if n == "new":
            return [(st, ("atomic", ai.deep(st, args[0])))]
        k = self.counter(ai, st, args[0]) if args else None
        if k is None:
            v = ai.deep(st, args[0]) if args else TOP
            if n.startswith("fetch_") and "usize" in d:
                ai.serial += 1
                return [(st, ("fresh", ai.serial))]
            if n == "load":
                return [(st, ("flag", v))]
            return None
        ai.serial += 1
        prev = ("prev", k, ai.serial)
        s = st.copy()
        if n in ("fetch_add", "fetch_sub"):
            x = ai.deep(st, args[1])
            if is_c(x):
                dl = x[1] if n == "fetch_add" else -x[1]
                self.ev(ai, s, "cnt", k, dl, prev)
            else:
                self.ev(ai, s, "odd", k, "changes the count by an unknown amount")
            return [(s, prev)]
        if n == "load":
            self.ev(ai, s, "load", k, prev)
            return [(s, prev)]
        if n in ("fetch_update", "try_update", "update"):
            res = ai.call_closure(s, fr, (bi, "upd"), args[3], (prev,))
            out = []
            for s2, rv in (res[0] if isinstance(res, tuple) else res):
                rv = ai.deep(s2, rv)
                if n == "update":
                    rv = ("adt", "core::option::Option", "Some", (rv,))
                if rv[0] == "adt" and rv[2] == "Some":
                    dl = self.delta(rv[3][0], prev)
                    if dl is None:
                        self.ev(ai, s2, "odd", k, "sets the count to something other than a step from what it was")
                    else:
                        self.ev(ai, s2, "cnt", k, dl, prev)
                    out.append((s2, prev if n == "update" else ("adt", "core::result::Result", "Ok", (prev,))))
                elif rv[0] == "adt" and rv[2] == "None":
                    self.ev(ai, s2, "kept", k, prev)
                    out.append((s2, ("adt", "core::result::Result", "Err", (prev,))))
                else:
                    self.ev(ai, s2, "odd", k, "unknown update of the count")
                    out.append((s2, TOP))
            return out
        if n.startswith("compare_exchange") and len(args) > 2:
            a, b = ai.deep(st, args[1]), ai.deep(st, args[2])
            dl = self.delta(b, a)
            if a[0] == "prev" and dl is not None:
                # a failed exchange changes nothing and is tried again
                self.ev(ai, s, "cnt", k, dl, a)
                return [(s, ("adt", "core::result::Result", "Ok", (a,)))]
            self.ev(ai, s, "odd", k, "exchanges the count for an unrelated value")
            return [(s, TOP)]
        if n in ("store", "swap", "get_mut", "into_inner", "as_ptr", "fetch_max", "fetch_min", "fetch_and", "fetch_or"):
            self.ev(ai, s, "odd", k, "%s of the count is not a step from what it was" % n)
            return [(s, prev)]
        return None

    # -------------------------------------------------------------- conditions
    def value(self, st, v, prev, x):
        """value of term v when prev is x, or None"""
        if v == prev:
            return x
        if is_c(v):
            return v[1]
        if v[0] == "not":
            a = self.value(st, v[1], prev, x)
            return None if a is None else not a
        if v[0] == "bin" and len(v) == 4:
            a, b = self.value(st, v[2], prev, x), self.value(st, v[3], prev, x)
            if a is None or b is None:
                return None
            try:
                return {"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b,
                        "Sub": a - b, "Add": a + b}.get(v[1])
            except TypeError:
                return None
        return None

    def values(self, st, prev):
        """which of 0, 1, 2, 3 the number read may have been on this path"""
        out = set()
        for x in (0, 1, 2, 3):
            ok = True
            for c, want in st.asm.items():
                got = self.value(st, c, prev, x)
                if got is None:
                    continue
                if isinstance(want, frozenset):
                    ok = ok and int(got) not in {int(w) for w in want}
                elif int(got) != int(want):
                    ok = False
            if ok:
                out.add(x)
        return out

    def known(self, st, k):
        """the path knows that no reference to k is left"""
        best = False
        for e in self.evs(st):
            if e[3] != k:
                continue
            if e[2] == "cnt" and len(e) > 5 and e[4] < 0:
                best = max(self.values(st, e[5]), default=0) <= -e[4]
            elif e[2] == "cnt" and e[4] > 0:
                best = False
            elif e[2] in ("load", "kept"):
                best = best or max(self.values(st, e[4]), default=0) <= 0
        return best

    def flags_down(self, st):
        out = set()
        for c, want in st.asm.items():
            v, w = c, want
            while v[0] == "not":
                v, w = v[1], not w if isinstance(w, bool) else w
            if v[0] == "flag" and w is False:
                for x in leaves(v):
                    if x[0] == "static":
                        out.add(x[1])
            elif w is False:
                for x in leaves(v):
                    if x[0] == "static":
                        out.add(x[1])
        return tuple(sorted(out))


class Counter(AI):
    def stmt(self, st, fr, s):
        ru = self.rule
        if s[0] == "=" and isinstance(s[2], dict) and s[2].get("agg") == "adt" and s[2].get("adt") == ru.handle:
            v = self.rvalue(st, fr, s[2])
            ru.ev(self, st, "handle", ru.kid(self, st, v), 1)
        super().stmt(st, fr, s)

    def store(self, st, root, pr, val):
        ru = self.rule
        if root[0] == "reg" and pr and pr[0][0] == "f":
            if pr[0][1] == ru.link[0]:
                old = ru.grad_of(self.load(st, root, pr[:1])) if len(pr) == 1 else False
                new = ru.grad_of(self.deep(st, val)) if len(pr) == 1 else False
                if old is False or new is False:
                    ru.ev(self, st, "odd", root[1], "links an unknown tensor")
                if old not in (None, False):
                    ru.ev(self, st, "link", ru.kid(self, st, old), -1)
                if new not in (None, False):
                    ru.ev(self, st, "link", ru.kid(self, st, new), 1)
            elif pr[0][1] == ru.cnt[0]:
                ru.ev(self, st, "odd", root[1], "overwrites the count")
        super().store(st, root, pr, val)


def touches(p, an):
    """functions that make handles, change counts, link gradients or change the registry; closures count for their function"""
    static, key, entry, handle, cnt, link, fields = an
    out, mapf = set(), set()
    for k, f in p.fns.items():
        hit = reg = False
        for b in f.blocks:
            for s in b[0]:
                if s[0] != "=":
                    continue
                rv = s[2]
                if isinstance(rv, dict) and rv.get("agg") == "adt" and rv.get("adt") == handle:
                    hit = True
                if isinstance(rv, dict) and rv.get("agg") == "adt" and rv.get("adt") == entry:
                    hit = True
                for pl, wr in [(s[1], True)] + [(rv.get(x), False) for x in ("ref", "raw") if isinstance(rv, dict) and rv.get(x)]:
                    for e in pl[1:]:
                        if isinstance(e, dict) and "f" in e:
                            if e["n"] == cnt[1] and e["f"] == cnt[0]:
                                hit = True
                            if e["n"] == link[1] and e["f"] == link[0] and (wr or rv.get("mut")):
                                hit = True
            t = b[1]
            if t["t"] == "call":
                n = (t["f"].get("d") or "")
                if n.startswith(ATOMIC) and "usize" in n + str(t["f"].get("a", ())):
                    reg = True
                if n.startswith("dashmap::DashMap") and entry in str(t["f"].get("a", ())):
                    reg = True
                    if n.rsplit("::", 1)[-1] in ("insert", "remove", "remove_if", "clear", "retain", "alter", "entry"):
                        hit = True
        root = strip_gen(k).split("::{closure", 1)[0]
        if reg:
            mapf.add(root)
        if hit:
            out.add(root)
    return {x for x in out if x in p.fns}, {x for x in mapf if x in p.fns}


def symargs(p, f, an, drop=False):
    static, key, entry, handle, cnt, link, fields = an
    args = []
    for i in range(1, f.argc + 1):
        ty = strip_gen(f.locals[i][0])
        base = ty.lstrip("&").replace("mut ", "").strip()
        v = ("sym", "arg%d" % i)
        if base.endswith(handle):
            v = ("adt", handle, handle.rsplit("::", 1)[1], (("adt", key, key.rsplit("::", 1)[1], (v,)),))
        elif base.endswith(key):
            v = ("adt", key, key.rsplit("::", 1)[1], (v,))
        if ty.startswith("&"):
            args.append(("ref", ("obj", v), ()))
        else:
            args.append(v)
    return args


def show(k):
    if k[0] == "sym" and k[1].startswith("arg"):
        return "parameter " + k[1][3:]
    if k[0] == "grad":
        return "the gradient of " + show(k[1])
    if k[0] == "fresh":
        return "the new tensor"
    return "a tensor"


def balance(ru, st):
    """{key: references more than counted} of a finished path; entries not registered do not matter"""
    bal = {}
    gone = {x[1] for x in st.facts if x[0] == "removed"}
    zero = set()
    odd = []
    for e in ru.evs(st):
        if e[2] in ("cnt",):
            bal[e[3]] = bal.get(e[3], 0) + e[4]
        elif e[2] in ("handle", "link"):
            bal[e[3]] = bal.get(e[3], 0) - e[4]
        elif e[2] == "kept" or e[2] == "load" and max(ru.values(st, e[4]), default=0) <= 0:
            zero.add(e[3])
        elif e[2] == "odd":
            odd.append((e[3], e[4]))
    if any(x[0] == "pres" and x[2] is False and x[1] not in gone and x[1][0] == "sym" and x[1][1].startswith("arg")
           for x in st.facts):
        return {}, odd      # called for a tensor that does not exist
    out = {k: v for k, v in bal.items() if v and k not in zero and
           not (ru.presence(st, k) is False and k not in gone)}
    return out, odd


def judge(p, an, f, enters, balanced):
    drop = f.path.endswith(" as core::ops::drop::Drop>::drop")
    ru = RC(p, an, enters, balanced)
    ru.deadline = time.time() + 60
    ai = Counter(p, ru, 60000)
    facts = frozenset()
    if drop and an[3] in f.path:
        facts = frozenset({("e", 0, "handle", ("sym", "arg1"), -1)})
    rets, unws = ai.analyse(f.path, symargs(p, f, an), facts)
    return ru, [s for v, s in rets]


def check(rep):
    p = program("hodu_core")
    an = anchor(p)
    rep.floor("anchor", "tensor registry with a count and a gradient link", 1 if an else 0, 1)
    if not an:
        return
    static, key, entry, handle, cnt, link, fields = an
    seeds, maps = touches(p, an)
    rep.floor("anchor", "functions that make handles or change counts", len(seeds), 8)
    cg = p.callgraph()
    callers = {}
    for a, bs in cg.items():
        for b in bs:
            callers.setdefault(strip_gen(b), set()).add(strip_gen(a).split("::{closure", 1)[0])
    # which flag is up while derivatives run
    fl = t04.Flags(p)
    vjp = {k for k, f in p.fns.items() if f.name == "compute_vjp"}
    reach, todo = set(vjp), list(vjp)
    while todo:
        for c in callers.get(todo.pop(), ()):
            if c not in reach:
                reach.add(c)
                todo.append(c)
    flags = set()
    for k in reach:
        for h in [k] + [x for x in cg.get(k, ())]:
            g = p.fns.get(h)
            if g is not None:
                flags |= {a for bi, t, c in g.calls() for a, v in fl.effect(g, t) if v is True}
    rep.floor("anchor", "flag that is up while gradients are computed", len(flags), 1)
    work, done, partial, balanced, pend = sorted(seeds), {}, {}, set(), []
    S = set(seeds)
    removes = 0
    while work:
        k = work.pop(0)
        if k in done:
            continue
        f = p.fns[k]
        try:
            ru, sts = judge(p, an, f, S | maps, set())
        except CheckError as e:
            rep.undecided("balance|" + k, str(e))
            done[k] = None
            continue
        worst, odds, rem = {}, [], []
        for st in sts:
            b, o = balance(ru, st)
            worst.update(b)
            odds += o
            rem += [e for e in ru.evs(st) if e[2] == "remove"]
        done[k] = (worst, odds, rem, len(sts), f)
        if (worst or odds or any(not e[4] for e in rem)) and " as " not in k and " for " not in k:
            cs = sorted(c for c in callers.get(k, ()) if c in p.fns and c != k)
            # what is not balanced by itself is judged in its callers
            if 0 < len(cs) <= 12:
                partial[k] = cs
                for c in cs:
                    if c not in S:
                        S.add(c)
                        if c not in done and c not in work:
                            work.append(c)
    for k in sorted(partial):
        if any(done.get(c) is None for c in partial[k]):
            del partial[k]      # its callers cannot be followed: it answers for itself
    for k in sorted(done):
        if done[k] is None or k in partial:
            continue
        worst, odds, rem, n, f = done[k]
        rep.count("paths", n)
        msg = "; ".join("%s %s counted than there are handles and links to it" % (
            show(x), "is %d %s" % (abs(v), "more often" if v > 0 else "less often")) for x, v in sorted(worst.items(), key=repr))
        rep.ob("balance", k, not worst, "%s: %s" % (k, msg), f.loc)
        rep.ob("steps", k, not odds, "%s: %s" % (k, "; ".join(sorted({o[1] for o in odds}))), f.loc)
        if rem:
            removes += 1
            bad = [e for e in rem if not e[4]]
            rep.ob("last", k, not bad, "%s removes %s on a path where references to it may be left" % (
                k, show(bad[0][3]) if bad else ""), f.loc)
            if k == "<%s as core::ops::drop::Drop>::drop" % handle:
                bad = [e for e in rem if not flags & set(e[5])]
                rep.ob("computing", k, not bad, "%s removes %s while gradients may be being computed, whose rules pass tensors "
                       "on by key" % (k, show(bad[0][3]) if bad else ""), f.loc)
    rep.count("functions judged in their callers", len(partial))
    rep.floor("anchor", "functions that remove tensors", removes, 3)
    ok = [k for k in done if done[k] and k.endswith(" as core::ops::drop::Drop>::drop") and handle in k and done[k][2]]
    rep.ob("freed", "drop of the last handle", bool(ok), "no drop of a handle ever removes a tensor", "")
    tapes(rep, p, an)


def tapes(rep, p, an):
    """what a recorded operation refers to is owned by the record"""
    static, key, entry, handle, cnt, link, fields = an
    op = OPS + "Op"
    n = 0
    for s, d in sorted(p.statics.items()):
        for a in sorted(p.adts):
            if not (a.startswith("hodu_core") and a in d.get("ty", "") and "::gradient::" in s):
                continue
            fs = [x for v in p.adt(a)["variants"] for x in v["f"]]
            if not any(x[1] == op for x in fs):
                continue
            n += 1
            own = [x for x in fs if handle in x[1] and "Vec<" in x[1]]
            keys = [x for x in fs if ("Vec<%s>" % key) in x[1].replace("alloc::vec::", "")]
            rep.ob("owned", a, bool(own) and not keys, "recorded operations (%s) name their operands by key only, so they can be gone "
                   "before gradients are computed" % a, "")
    rep.floor("anchor", "records of operations", n, 1)
