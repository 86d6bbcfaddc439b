"""T05: nobody waits for a lock it holds.

A guard is a value that owns a lock of the library's shared state (mutex, read-write lock, shard of a concurrent map) or a borrow of a
per-thread cell; the lock is named by what it protects.  In every function the guards that may be alive at each point are followed
through moves, matches and drops; at each call, drop and acquisition under a guard, everything that may run there (callees, closures
handed on, drop code of values) is searched for acquisitions.  No acquisition may conflict with a guard that is held, and the locks
acquired under others are acquired in one order everywhere."""
import re
from collections import defaultdict
from mir import strip_gen, callee
from common import program

CRATES = ("hodu_core", "hodu_nn", "hodu_datasets", "hodu_plugin", "hodu_plugin_runtime", "hodu_plugin_sdk", "hodu_cli")
GUARD = re.compile(r"(?:std::sync::poison::mutex::|parking_lot[\w:]*::)?(MutexGuard|RwLockReadGuard|RwLockWriteGuard)<'_, "
                   r"|dashmap::mapref::one::(Ref|RefMut)<'_, |dashmap::mapref::multiple::(RefMulti|RefMutMulti)<'_, "
                   r"|dashmap::mapref::entry::(Entry|OccupiedEntry|VacantEntry)<'_, |dashmap::iter::(Iter|IterMut)<'_, "
                   r"|core::cell::(Ref|RefMut)<'_, ")
SHARED = {"RwLockReadGuard", "Ref", "RefMulti", "Iter"}
MAP_SHARED = {"get", "iter", "contains_key", "len", "is_empty", "view", "capacity", "try_get"}
MAP_EXCL = {"get_mut", "insert", "remove", "remove_if", "remove_if_mut", "entry", "alter", "alter_all", "retain", "clear", "shrink_to_fit",
            "iter_mut", "try_entry", "try_get_mut", "reserve"}
CELL_EXCL = {"borrow_mut", "replace", "take", "set", "swap", "replace_with", "with_borrow_mut"}
CELL_SHARED = {"borrow", "with_borrow"}
CLONING = {"clone", "cloned", "to_vec", "to_owned", "extend_from_slice", "clone_from", "resize", "from_elem"}
DROPPING = {"clear", "truncate", "drain", "retain", "fill", "resize"}


def args_of(s, i):
    """the comma-separated arguments of the bracket that opens just before position i"""
    out, d, st = [], 0, i
    j = i
    while j < len(s):
        c = s[j]
        if c in "<([{":
            d += 1
        elif c in ")]}" or (c == ">" and s[j - 1] != "-"):
            if d == 0:
                out.append(s[st:j].strip())
                return out
            d -= 1
        elif c == "," and d == 0:
            out.append(s[st:j].strip())
            st = j + 1
        j += 1
    return out


def locks_in(ty, cells):
    """locks that a value of this type holds: {(name, shared)}"""
    out = set()
    if ty.startswith(("&", "*")):
        return out
    for m in GUARD.finditer(ty):
        if ty[:m.start()].endswith("&") or re.search(r"&('\w+ )?(mut )?$", ty[:m.start()]):
            continue
        kind = next(g for g in m.groups() if g)
        a = args_of(ty, m.end())
        if "cell::" in m.group(0):
            if a and a[0] in cells:
                out.add((("cell", a[0]), kind == "Ref"))
        elif "dashmap" in m.group(0):
            out.add((("map", ", ".join(a[:2])), kind in SHARED))
        elif a:
            out.add((("rwlock" if "RwLock" in kind else "lock", a[0]), kind in SHARED))
    return out


def acquired(t, cells):
    """(name, shared) that a call acquires by itself, or None"""
    d = callee(t)[0]
    a = t["f"].get("a", [])
    m = d.rsplit("::", 1)[-1]
    if d.endswith("mutex::Mutex::lock") and a:
        return ("lock", a[0]), False
    if "rwlock::RwLock::" in d and m in ("read", "write") and a:
        return ("rwlock", a[0]), m == "read"
    if d.startswith("dashmap::DashMap::") and len(a) > 1 and m in MAP_SHARED | MAP_EXCL:
        return ("map", ", ".join(a[:2])), m in MAP_SHARED
    if ("cell::RefCell::" in d or "local::LocalKey::" in d) and a and m in CELL_EXCL | CELL_SHARED:
        x = a[0]
        if x.startswith("core::cell::RefCell<"):
            x = args_of(x, len("core::cell::RefCell<"))[0]
        if x in cells:
            return ("cell", x), m in CELL_SHARED
    return None


def conflict(held, want):
    (h, hs), (w, ws) = held, want
    if h != w:
        return False
    # two shared borrows of a cell agree, and the map's shards admit readers while writers wait; std's read-write lock need not
    return not (hs and ws and h[0] in ("cell", "map"))


class An:
    def __init__(self, p):
        self.p = p
        self.cells = set()
        for s in p.statics.values():
            m = re.search(r"RefCell<", s["ty"]) if "ty" in s else None
            if m and "LocalKey" in s["ty"]:
                self.cells.add(args_of(s["ty"], m.end())[0])
        for f in p.fns.values():
            for l in f.locals[:1]:
                m = re.match(r"std::thread::local::LocalKey<core::cell::RefCell<", l[0])
                if m:
                    self.cells.add(args_of(l[0], m.end())[0])
        self.dropcache = {}
        self.acq = None
        self.closures_of = defaultdict(set)

    def drop_fns(self, ty, what="core::ops::drop::Drop>::drop", seen=None):
        """code of the workspace that dropping (or cloning) a value of this type runs"""
        if (ty, what) in self.dropcache:
            return self.dropcache[ty, what]
        seen = set() if seen is None else seen
        out = set()
        if ty.startswith(("&", "*")) or ty in seen:
            return out
        top = not seen
        seen.add(ty)
        t = re.sub(r"&('\w+ )?(mut )?[\w:]+(<[^<>]*>)?", "", ty)
        for x in set(re.findall(r"[A-Za-z_]\w*(?:::\w+)+", t)):
            q = "<%s as %s" % (x, what)
            hit = [k for k in (q,) if k in self.p.fns]
            out |= set(hit)
            a = self.p.adts.get(x)
            if a:
                for v in a.get("variants", []):
                    for fl in v.get("f", v.get("fields", [])):
                        fty = fl[1] if isinstance(fl, (list, tuple)) else fl.get("ty", "")
                        out |= self.drop_fns(fty, what, seen)
        if top:
            self.dropcache[ty, what] = out
        return out

    def is_guard(self, ty):
        return bool(locks_in(ty, self.cells))

    def runs(self, f, t):
        """(functions that run at this call or drop, acquisition by itself)"""
        if t["t"] == "drop":
            if self.is_guard(t["ty"]):
                return set(), None
            out = {strip_gen(x) for x in t["impls"]}
            return {x for x in out if x in self.p.fns} | self.drop_fns(t["ty"]), None
        if callee(t)[0].startswith("std::thread::") and "spawn" in callee(t)[0]:
            return set(), None      # runs on a thread of its own
        out = set(self.p.targets(t)) | set(self.p.callbacks(t))
        for a in t["args"]:
            k = a.get("k")
            if k and "fn" in k:
                q = strip_gen(k["fn"].get("r", k["fn"]["d"]))
                if q in self.p.fns:
                    out.add(q)
        d = callee(t)[0]
        ga = t["f"].get("a", [])
        if d == "core::mem::drop" and ga and not self.is_guard(ga[0]):
            out |= self.drop_fns(ga[0])
        elif d.rsplit("::", 1)[-1] in DROPPING and d.startswith(("alloc::", "std::collections", "dashmap", "smallvec")):
            for x in ga:
                out |= self.drop_fns(x)
        elif d.rsplit("::", 1)[-1] in CLONING and not self.p.targets(t):
            for x in ga:
                out |= self.drop_fns(x, "core::clone::Clone>::clone")
        return out, acquired(t, self.cells)

    def summaries(self):
        """what each function may acquire before it returns"""
        p = self.p
        acq = {q: set() for q in p.fns}
        rev = defaultdict(set)
        work = []
        for q, f in p.fns.items():
            reach = set(f.rpo())
            for i, b in enumerate(f.blocks):
                if i not in reach:
                    continue
                t = b[1]
                if t["t"] in ("call", "drop"):
                    fs, a = self.runs(f, t)
                    for x in fs:
                        rev[x].add(q)
                    if a:
                        acq[q].add(a)
            if acq[q]:
                work.append(q)
        while work:
            q = work.pop()
            for c in rev[q]:
                if not acq[q] <= acq[c]:
                    acq[c] |= acq[q]
                    work.append(c)
        self.acq, self.rev = acq, rev

    def held(self, f):
        """block -> guards that may be alive when it starts"""
        p = self.p
        G = {i for i, l in enumerate(f.locals) if self.is_guard(l[0])}
        if not G:
            return None, G
        start = frozenset(i for i in range(1, f.argc + 1) if i in G)
        at = {0: start}
        work = [0]
        while work:
            bi = work.pop()
            h = set(at[bi])
            for s in f.blocks[bi][0]:
                self.stmt(f, G, h, s)
            for s, hh in self.out(f, G, h, bi):
                new = at.get(s, frozenset()) | hh
                if s not in at or new != at[s]:
                    at[s] = frozenset(new)
                    work.append(s)
        return at, G

    def stmt(self, f, G, h, s):
        if s[0] == "dead":
            h.discard(s[1])
        elif s[0] == "=":
            got = False
            for o in ops(s[2]):
                if "m" in o and o["m"][0] in h and (len(o["m"]) == 1 or s[1][0] in G):
                    h.discard(o["m"][0])
                    got = True
            if s[1][0] in G:
                if got:
                    h.add(s[1][0])
                elif len(s[1]) == 1:
                    h.discard(s[1][0])

    def empty_variants(self, ty):
        """variants of a guard-carrying enum that carry no guard"""
        m = re.match(r"([\w:]+)<", ty)
        if not m:
            return set()
        a = args_of(ty, m.end())
        if m.group(1) == "core::option::Option":
            return {0}
        out = set()
        if m.group(1) in ("core::result::Result", "core::ops::control_flow::ControlFlow") and len(a) == 2:
            v = (0, 1) if "Result" in m.group(1) else (1, 0)
            for i in range(2):
                if not self.is_guard(a[i]):
                    out.add(v[i])
        return out

    def out(self, f, G, h, bi):
        t = f.blocks[bi][1]
        if t["t"] == "call":
            for a in t["args"]:
                if "m" in a and len(a["m"]) == 1:
                    h.discard(a["m"][0])
            d = t["dst"]
            if len(d) == 1:
                h.discard(d[0])
                if d[0] in G:
                    h.add(d[0])
            if t.get("to") is not None:
                yield t["to"], frozenset(h)
        elif t["t"] == "drop":
            if len(t["p"]) == 1:
                h.discard(t["p"][0])
            yield t["to"], frozenset(h)
        elif t["t"] == "switch":
            src = self.tested(f, bi, t)
            for v, to in t["cases"]:
                hh = set(h)
                if src and int(v) in src[1]:
                    hh.discard(src[0])
                yield to, frozenset(hh)
            if t.get("else") is not None:
                hh = set(h)
                if src:
                    n = src[2]
                    rest = set(range(n)) - {int(v) for v, _ in t["cases"]}
                    if rest and rest <= src[1]:
                        hh.discard(src[0])
                yield t["else"], frozenset(hh)
        else:
            for s in f.succs(bi):
                yield s, frozenset(h)

    def tested(self, f, bi, t):
        """(guard local, values of the switch for which it holds nothing, number of values)"""
        o = t["on"].get("m") or t["on"].get("c")
        if not o or len(o) != 1:
            return None
        for s in reversed(f.blocks[bi][0]):
            if s[0] == "=" and s[1] == o:
                x = s[2].get("discr")
                if x and len(x) == 1 and self.is_guard(f.locals[x[0]][0]):
                    return x[0], self.empty_variants(f.locals[x[0]][0]), 2
                return None
        # a truth value some earlier is_some/is_none/is_ok/is_err gave
        for b in f.blocks:
            u = b[1]
            if u["t"] == "call" and u["dst"] == o:
                m = callee(u)[0].rsplit("::", 1)[-1]
                if m in ("is_some", "is_none", "is_ok", "is_err") and "m" in u["args"][0]:
                    r = u["args"][0]["m"][0]
                    for b2 in f.blocks:
                        for s in b2[0]:
                            if s[0] == "=" and s[1] == [r] and "ref" in s[2] and len(s[2]["ref"]) == 1:
                                g = s[2]["ref"][0]
                                e = self.empty_variants(f.locals[g][0])
                                full = {"is_some": 1, "is_none": 0, "is_ok": 0, "is_err": 1}[m]
                                vals = set()
                                for b01 in (0, 1):
                                    var = full if b01 else 1 - full
                                    if var in e:
                                        vals.add(b01)
                                return g, vals, 2
        return None


def ops(rv):
    """operands of an rvalue"""
    out = []
    if isinstance(rv, dict):
        for k, v in rv.items():
            if k in ("m", "c", "k"):
                return [rv]
            if isinstance(v, dict):
                out += ops(v)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict):
                        out += ops(x)
    return out


def short(l):
    k, n = l[0]
    return "%s of %s" % (k, re.sub(r"[\w]+::", "", n))


def check(rep):
    p = program(*CRATES)
    an = An(p)
    an.summaries()
    sites = []          # (f, loc, held guards (lock, shared), functions run, own acquisition)
    holdcb = defaultdict(set)
    nacq = 0
    heldof = {}
    for q, f in p.fns.items():
        for _, t, c in f.calls():
            if not c and acquired(t, an.cells):
                nacq += 1
        at, G = an.held(f)
        if at is None:
            # maps take closures that run while the shard is locked
            at = {}
        heldof[q] = (at, G)
        reach = set(f.rpo())
        for bi, b in enumerate(f.blocks):
            if bi not in reach:
                continue
            t = b[1]
            if t["t"] not in ("call", "drop"):
                continue
            h = set(at.get(bi, ()))
            for s in b[0]:
                an.stmt(f, G, h, s)
            moved = set()
            if t["t"] == "call":
                for a in t["args"]:
                    if "m" in a and len(a["m"]) == 1 and a["m"][0] in h:
                        moved.add(a["m"][0])
            elif len(t["p"]) == 1:
                moved |= {t["p"][0]} & h
            locks = set()
            for g in h:
                # a value is at the callee's disposal once it is moved there, but an iterator stays locked while closures run
                if g in moved and not (t["t"] == "call" and "dashmap::iter::" in f.locals[g][0]):
                    continue
                locks |= locks_in(f.locals[g][0], an.cells)
            fs, own = an.runs(f, t)
            d = callee(t)[0] if t["t"] == "call" else ""
            if d.startswith("dashmap::") or "LocalKey::with_borrow" in d:
                inner = {own} if own else set()
                for g in moved:
                    inner |= locks_in(f.locals[g][0], an.cells)
                if inner and fs:
                    sites.append((f, t, locks | inner, fs, None))
                    for x in fs:
                        if calls_param(p, x):
                            holdcb[q] |= inner
            if locks and (fs or own):
                sites.append((f, t, locks, fs, own))
            if locks and d.rsplit("::", 1)[-1] in ("call_once", "call_mut", "call") and t["f"].get("k") == "decl":
                holdcb[owner(q)] |= locks
            if locks and fs:
                for x in fs:
                    if calls_param(p, x):
                        holdcb[owner(q)] |= locks
    # functions that run a callback they were given while they hold a lock
    grown = True
    while grown:
        grown = False
        for q, f in p.fns.items():
            for _, t, c in f.calls():
                if c:
                    continue
                for g in p.targets(t):
                    if holdcb.get(g):
                        passes = any(calls_param(p, x) for x in p.callbacks(t)) or \
                            any(re.fullmatch(r"[A-Z]\w*|impl .*", x) for x in t["f"].get("a", []))
                        if passes and not holdcb[g] <= holdcb[owner(q)]:
                            holdcb[owner(q)] |= holdcb[g]
                            grown = True
    for q, f in p.fns.items():
        for _, t, c in f.calls():
            if c:
                continue
            for g in p.targets(t):
                if holdcb.get(g):
                    cb = set(p.callbacks(t))
                    for a in t["args"]:
                        k = a.get("k")
                        if k and "fn" in k:
                            x = strip_gen(k["fn"].get("r", k["fn"]["d"]))
                            if x in p.fns:
                                cb.add(x)
                    if cb:
                        sites.append((f, t, set(holdcb[g]), cb, None))
    edges = defaultdict(list)
    bad = defaultdict(list)
    n = 0
    judged = set()
    for f, t, locks, fs, own in sites:
        n += 1
        judged.add(f.path)
        want = {}
        if own:
            want.setdefault(own, None)
        for x in fs:
            for a in an.acq.get(x, ()):
                want.setdefault(a, x)
        for h in locks:
            for w, via in want.items():
                if conflict(h, w):
                    bad[owner(strip_gen(f.path))].append((h, w, via, t.get("loc", f.loc)))
                elif h[0] != w[0]:
                    edges[(h[0], w[0])].append((f.path, t.get("loc", f.loc)))
    for q in sorted({owner(strip_gen(x)) for x in judged}):
        b = bad.get(q, [])
        if b:
            h, w, via, loc = b[0]
            rep.ob("waits", "%s %s" % (q, short(h)), False, "%s holds the %s while %s may take it" %
                   (q, short(h), "a call of " + via if via else "it"), loc)
        else:
            rep.ob("waits", q, True, "")
    # one order
    g = defaultdict(set)
    for a, b in edges:
        g[a].add(b)
    for a, b in sorted(edges):
        seen, work = set(), [b]
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            work += g[x]
        cyc = a in seen
        fn, loc = edges[(a, b)][0]
        rep.ob("order", "%s before %s" % (short((a, 0)), short((b, 0))), not cyc,
               "%s takes the %s while it holds the %s, elsewhere they are taken the other way round" % (fn, short((b, 0)), short((a, 0))), loc)
    rep.count("calls and drops under a lock", n)
    rep.floor("anchor", "acquisitions of locks and borrows", nacq, 20)
    rep.floor("anchor", "functions in which something runs under a lock", len(judged), 10)
    rep.count("orders between two locks", len(edges))


def owner(q):
    return re.sub(r"(::\{closure#\d+\})+$", "", q)


def calls_param(p, q):
    f = p.fns.get(q)
    if f is None:
        return False
    for _, t, c in f.calls():
        d = callee(t)[0]
        if d.startswith("core::ops::function::Fn") and t["f"].get("k") == "decl":
            return True
    return False
