"""Conditional dataflow over one CPU kernel: where each access to an operand gets its index from.

The kernel's IR is propagated with the metadata words its caller writes: counts and ranks are constants, everything else keeps the
name of the word (size, stride or offset of an operand). Branches whose condition is decided by those constants are followed on that
side only. For every load and store the result is the set of metadata words its address is computed from."""
import cir
from extract import CheckError

BIG = "big"          # some number of at least 2
WIDE = 20
CALLS_PURE = None


def filt(s, pred, o, left):
    """values of set s (left or right operand of the comparison) that can satisfy it against some value of set o"""
    def ok(a, b):
        return {"eq": a == b, "ne": a != b, "ult": a < b, "slt": a < b, "ule": a <= b, "sle": a <= b,
                "ugt": a > b, "sgt": a > b, "uge": a >= b, "sge": a >= b}[pred]
    return frozenset(x for x in s if any(ok(x, y) if left else ok(y, x) for y in o))


NEG = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "slt": "sge", "sge": "slt", "ugt": "ule", "ule": "ugt",
       "sgt": "sle", "sle": "sgt"}


class Ctx:
    def __init__(self, an, f, types, bind, cid):
        self.an, self.f, self.types, self.bind, self.cid = an, f, types, bind, cid
        self.defs = {}
        self.blk = {}
        for b, ins in f.blocks.items():
            for i in ins:
                if i[1]:
                    self.defs[i[1]] = i
                    self.blk[i[1]] = b
        self.params = {"%" + str(n): n for n in range(len(f.params))}
        for n, (_ty, v) in enumerate(f.params):
            if isinstance(v, str):
                self.params[v] = n
        self.live = {f.order[0]}
        self.edges = set()
        self.phis = {}
        self.memo = {}
        self.rmemo = {}
        self.facts = {}
        self.preds = {}
        for b, ins in f.blocks.items():
            t = ins[-1] if ins else None
            for s in self.succ(t):
                self.preds.setdefault(s, []).append(b)
        self._idom()
        self.workers = {}

    @staticmethod
    def succ(t):
        if t is None:
            return ()
        if t[0] == "br":
            return t[3]
        if t[0] == "switch":
            return (t[3],) + tuple(l for _c, l in t[4])
        return ()

    def _idom(self):
        # facts of a block: conditions on the edges that lead to single-predecessor blocks on its dominator path
        order, seen = [], set()
        st = [(self.f.order[0], iter(self.succ(self.f.blocks[self.f.order[0]][-1])))]
        seen.add(self.f.order[0])
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ(self.f.blocks[s][-1]))))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        num = {b: i for i, b in enumerate(order)}
        idom = {order[0]: order[0]}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in self.preds.get(b, ()):
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.rpo = order
        self.loops = {}
        for b in order:
            for s in self.succ(self.f.blocks[b][-1]):
                if s in num and num[s] <= num[b]:
                    x = b
                    while x != s and num[x] > num[s]:
                        x = idom[x]
                    if x == s:
                        body, st = self.loops.setdefault(s, {s}), [b]
                        while st:
                            y = st.pop()
                            if y not in body and y in num:
                                body.add(y)
                                st += self.preds.get(y, ())
        self.sim = {}
        self.walking = set()
        for b in order:
            fs = () if b == order[0] else self.facts.get(idom[b], ())
            ps = self.preds.get(b, [])
            if len(ps) == 1:
                fs = fs + self.edgefacts(ps[0], b)
            self.facts[b] = fs

    def edgefacts(self, p, s):
        t = self.f.blocks[p][-1]
        if t[0] == "br" and t[2] is not None and t[3][0] != t[3][1]:
            return ((t[2], t[3][0] == s),)
        return ()

    def isptr(self, v):
        if v in self.defs:
            d = self.defs[v]
            return d[0] == "gep" or d[0] == "load" and d[2] == "ptr"
        return v in self.params and self.f.params[self.params[v]][0].startswith("ptr")

    # ---- integers
    def ival(self, v, b, depth=0, extra=()):
        if isinstance(v, int):
            return frozenset((v,))
        if v is None or not isinstance(v, str):
            return None
        key = (v, b, extra)
        m = self.memo.get(key, 0)
        if m != 0:
            return m
        if depth > 60:
            return None
        self.memo[key] = None
        r = self._ival(v, b, depth, extra)
        if isinstance(r, frozenset) and len(r) > 1:
            for cond, truth in self.facts.get(b, ()) + extra:
                d = self.defs.get(cond) if isinstance(cond, str) else None
                if d and d[0] == "icmp" and v in (d[3], d[4]) and d[3] != d[4]:
                    o = self.ival(d[4] if d[3] == v else d[3], b, depth + 1, extra)
                    if isinstance(o, frozenset):
                        pr = d[2] if truth else NEG[d[2]]
                        r = filt(r, pr, o, d[3] == v)
            if len(r) > WIDE:
                r = None
        self.memo[key] = r
        return r

    def _ival(self, v, b, depth, extra):
        if v in self.params and v not in self.defs:
            return self.an.parval(self, self.params[v])
        d = self.defs.get(v)
        if d is None:
            return None
        op = d[0]
        if op == "phi":
            for h, vals in self.sim.items():
                if v in vals and b not in self.loops[h] and vals[v] is not None:
                    return vals[v]
            r = self.phis.get(v, frozenset())
            return self.paced(v, b, False) if r is None else r
        if op == "icmp":
            return self.icmp(d, b, depth, extra)
        if op in ("and", "or", "xor") and d[2] == "i1":
            x, y = self.ival(d[3], b, depth + 1, extra), self.ival(d[4], b, depth + 1, extra)
            z = frozenset((0,)) if op == "and" else frozenset((1,))
            if op != "xor" and (x == z or y == z):
                return z
        if op in cir.BINOPS:
            x, y = self.ival(d[3], b, depth + 1, extra), self.ival(d[4], b, depth + 1, extra)
            if not isinstance(x, frozenset) or not isinstance(y, frozenset):
                return None
            if len(x) * len(y) > 400:
                return None
            out = set()
            for p in x:
                for q in y:
                    try:
                        out.add({"add": lambda: p + q, "sub": lambda: p - q, "mul": lambda: p * q, "and": lambda: p & q,
                                 "or": lambda: p | q, "xor": lambda: p ^ q, "shl": lambda: p << q if q < 64 else 0,
                                 "lshr": lambda: p >> q, "ashr": lambda: p >> q, "udiv": lambda: p // q, "sdiv": lambda: p // q,
                                 "urem": lambda: p % q, "srem": lambda: p % q}[op]())
                    except (KeyError, ZeroDivisionError, ValueError):
                        return None
            return frozenset(out)
        if op == "cast":
            if d[2] in ("zext", "sext", "trunc", "bitcast"):
                return self.ival(d[3], b, depth + 1, extra)
            return None
        if op == "un" and d[2] == "freeze":
            return self.ival(d[3], b, depth + 1, extra)
        if op == "select":
            c = self.ival(d[2], b, depth + 1, extra)
            r = frozenset()
            for side, x in ((1, d[3]), (0, d[4])):
                if c is None or side in c:
                    y = self.ival(x, b, depth + 1, extra)
                    if not isinstance(y, frozenset):
                        return y if isinstance(c, frozenset) and len(c) == 1 else None
                    r |= y
            return r
        if op == "load":
            return self.an.loadval(self, d, b)
        if op == "call" and d[2] == "@sysconf":
            return BIG
        return None

    def icmp(self, d, b, depth, extra):
        pr, x, y = d[2], d[3], d[4]
        w = self.an.forced(self, pr, x, y)
        if w is not None:
            return frozenset((w,))
        p, q = self.ival(x, b, depth + 1, extra), self.ival(y, b, depth + 1, extra)
        if isinstance(p, frozenset) and isinstance(q, frozenset):
            out = set()
            if not p or not q:
                return frozenset()
            if len(p) * len(q) > 900:
                return frozenset((0, 1))
            for s in p:
                for t in q:
                    out.add(int({"eq": s == t, "ne": s != t, "ult": s < t, "slt": s < t, "ule": s <= t, "sle": s <= t,
                                 "ugt": s > t, "sgt": s > t, "uge": s >= t, "sge": s >= t}[pr]))
            return frozenset(out)
        # a number of at least two against a constant of at most one
        for s, t, fl in ((p, q, False), (q, p, True)):
            if s == BIG and isinstance(t, frozenset) and t and max(t) <= 1 and min(t) >= 0:
                pr2 = pr if not fl else {"ult": "ugt", "ugt": "ult", "slt": "sgt", "sgt": "slt", "ule": "uge", "uge": "ule",
                                         "sle": "sge", "sge": "sle"}.get(pr, pr)
                return frozenset((1 if pr2 in ("ne", "ugt", "sgt", "uge", "sge") else 0,))
        return frozenset((0, 1))

    # ---- reachability
    def sccp(self):
        """one pass; returns True when something changed"""
        changed = False
        if self.an.mode is not None:
            for h, body in self.loops.items():
                if h in self.live and len(body) <= 12 and any(
                        i[0] == "icmp" and self.an.forced(self, i[2], i[3], i[4]) is not None for b in body for i in self.f.blocks[b]):
                    new = self.runloop(h)
                    if new is None:
                        new = {}
                    if new != self.sim.get(h, {}):
                        self.sim[h] = new
                        changed = True
        for b in self.rpo:
            if b not in self.live:
                continue
            self.memo = {}
            for i in self.f.blocks[b]:
                if i[0] == "phi":
                    acc = self.phis.get(i[1], frozenset())
                    if acc is None:
                        continue
                    new = acc
                    for v, p in i[3]:
                        if (p, b) not in self.edges:
                            continue
                        x = self.ival(v, p, 0, self.edgefacts(p, b))
                        if v is None and i[2].startswith("i"):
                            continue      # undef joins with anything
                        if not isinstance(x, frozenset):
                            new = None
                            break
                        new = new | x
                    if new is not None and len(new) > WIDE:
                        new = None
                    if new != acc:
                        self.phis[i[1]] = new
                        self.memo = {}
                        changed = True
                elif i[0] == "call":
                    if i[2] == "@pthread_create" and i[1] not in self.workers:
                        w = i[3][2][1]
                        self.workers[i[1]] = self.an.worker(self, w, i[3][3][1], b)
                        changed = True
                    elif i[2] and i[2][1:] in cir.index() and (self.cid, i) not in self.an.callees and \
                            any(t == "ptr" for t, _v in i[3]):
                        self.an.callees[(self.cid, i)] = self.an.callee(self, i, b)
                        changed = True
                elif i[0] == "br":
                    if i[2] is None:
                        ts = i[3] if len(i[3]) == 1 else i[3]
                    else:
                        c = self.ival(i[2], b)
                        if not isinstance(c, frozenset):
                            c = frozenset((0, 1))
                        ts = [t for k, t in enumerate(i[3]) if (1 - k) in c or (k == 0 and any(x not in (0, 1) for x in c))]
                    for t in ts:
                        if (b, t) not in self.edges:
                            self.edges.add((b, t))
                            self.live.add(t)
                            changed = True
                elif i[0] == "switch":
                    c = self.ival(i[2], b)
                    ts = []
                    known = {x: l for x, l in i[4]}
                    if isinstance(c, frozenset):
                        ts = {known.get(x, i[3]) for x in c}
                    else:
                        ts = {i[3]} | {l for x, l in known.items() if c != BIG or x not in (0, 1)}
                    for t in ts:
                        if (b, t) not in self.edges:
                            self.edges.add((b, t))
                            self.live.add(t)
                            changed = True
        self.memo = {}
        return changed

    def runloop(self, h):
        """values the phis of a loop have when it is left, its rounds being followed one by one; None when that is not possible"""
        body = self.loops[h]
        old = self.phis
        base = dict(old)
        for b in body:
            for i in self.f.blocks[b]:
                if i[0] == "phi":
                    base[i[1]] = None
        out, n = {}, 0
        todo, seen = [], set()

        def enter(s, p, env):
            self.phis = {**base, **env}
            self.memo = {}
            new = dict(env)
            for i in self.f.blocks[s]:
                if i[0] != "phi":
                    break
                v = [x for x, q in i[3] if q == p]
                x = self.ival(v[0], p, 0, self.edgefacts(p, s)) if v else None
                new[i[1]] = x if isinstance(x, frozenset) and len(x) <= 2 else None
            return new
        try:
            for p in self.preds[h]:
                if p not in body and (p, h) in self.edges:
                    self.phis, self.memo = old, {}
                    todo.append((h, enter(h, p, {})))
            while todo:
                b, env = todo.pop()
                k = (b, frozenset(env.items()))
                if k in seen:
                    continue
                seen.add(k)
                n += 1
                if n > 400:
                    return None
                self.phis = {**base, **env}
                self.memo = {}
                t = self.f.blocks[b][-1]
                if t[0] == "br":
                    ts = t[3]
                    if t[2] is not None:
                        c = self.ival(t[2], b)
                        if isinstance(c, frozenset):
                            ts = [x for j, x in enumerate(t[3]) if (1 - j) in c]
                else:
                    ts = self.succ(t)
                for s in ts:
                    if s in body:
                        todo.append((s, enter(s, b, env)))
                    else:
                        for v in base:
                            if self.blk.get(v) in body:
                                x = env.get(v)
                                if x is None or out.get(v, 0) is None:
                                    out[v] = None
                                else:
                                    out[v] = out.get(v, frozenset()) | x
            return out
        finally:
            self.phis, self.memo = old, {}

    # ---- pointers
    def roots(self, v):
        """set of (root, field path) a pointer may point into"""
        if v in self.rmemo:
            return self.rmemo[v]
        self.rmemo[v] = frozenset()
        while True:
            r = self._roots(v)
            if r == self.rmemo[v]:
                break
            self.rmemo[v] = r
            if not self._inphi(v):
                break
        return r

    def _inphi(self, v):
        d = self.defs.get(v)
        return d is not None and d[0] == "phi"

    def _roots(self, v):
        if not isinstance(v, str):
            return frozenset()
        if v[0] == "@":
            return frozenset(((("G", v), ()),))
        if v in self.params and v not in self.defs:
            return self.an.parroots(self, self.params[v])
        d = self.defs.get(v)
        if d is None:
            return frozenset()
        op = d[0]
        if op == "gep":
            base = self.roots(d[3])
            if d[2].startswith("%") and len(d[4]) > 1:
                fld = []
                for x in d[4][1:]:
                    fld.append(x if isinstance(x, int) else "*")
                while fld and fld[-1] == 0:
                    fld.pop()
                return frozenset((r, pth + tuple(fld)) if fld else (r, pth) for r, pth in base)
            return base
        if op == "phi":
            r = frozenset()
            for x, p in d[3]:
                if (p, self.blk[v]) in self.edges:
                    r |= self.roots(x)
            return r
        if op == "select":
            return self.roots(d[3]) | self.roots(d[4])
        if op in ("cast",):
            return self.roots(d[3])
        if op == "alloca":
            return frozenset(((("A", self.cid, v), ()),))
        if op == "call":
            if d[2] in ("@malloc", "@calloc", "@aligned_alloc", "@realloc"):
                return frozenset(((("H", self.cid, v), ()),))
            return frozenset(((("?", self.cid, v), ()),))
        if op == "load":
            r = frozenset()
            for loc in self.roots(d[3]):
                for c, x, _b in self.an.stores_at(loc):
                    r |= c.roots(x)
            return r
        return frozenset()

    def paced(self, v, b, ptr):
        """values of a variable that advances by a fixed amount in every round of its loop, from a counter that does so too"""
        key = (v, b, "pace")
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None
        self.memo[key] = r = self._paced(v, b, ptr)
        return r

    def step(self, v, ptr):
        """(start, block it comes from, amount per round) of a phi that is advanced once per round"""
        d, h = self.defs[v], self.blk[v]
        if h not in self.loops:
            return None
        body = self.loops[h]
        first = [(x, p) for x, p in d[3] if p not in body and (p, h) in self.edges]
        again = {x for x, p in d[3] if p in body}
        if len(first) != 1 or len(again) != 1:
            return None
        n = self.defs.get(again.pop())
        if n is None:
            return None
        if ptr:
            if n[0] != "gep" or n[3] != v or n[2] != "i64" or len(n[4]) != 1:
                return None
            amt = n[4][0]
        else:
            if n[0] == "add" and v in (n[3], n[4]) and n[3] != n[4]:
                amt = n[4] if n[3] == v else n[3]
            else:
                return None
        k = self.ival(amt, h)
        if not isinstance(k, frozenset) or len(k) != 1:
            return None
        k = next(iter(k))
        return first[0] + (k - (1 << 64) if k >= 1 << 63 else k,)

    def _paced(self, v, b, ptr):
        s = self.step(v, ptr)
        if s is None:
            return None
        start = self.slots(s[0], s[1]) if ptr else self.ival(s[0], s[1])
        if not isinstance(start, frozenset) or not start:
            return None
        h = self.blk[v]
        for i in self.f.blocks[h]:
            if i[0] != "phi" or i[1] == v or not i[2].startswith("i") or self.phis.get(i[1]) is None:
                continue
            c = self.step(i[1], False)
            if c is None or not c[2]:
                continue
            c0 = self.ival(c[0], c[1])
            cs = self.ival(i[1], b)
            if not isinstance(c0, frozenset) or len(c0) != 1 or not isinstance(cs, frozenset) or len(cs) * len(start) > 400:
                continue
            c0 = next(iter(c0))
            if any((x - c0) % c[2] for x in cs):
                continue
            return frozenset(x + s[2] * ((y - c0) // c[2]) for x in start for y in cs)
        if ptr and s[2]:
            # a pointer that runs until it meets another one
            for x in self.loops[h]:
                for i in self.f.blocks[x]:
                    if i[0] != "icmp" or v not in (i[3], i[4]):
                        continue
                    o = i[4] if i[3] == v else i[3]
                    if self.blk.get(o) in self.loops[h] or not isinstance(o, str):
                        continue
                    end = self.slots(o, x)
                    if not isinstance(end, frozenset) or not end or len(start) * len(end) > 40:
                        continue
                    out = set()
                    for p in start:
                        for q in end:
                            n = (q - p) // s[2]
                            if (q - p) % s[2] or not 0 <= n <= 200:
                                return None
                            out |= {p + s[2] * k for k in range(n + 1)}
                    for cond, truth in self.facts.get(b, ()):
                        if cond == i[1] and len(end) == 1:
                            pr = i[2] if truth else NEG[i[2]]
                            out = filt(frozenset(out), pr, end, i[3] == v)
                    return frozenset(out)
        return None

    def slots(self, v, b):
        """metadata word indices a pointer may address: (frozenset | None)"""
        if v in self.params and v not in self.defs:
            return self.an.parslots(self, self.params[v])
        d = self.defs.get(v)
        if d is None:
            return None
        if d[0] == "gep":
            s = self.slots(d[3], b)
            if s is None or d[2] != "i64" or len(d[4]) != 1:
                return None
            i = self.ival(d[4][0], b)
            if not isinstance(i, frozenset):
                return None
            return frozenset(x + y for x in s for y in i)
        if d[0] in ("phi",):
            if self.blk[v] in self.loops and self.step(v, True) is not None:
                return self.paced(v, b, True)
            if v in self.walking:
                return None
            self.walking.add(v)
            r = frozenset()
            for x, p in d[3]:
                if (p, self.blk[v]) in self.edges:
                    if x == v:
                        continue
                    s = self.slots(x, p)
                    if s is None:
                        r = None
                        break
                    r |= s
            self.walking.discard(v)
            return r
        if d[0] == "select":
            p, q = self.slots(d[3], b), self.slots(d[4], b)
            return None if p is None or q is None else p | q
        if d[0] == "load":
            r = frozenset()
            for loc in self.roots(d[3]):
                for c, x, bb in self.an.stores_at(loc):
                    s = c.slots(x, bb)
                    if s is None:
                        return None
                    r |= s
            return r
        return None


class Analysis:
    def __init__(self, name, bufs, meta, mode=None, metaarg=None, lits=None):
        """bufs: argument number -> operand name; meta: the words; mode: operand assumed to have strides of its own"""
        self.meta, self.mode, self.metaarg, self.bufs = meta, mode, metaarg, bufs
        self.lits = lits or {}
        self.ctxs = []
        self.callees = {}
        self.stores = {}
        self.bits = {}
        got = cir.fn(name)
        if got is None:
            raise CheckError("no C function " + name)
        self.top = self.new(got, None)
        for _ in range(300):
            ch = False
            for c in list(self.ctxs):
                c.rmemo = {}
                ch |= c.sccp()
            ch |= self.collect()
            if not ch:
                break
        else:
            raise CheckError("no fixpoint for " + name)
        self.deps()

    def new(self, got, bind):
        c = Ctx(self, got[0], got[1], bind, len(self.ctxs))
        self.ctxs.append(c)
        return c

    def worker(self, ctx, w, argp, b):
        if not (isinstance(w, str) and w[0] == "@" and cir.fn(w[1:])):
            raise CheckError("thread entry of %s not resolved" % ctx.f.name)
        return self.new(cir.fn(w[1:]), {0: (ctx, argp, b)})

    def callee(self, ctx, i, b):
        return self.new(cir.fn(i[2][1:]), {n: (ctx, v, b) for n, (_t, v) in enumerate(i[3])})

    # parameters
    def parval(self, ctx, n):
        if ctx.bind is None:
            x = self.lits.get(n)
            return frozenset((x,)) if isinstance(x, int) else None
        if n not in ctx.bind:
            return None
        c, v, b = ctx.bind[n]
        return c.ival(v, b)

    def parroots(self, ctx, n):
        if ctx.bind is None:
            if n == self.metaarg:
                return frozenset(((("M",), ()),))
            return frozenset(((("P", n), ()),))
        if n not in ctx.bind:
            return frozenset()
        c, v, b = ctx.bind[n]
        return c.roots(v)

    def parslots(self, ctx, n):
        if ctx.bind is None:
            return frozenset((0,)) if n == self.metaarg else None
        if n not in ctx.bind:
            return None
        c, v, b = ctx.bind[n]
        return c.slots(v, b)

    # memory
    def stores_at(self, loc):
        return self.stores.get(loc, ())

    def collect(self):
        new = {}
        for c in self.ctxs:
            for b in c.rpo:
                if b not in c.live:
                    continue
                for i in c.f.blocks[b]:
                    if i[0] == "store":
                        for loc in c.roots(i[4]):
                            if loc[0][0] in "AH":
                                new.setdefault(loc, set()).add((c, i[3], b))
        ch = new != self.stores
        self.stores = new
        return ch

    def words(self, ctx, d, b):
        s = ctx.slots(d[3], b)
        if s is None:
            return None
        return [self.meta[x] if 0 <= x < len(self.meta) else ("out-of-range", x) for x in sorted(s)]

    def loadval(self, ctx, d, b):
        rs = ctx.roots(d[3])
        if len(rs) == 0:
            return frozenset()
        if all(r[0][0] == "M" for r in rs):
            ws = self.words(ctx, d, b)
            if ws is None:
                return None
            if not ws:
                return frozenset()
            if all(w[0] == "c" and isinstance(w[1], (int, bool)) for w in ws):
                return frozenset(int(w[1]) for w in ws)
            if all(w[0] in ("dim", "size") or (w[0] == "c" and isinstance(w[1], int) and w[1] > 1) for w in ws):
                return BIG
            if len(ws) == 1 and ws[0][0] == "is_contiguous" and ws[0][1] == self.mode:
                return frozenset((0,))
            return None
        r = frozenset()
        for loc in rs:
            if loc[0][0] not in "AH":
                return None
            ss = self.stores_at(loc)
            for c, x, bb in ss:
                y = c.ival(x, bb)
                if not isinstance(y, frozenset):
                    return None
                r |= y
        return r

    def isword(self, ctx, v, kind, k):
        d = ctx.defs.get(v) if isinstance(v, str) else None
        while d is not None and d[0] == "cast":
            d = ctx.defs.get(d[3]) if isinstance(d[3], str) else None
        if d is None or d[0] != "load":
            return False
        rs = ctx.roots(d[3])
        if not rs or any(r[0][0] != "M" for r in rs):
            return False
        ws = self.words(ctx, d, ctx.blk[d[1]])
        return bool(ws) and all(w[0] == kind and (k is None or w[1] == k) for w in ws)

    def forced(self, ctx, pr, x, y):
        """strides of the operand under study and offsets equal nothing they are compared with; arguments are not null"""
        if pr not in ("eq", "ne"):
            return None
        for v, o in ((x, y), (y, x)):
            if self.isword(ctx, v, "off", None) or (self.mode is not None and self.isword(ctx, v, "stride", self.mode)):
                return 1 if pr == "ne" else 0
            if o in (0, None) and isinstance(v, str) and v[0] == "%" and ctx.isptr(v):
                rs = ctx.roots(v)
                if rs and all(r[0][0] in "MP" for r in rs):
                    return 1 if pr == "ne" else 0
        return None

    # dependencies
    def bit(self, lab):
        if lab not in self.bits:
            self.bits[lab] = 1 << len(self.bits)
        return self.bits[lab]

    def deps(self):
        dep = [dict() for _ in self.ctxs]
        memdep = {}
        lab = {}
        self.unresolved = []
        for c in self.ctxs:
            for b in c.rpo:
                if b not in c.live:
                    continue
                for i in c.f.blocks[b]:
                    if i[0] == "load":
                        m = 0
                        for loc in c.roots(i[3]):
                            if loc[0][0] == "M":
                                ws = self.words(c, i, b)
                                if ws is None:
                                    self.unresolved.append((c.f.name, i[1], b))
                                    m |= self.bit(("?meta",))
                                else:
                                    for w in ws:
                                        m |= self.bit(w)
                            elif loc[0][0] == "P":
                                m |= self.bit(("val", self.bufs.get(loc[0][1], loc[0][1])))
                        lab[(c.cid, i[1])] = m
        def g(c, v):
            if not isinstance(v, str) or v[0] == "@":
                return 0
            if v in c.params and v not in c.defs:
                if c.bind is None:
                    return 0
                n = c.params[v]
                if n not in c.bind:
                    return 0
                c2, v2, _b = c.bind[n]
                return g(c2, v2)
            return dep[c.cid].get(v, 0)
        ch = True
        while ch:
            ch = False
            for c in self.ctxs:
                dd = dep[c.cid]
                for b in c.rpo:
                    if b not in c.live:
                        continue
                    for i in c.f.blocks[b]:
                        op = i[0]
                        if op == "store":
                            m = g(c, i[3])
                            if m:
                                for loc in c.roots(i[4]):
                                    if loc[0][0] in "AH" and memdep.get(loc, 0) | m != memdep.get(loc, 0):
                                        memdep[loc] = memdep.get(loc, 0) | m
                                        ch = True
                            continue
                        if i[1] is None:
                            continue
                        m = 0
                        if op in cir.BINOPS or op in ("icmp", "fcmp"):
                            m = g(c, i[3]) | g(c, i[4])
                        elif op == "load":
                            m = lab.get((c.cid, i[1]), 0)
                            for loc in c.roots(i[3]):
                                m |= memdep.get(loc, 0)
                        elif op == "gep":
                            m = g(c, i[3])
                            for x in i[4]:
                                m |= g(c, x)
                        elif op == "phi":
                            for x, p in i[3]:
                                if (p, b) in c.edges:
                                    m |= g(c, x)
                            if c.phis.get(i[1], 0) is None and self.counts(c, i):
                                m |= self.bit(("iv",))
                        elif op == "select":
                            m = g(c, i[2]) | g(c, i[3]) | g(c, i[4])
                        elif op in ("cast", "un"):
                            m = g(c, i[3])
                        elif op == "call":
                            cc = self.callees.get((c.cid, i))
                            if cc is not None:
                                for bb in cc.rpo:
                                    if bb in cc.live and cc.f.blocks[bb][-1][0] == "ret":
                                        m |= g(cc, cc.f.blocks[bb][-1][2])
                            for _t, x in i[3]:
                                m |= g(c, x)
                        elif op == "misc":
                            for x in i[3]:
                                m |= g(c, x)
                        elif op == "rmw":
                            m = g(c, i[2])
                        if m | dd.get(i[1], 0) != dd.get(i[1], 0):
                            dd[i[1]] = m | dd.get(i[1], 0)
                            ch = True
        self.dep, self.g = dep, g
        self.names = {v: k for k, v in self.bits.items()}

    def labels(self, m):
        out = set()
        while m:
            l = m & -m
            out.add(self.names[l])
            m ^= l
        return out

    def accesses(self):
        """(kind, argument number, labels of the address, C function, element type) of every reachable access to an operand"""
        out = []
        for c in self.ctxs:
            for b in c.rpo:
                if b not in c.live:
                    continue
                for i in c.f.blocks[b]:
                    lst = ()
                    if i[0] == "load":
                        lst = (("read", i[3], i[2]),)
                    elif i[0] == "store":
                        lst = (("write", i[4], i[2]),)
                    elif i[0] == "rmw":
                        lst = (("write", i[2], None),)
                    elif i[0] == "call" and i[2] and i[2].startswith("@llvm.memcpy"):
                        lst = (("write", i[3][0][1], None), ("read", i[3][1][1], None))
                    elif i[0] == "call" and i[2] and i[2].startswith("@llvm.memset"):
                        lst = (("write", i[3][0][1], None),)
                    elif i[0] == "call" and i[2] and i[2][1:] not in cir.index() and not i[2].startswith("@llvm") and \
                            i[2] not in ("@pthread_create", "@pthread_join", "@free", "@malloc"):
                        lst = tuple(("read", v, None) for t, v in i[3] if t == "ptr" and isinstance(v, str))
                    for kind, p, ty in lst:
                        for loc in c.roots(p):
                            if loc[0][0] == "P":
                                out.append((kind, loc[0][1], frozenset(self.labels(self.g(c, p))), c.f.name, ty))
        return out

    def counts(self, c, phi):
        """does a phi change from one round of its loop to the next"""
        for x, p in phi[3]:
            if (p, c.blk[phi[1]]) not in c.edges:
                continue
            seen, st = set(), [(x, False)]
            while st:
                y, moved = st.pop()
                if not isinstance(y, str) or (y, moved) in seen:
                    continue
                seen.add((y, moved))
                if y == phi[1]:
                    if moved:
                        return True
                    continue
                d = c.defs.get(y)
                if d is None:
                    continue
                if d[0] in cir.BINOPS:
                    st += [(d[3], True), (d[4], True)]
                elif d[0] == "gep":
                    st += [(d[3], True)] + [(z, True) for z in d[4]]
                elif d[0] in ("cast", "un"):
                    st.append((d[3], moved))
                elif d[0] == "select":
                    st += [(d[3], moved), (d[4], moved)]
                elif d[0] == "phi":
                    st += [(z, moved) for z, q in d[3] if (q, c.blk[y]) in c.edges]
                elif d[0] == "call" or d[0] == "load" and any(r[0][0] != "M" for r in c.roots(d[3])):
                    return True
        return False

    def strip(self, c, v):
        """through casts and single-valued joins"""
        n = 0
        while isinstance(v, str) and v in c.defs and n < 20:
            d = c.defs[v]
            n += 1
            if d[0] == "cast":
                v = d[3]
            elif d[0] == "un" and d[2] == "freeze":
                v = d[3]
            elif d[0] == "select" and (d[3] == 0 or d[4] == 0):
                v = d[4] if d[3] == 0 else d[3]
            else:
                break
        return v

    def wordload(self, c, v):
        v = self.strip(c, v)
        d = c.defs.get(v) if isinstance(v, str) else None
        if d is not None and d[0] == "load" and c.blk[v] in c.live:
            rs = c.roots(d[3])
            if rs and all(r[0][0] == "M" for r in rs):
                return d
        return None

    def ivs(self, c, v, seen=None):
        """phis with a known set of values that an expression depends on"""
        seen = set() if seen is None else seen
        out = set()
        if not isinstance(v, str) or v in seen or v not in c.defs:
            return out
        seen.add(v)
        d = c.defs[v]
        if d[0] == "phi":
            if isinstance(c.phis.get(v), frozenset):
                out.add(v)
            return out
        if d[0] in cir.BINOPS:
            return self.ivs(c, d[3], seen) | self.ivs(c, d[4], seen)
        if d[0] == "cast":
            return self.ivs(c, d[3], seen)
        if d[0] == "gep":
            out = self.ivs(c, d[3], seen)
            for x in d[4]:
                out |= self.ivs(c, x, seen)
            return out
        if d[0] == "load":
            return self.ivs(c, d[3], seen)
        return out

    def compared(self, k):
        """strides of operand k that some reachable comparison tests for equality"""
        out = set()
        for c in self.ctxs:
            for b in c.rpo:
                if b in c.live:
                    for i in c.f.blocks[b]:
                        if i[0] == "icmp":
                            for v in (i[3], i[4]):
                                d = self.wordload(c, v)
                                ws = self.words(c, d, b) if d else None
                                out |= {w[2] for w in ws or () if w[0] == "stride" and w[1] == k}
        return out

    def step(self, c, v, u, m):
        """+1/-1 when u reduces a running index that the same loop divides by the same size, counting v up/down, and starts at the
        position of the output element; 0 otherwise"""
        t = self.strip(c, u[3])
        d = c.defs.get(t) if isinstance(t, str) else None
        if d is None or d[0] != "phi":
            return 0
        if not any(c.defs.get(self.strip(c, x), ("",))[0] == "udiv" and
                   self.strip(c, c.defs[self.strip(c, x)][3]) == t and
                   self.wordload(c, c.defs[self.strip(c, x)][4]) == m for x, _p in d[3] if isinstance(x, str)):
            return 0
        t0 = {self.strip(c, x) for x, _p in d[3] if isinstance(x, str)} - {self.strip(c, t)}
        if not any(i[0] == "gep" and len(i[4]) == 1 and self.strip(c, i[4][0]) in t0 and
                   any(r[0][0] == "P" and self.bufs.get(r[0][1]) == "out" for r in c.roots(i[1]))
                   for b in c.rpo if b in c.live for i in c.f.blocks[b]):
            return 0
        out = set()
        for x, _p in c.defs[v][3]:
            e = c.defs.get(x) if isinstance(x, str) else None
            if e is not None and e[0] in ("add", "sub") and v in (e[3], e[4]):
                k = e[4] if e[3] == v else e[3]
                if isinstance(k, int):
                    k = k - (1 << 64) if k >= 1 << 63 else k - (1 << 32) if 1 << 31 <= k < 1 << 32 else k
                    out.add((1 if k > 0 else -1) * (1 if e[0] == "add" else -1))
        return out.pop() if len(out) == 1 else 0

    def bound(self, c, v):
        """fix a loop counter at each of its values in turn"""
        if v is None:
            yield None
            return
        old = c.phis[v]
        if not isinstance(old, frozenset):
            return
        for val in sorted(old):
            c.phis[v] = frozenset((val,))
            c.memo = {}
            yield val
        c.phis[v] = old
        c.memo = {}

    def cell(self, c, x):
        """the index expression of a value loaded from a local array"""
        d = c.defs.get(x)
        if d is None or d[0] != "load" or not all(r[0][0] in "AH" for r in c.roots(d[3])):
            return None
        g = c.defs.get(d[3]) if isinstance(d[3], str) else None
        return g[4][-1] if g is not None and g[0] == "gep" else None

    def reduced(self, c, x, depth):
        """metadata words of the sizes by which a value was reduced, the loop counters being fixed"""
        x = self.strip(c, x)
        d = c.defs.get(x) if isinstance(x, str) else None
        if d is None or depth > 6 or c.blk[x] not in c.live:
            return set()
        if d[0] in ("urem", "srem"):
            m = self.wordload(c, d[4])
            w = c.slots(m[3], c.blk[x]) if m else None
            return {min(w)} if w is not None and len(w) == 1 and 0 <= min(w) < len(self.meta) else set()
        out = set()
        if d[0] == "phi":
            for y, p in d[3]:
                if (p, c.blk[x]) in c.edges:
                    out |= self.reduced(c, y, depth + 1)
            return out
        e = self.cell(c, x)
        n = c.ival(e, c.blk[x]) if e is not None else None
        if not isinstance(n, frozenset) or len(n) != 1:
            return out
        for b in c.rpo:
            if b not in c.live:
                continue
            for i in c.f.blocks[b]:
                if i[0] == "store" and isinstance(i[4], str) and c.roots(i[4]) & c.roots(d[3]):
                    g = c.defs.get(i[4])
                    if g is None or g[0] != "gep":
                        continue
                    iv = self.ivs(c, g[4][-1])
                    if len(iv) > 1:
                        continue
                    for _val in self.bound(c, min(iv) if iv else None):
                        if c.ival(g[4][-1], b) == n:
                            out |= self.reduced(c, i[3], depth + 1)
        return out

    def pairs(self):
        """(C function, word the index was reduced by, stride word it multiplies, group, loop value, step) for index = rest % size; address += index * stride"""
        out = []
        for c in self.ctxs:
            for b in c.rpo:
                if b not in c.live:
                    continue
                for i in c.f.blocks[b]:
                    if i[0] != "mul":
                        continue
                    for x, y in ((i[3], i[4]), (i[4], i[3])):
                        s = self.wordload(c, y)
                        if s is None:
                            continue
                        x = self.strip(c, x)
                        u = c.defs.get(x) if isinstance(x, str) else None
                        if u is None or c.blk[x] not in c.live:
                            continue
                        m = None
                        if u[0] in ("urem", "srem"):
                            m = self.wordload(c, u[4])
                            more = m and m[3]
                        else:
                            more = self.cell(c, x)
                        if more is None:
                            continue
                        iv = self.ivs(c, s[3]) | self.ivs(c, more)
                        if len(iv) > 1:
                            continue
                        v = min(iv) if iv else None
                        for val in self.bound(c, v):
                            ws, wms = c.slots(s[3], b), self.reduced(c, x, 0)
                            if ws is not None and len(ws) == 1 and 0 <= min(ws) < len(self.meta):
                                for wm in wms:
                                    out.append((c.f.name, self.meta[wm], self.meta[min(ws)], (c.cid, i[1]), val,
                                                self.step(c, v, u, m) if v and m else 0))
        return out

    def metareads(self):
        out = []
        for c in self.ctxs:
            for b in c.rpo:
                if b not in c.live:
                    continue
                for i in c.f.blocks[b]:
                    if i[0] == "load" and any(r[0][0] == "M" for r in c.roots(i[3])):
                        out.append((c.f.name, c.slots(i[3], b)))
        return out
