"""P01: a plugin call ends only with the reply to its own request, and a server answers each request once, under its own id.

Client: the function that writes a Request and then receives lines is followed on every path of up to three received lines, each of
which may fail to come, fail to parse, be a notification, a reply to this request or a reply to another.  Server: the function that
turns a line into a Response, and the loop that writes them, likewise."""
import re
from rules.common import *
from absint import C, UNIT, TOP, is_c, leaves

CR = ("hodu_plugin", "hodu_plugin_runtime", "hodu_plugin_sdk")
OPT, RES = "core::option::Option", "core::result::Result"
RPC = "hodu_plugin::rpc::"
NONE = ("adt", OPT, "None", ())
LINES = 3


def some(v):
    return ("adt", OPT, "Some", (v,))


def ok(v):
    return ("adt", RES, "Ok", (v,))


def err(v):
    return ("adt", RES, "Err", (v,))


def has(v, x):
    return any(l == x for l in subs(v))


def subs(v, seen=None):
    """every value inside a value"""
    seen = set() if seen is None else seen
    if not isinstance(v, tuple) or id(v) in seen:
        return
    seen.add(id(v))
    if v and isinstance(v[0], str):
        yield v
    for x in v:
        if isinstance(x, tuple):
            yield from subs(x, seen)


class Rpc(Rule):
    unwind = False
    concrete = True
    max_depth = 10

    def __init__(self, p, stop=()):
        self.p, self.stop = p, stop

    def enter(self, path, fn, depth, args=()):
        return path.startswith(("hodu_plugin", "<hodu_plugin")) and path not in self.stop and "fmt::" not in path and \
            not (fn.d.get("name") or "").startswith("deserialize") and "_serde::" not in path

    # ------------------------------------------------------------ facts
    def ev(self, ai, st, *e):
        s = st.copy()
        n = sum(1 for x in s.facts if x[0] == "e")
        s.facts = s.facts | {("e", n) + e}
        return s

    def evs(self, st):
        return [x[2:] for x in sorted((x for x in st.facts if x[0] == "e"), key=lambda x: x[1])]

    def known(self, st, k):
        for x in st.facts:
            if x[0] == "k" and x[1] == k:
                return x[2]
        return None

    def learn(self, st, k, v):
        s = st.copy()
        s.facts = frozenset(x for x in s.facts if not (x[0] == "k" and x[1] == k)) | {("k", k, v)}
        return s

    def fork(self, st, k, outs):
        """[(state, value)] over the possible answers to question k; the same answer when asked again"""
        a = self.known(st, k)
        return [(self.learn(st, k, n), v) for n, v in outs if a in (None, n)]

    def field(self, v):
        """name of the atomic behind a value"""
        for x in subs(v):
            if x[0] == "atom":
                return x[1]
        return None

    def struct(self, ty, tag, ln):
        d = self.p.adt(ty)["variants"][0]
        return ("adt", ty, d["n"], tuple(("rf", tag, ln, f[0]) for f in d["f"]))

    # ------------------------------------------------------------ calls
    def on_call(self, ai, st, fr, bi, t, d, r, args):
        m = r or d or ""
        n = m.rsplit("::", 1)[-1]
        ga = [strip_gen(x) if "serde" in x else x for x in t["f"].get("a") or ()]
        if "sync::atomic::Atomic" in (d or ""):
            f = self.field(ai.deep(st, args[0])) or "?"
            cell = self.known(st, ("cell", f))
            if n == "load":
                return [(st, cell if cell is not None else ("ld", f))]
            if n == "store":
                v = ai.deep(st, args[1])
                return [(self.ev(ai, self.learn(st, ("cell", f), v), "store", f, v), UNIT)]
            if n == "swap":
                v = ai.deep(st, args[1])
                return [(self.ev(ai, self.learn(st, ("cell", f), v), "store", f, v), cell or ("ld", f))]
            if n == "fetch_add":
                k = sum(1 for e in self.evs(st) if e[0] == "draw")
                v = ai.deep(st, args[1])
                return [(self.ev(ai, st, "draw", f, v), ("drawn", f, k))]
            if n.startswith("compare_exchange"):
                old, new = ai.deep(st, args[1]), ai.deep(st, args[2])
                if cell is not None and cell != old and not (is_c(cell) and is_c(old)):
                    return [(st, err(cell))]
                return [(self.ev(ai, self.learn(st, ("cell", f), new), "store", f, new), ok(old))]
            return [(st, ("app", n, tuple(args)))]
        if n in ("recv_timeout", "recv", "try_recv") and "mpsc" in m:
            ln = sum(1 for e in self.evs(st) if e[0] == "recv")
            to = self.p.vs(RTE)
            outs = [(self.ev(ai, st, "fail"), err(("adt", RTE, x, ()))) for x in to]
            outs.append((self.ev(ai, st, "fail"), ok(err(("sym", "io error")))))
            if ln < LINES:
                outs.append((self.ev(ai, st, "recv", ln), ok(ok(("line", ln)))))
            return outs
        if n == "lock" and "Mutex" in m:
            return [(st.copy(), ok(("sym", "guard"))), (st.copy(), err(("sym", "poison")))]
        if n == "is_empty" and args:
            v = ai.deep(st, args[0])
            if v[0] == "line":
                return self.fork(st, ("empty", v[1]), [(True, C(True)), (False, C(False))])
        if n in ("from_str", "from_slice", "from_value", "from_reader") and "serde_json" in m:
            v = ai.deep(st, args[0])
            ty = ga[-1] if ga else "?"
            ty = next((g for g in reversed(ga) if g.startswith("hodu_plugin") or "Value" in g or len(g) <= 2), ty)
            src = v[1] if v[0] in ("line", "val") else None
            if src is not None and ty in self.p.adts:
                good = self.struct(ty, ty.rsplit("::", 1)[1], src)
            elif src is not None and "Value" in ty:
                good = ("val", src)
            else:
                good = ("decoded", ty, v)
            return self.fork(st, ("parse", ty, v), [(True, ok(good)), (False, err(("sym", "parse error")))])
        if n in ("get", "index", "pointer") and "serde_json" in m and len(args) == 2:
            v, k = ai.deep(st, args[0]), ai.deep(st, args[1])
            if v[0] == "val" and is_c(k):
                name = str(k[1]).lstrip("/")
                inner = ("ref", ("obj", ("vf", v[1], name)), ())
                if n == "index":
                    return [(st, inner)]
                return self.fork(st, ("has", v[1], name), [(True, some(inner)), (False, NONE)])
        if n == "clone" and len(args) == 1:
            return [(st, ai.deep(st, args[0]))]
        if n in ("eq", "ne") and len(args) == 2:
            a, b = ai.deep(st, args[0]), ai.deep(st, args[1])
            sides = {self.ident(a), self.ident(b)}
            if any(s and s[0] == "reply" for s in sides) and any(s and s[0] == "own" for s in sides):
                ln = next(s[1] for s in sides if s[0] == "reply")
                own = next(s[1] for s in sides if s[0] == "own")
                return self.fork(st, ("same", ln, own), [(True, C(n == "eq")), (False, C(n == "ne"))])
        if n in ("to_string", "to_value", "to_vec", "to_writer") and "serde_json" in m:
            v = ai.deep(st, args[-1])
            s = self.ev(ai, st, "json", v)
            return [(s, ok(("json", v))), (self.ev(ai, st, "fail"), err(("sym", "serialize error")))]
        if n in ("write_fmt", "write_all", "write") and len(args) == 2 and "fmt::" not in (d or ""):
            v = ai.deep(st, args[1])
            return [(self.ev(ai, st, "write", v), ok(UNIT)), (self.ev(ai, st, "fail"), err(("sym", "io error")))]
        if n == "flush" and "io" in m:
            return [(self.ev(ai, st, "flush"), ok(UNIT)), (self.ev(ai, st, "fail"), err(("sym", "io error")))]
        if n == "exit" and "process" in m:
            return []
        if m in self.stop:
            return self.opaque(ai, st, fr, bi, t, m, args)
        return self.more(ai, st, fr, bi, t, d, r, args, m, n)

    def on_drop(self, ai, st, fr, bi, t, val):
        """a value whose type has a Drop of this crate: that runs"""
        own = "<%s as " % val[1] if val[0] == "adt" else None
        out = [st]
        for x in t.get("impls") or ():
            f = self.p.fns.get(strip_gen(x))
            if f is None or not own or not f.path.startswith(own):
                continue
            root, pr = ai.resolve(st, fr, t["p"])
            out = [s for o in out for s, v in ai.activate(o, fr, bi, f, [("ref", root, pr)])[0]]
        return out

    def ident(self, v):
        """('own', id) for an id of this side, ('reply', line) for the id in a received line"""
        ids = [x for x in subs(v) if x[0] in ("drawn", "rf", "vf")]
        if len(ids) == 1 and ids[0][0] == "drawn":
            return ("own", ids[0])
        if ids and ids[0][0] == "rf" and ids[0][3] == "id":
            return ("reply", ids[0][2])
        if ids and ids[0][0] == "vf" and ids[0][2] == "id":
            return ("reply", ids[0][1])
        return None

    def opaque(self, ai, st, fr, bi, t, m, args):
        return [(st, UNIT)]

    def more(self, ai, st, fr, bi, t, d, r, args, m, n):
        return None


RTE = "std::sync::mpsc::RecvTimeoutError"


def selfval(p, f, i=1):
    """value for a struct argument: its atomics are named, everything else is unknown"""
    ty = strip_gen(f.locals[i][0]).lstrip("&").replace("mut ", "").strip()
    a = p.adt(ty)["variants"][0]
    return ("adt", ty, a["n"], tuple(("atom", n) if "Atomic" in t else ("own", n) for n, t, *_ in a["f"]))


def kind(ai, s, v):
    v = ai.deep(s, v)
    return v, v[2] if v[0] == "adt" else None


def client(rep, p):
    reach = {}
    cg = p.callgraph()
    cands = []
    for k, f in p.fns.items():
        if not k.startswith("hodu_plugin_runtime") or "{closure" in k:
            continue
        names = {(t["f"].get("r") or t["f"].get("d") or "") for b, t, c in f.calls()}
        if any("mpsc" in x and x.rsplit("::", 1)[-1] in ("recv_timeout", "recv") for x in names):
            cands.append(f)
    rep.floor("anchor", "functions that wait for replies", len(cands), 1)
    callers = {}
    for k, f in p.fns.items():
        for b, t, c in f.calls():
            for x in p.targets(t):
                callers.setdefault(x, set()).add(k)
    # the whole call: the innermost functions around the wait that also draw an id and write
    def does(k, seen):
        out = set()
        if k in seen or k not in p.fns:
            return out
        seen.add(k)
        for b, t, c in p.fns[k].calls():
            d = t["f"].get("r") or t["f"].get("d") or ""
            n = d.rsplit("::", 1)[-1]
            if "sync::atomic" in d and n in ("fetch_add", "fetch_sub", "swap", "compare_exchange", "fetch_update"):
                out.add("draw")
            if n in ("write_fmt", "write_all"):
                out.add("write")
            for x in p.targets(t):
                if x.startswith("hodu_plugin_runtime"):
                    out |= does(x, seen)
        return out
    roots, todo, seen = [], [f.path for f in cands], set()
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        if does(k, set()) >= {"draw", "write"}:
            roots.append(p.fns[k])
        else:
            todo += [x for x in callers.get(k, ()) if x in p.fns]
    rep.floor("anchor", "functions that send a request and wait", len(roots), 1)
    paths = 0
    cancel_cell = cancel(rep, p)
    for f in roots:
        for e in explore_call(rep, p, f, cancel_cell):
            paths += e
    others(rep, p, roots)
    rep.count("paths of a call", paths)
    rep.floor("anchor", "paths of a call", paths, 20)
    return roots


def others(rep, p, roots):
    """requests written outside of calls: under an id drawn for them"""
    cg = p.callgraph()
    under, todo = set(), [f.path for f in roots]
    while todo:
        k = todo.pop()
        if k not in under:
            under.add(k)
            todo += list(cg.get(k, ()))
    n = 0
    for k, f in sorted(p.fns.items()):
        if not k.startswith("hodu_plugin_runtime") or "{closure" in k or k in under or f.argc != 1 or f.locals[1][0][0] != "&":
            continue
        if not any((t["f"].get("d") or "").rsplit("::", 1)[-1] in ("write_fmt", "write_all") for b, t, c in f.calls()):
            continue
        try:
            sv = selfval(p, f)
        except Exception:
            continue
        ru = Rpc(p)
        ai = AI(p, ru, 100000)
        rets, _ = ai.analyse(k, [("ref", ("obj", sv), ())])
        bad = None
        sent = 0
        for v, s in rets:
            seen = set()
            for e in ru.evs(s):
                if e[0] == "write":
                    for x in subs(e[1]):
                        if x[0] == "adt" and x[1] == RPC + "Request":
                            sent += 1
                            fi = [q[0] for q in p.adt(RPC + "Request")["variants"][0]["f"]].index("id")
                            ids = {y for y in subs(x[3][fi]) if y[0] == "drawn"}
                            if len(ids) != 1 or ids & seen:
                                bad = "a request is written whose id was not drawn from the counter for it"
                            seen |= ids
        if sent:
            n += 1
            rep.ob("fresh", k, bad is None, "%s: %s" % (k, bad), f.loc)
    rep.floor("anchor", "requests written outside of calls", n, 1)


def explore_call(rep, p, f, cell):
    ru = Rpc(p, {k for k in p.fns if k.endswith("handle_notification")})
    ai = AI(p, ru, 600000)
    sv = selfval(p, f)
    args = [("ref", ("obj", sv), ())] + [("arg", i) for i in range(2, f.argc + 1)]
    rets, _ = ai.analyse(f.path, args)
    w = f.loc
    bad = {}
    n = skipped = 0
    for v, s in rets:
        n += 1
        v, kd = kind(ai, s, v)
        evs = ru.evs(s)
        writes = [(i, e) for i, e in enumerate(evs) if e[0] == "write"]
        reqs = [(i, x) for i, e in writes for x in subs(e[1]) if x[0] == "adt" and x[1] == RPC + "Request"]
        draws = [e for e in evs if e[0] == "draw"]
        same = sames(ru, s)
        last = max([e[1] for e in evs if e[0] == "recv"], default=None)
        if any(not (is_c(e[2]) and e[2][1] > 0) for e in draws):
            bad.setdefault("fresh", "the next id is not advanced by a positive number")
        own = None
        for i, x in reqs:
            ids = [y for y in subs(x[3][-1]) if y[0] == "drawn"]
            fi = [q[0] for q in p.adt(RPC + "Request")["variants"][0]["f"]].index("id")
            ids = [y for y in subs(x[3][fi]) if y[0] == "drawn"]
            if len(ids) != 1:
                bad.setdefault("fresh", "a request is written whose id was not drawn from the counter for it")
                continue
            own = ids[0]
            at = [e for e in evs[:i] if e[0] == "store"]
            cur = {e[1]: e[2] for e in at}
            if cell and cur.get(cell) != own:
                bad.setdefault("raised", "the request is written before its id is where cancellation looks for it")
        if len({y for i, x in reqs for y in subs(x) if y[0] == "drawn"}) < len(reqs):
            bad.setdefault("fresh", "two requests are written under one id")
        if cell and kd in ("Ok", "Err"):
            c = ru.known(s, ("cell", cell))
            if c is not None and c != C(0):
                bad.setdefault("lowered", "a call that %s leaves its id where cancellation looks for it" % (
                    "succeeds" if kd == "Ok" else "fails with %s" % why(v)))
        if kd == "Ok":
            src = {x[2] for x in subs(v) if x[0] == "rf"} | {x[1] for x in subs(v) if x[0] in ("vf", "val")}
            if not src and last is not None:
                src = {last}
            if not reqs:
                bad.setdefault("own", "a call succeeds without having written its request")
            if not any(e[0] == "flush" for e in evs[(reqs[-1][0] if reqs else 0):]):
                bad.setdefault("own", "a call succeeds without having flushed its request")
            if len(src) != 1 or not all(same.get(l) is True for l in src):
                bad.setdefault("own", "a call succeeds with a reply whose id was not found equal to its request's")
            for l in src:
                if errstate(ai, s, l) is not False:
                    bad.setdefault("error", "a call succeeds although the reply may carry an error")
        if kd == "Ok" and any(x is False and l < max(same) for l, x in same.items()):
            skipped += 1
        if kd is not None and last is not None and same.get(last) is False and not any(
                e[0] == "fail" for e in after(evs, last)) and not strange(s, last):
            bad.setdefault("skip", "a reply to another request ends the call (with %s)" % (why(v) if kd == "Err" else "success"))
    if not skipped:
        bad.setdefault("skip", "no reply to an earlier request is passed over")
    for k in ("fresh", "raised", "lowered", "own", "error", "skip"):
        rep.ob(k, f.path, k not in bad, "%s: %s" % (f.path, bad.get(k, "")), w)
    rep.ob("null", f.path, any(kind(ai, s, v)[1] == "Ok" and nullok(ai, s, kind(ai, s, v)[0]) for v, s in rets),
           "%s: a reply whose result is null is taken for no reply" % f.path, w)
    yield n


def sames(ru, s):
    """which received lines are known to be, or not to be, replies to the request"""
    out = {x[1][1]: x[2] for x in s.facts if x[0] == "k" and x[1][0] == "same"}
    for k, x in s.asm.items():
        if isinstance(k, tuple) and k[0] == "bin" and k[1] in ("Eq", "Ne") and len(k) == 4 and isinstance(x, (bool, int)):
            ids = [ru.ident(k[2]), ru.ident(k[3])]
            if all(ids) and {i[0] for i in ids} == {"own", "reply"}:
                out[next(i[1] for i in ids if i[0] == "reply")] = bool(x) == (k[1] == "Eq")
        if isinstance(k, tuple) and k[0] == "discr" and k[1][0] == "rf" and k[1][3] == "id" and isinstance(x, int) and x:
            out.setdefault(k[1][2], False)
    return out


def strange(s, ln):
    """the reply's id is known not to be one this side has used: no earlier id satisfies what the path knows of it"""
    rid = ("rf", "Response", ln, "id")
    x = s.asm.get(("discr", rid))
    if x is not None and (0 in x if isinstance(x, frozenset) else x != 0):
        return True

    def num(v):
        if is_c(v) and isinstance(v[1], int):
            return v[1]
        if v[0] in ("ld", "drawn"):
            return 10
        if rid in tuple(subs(v)):
            return 5
        return None
    for k, x in s.asm.items():
        if isinstance(k, tuple) and k[0] == "bin" and len(k) == 4 and k[1] in CMP and rid in tuple(subs(k)):
            a, b = num(k[2]), num(k[3])
            if a is not None and b is not None and CMP[k[1]](a, b) != bool(x):
                return True
    return False


CMP = {"Lt": lambda a, b: a < b, "Le": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "Ge": lambda a, b: a >= b,
       "Eq": lambda a, b: a == b, "Ne": lambda a, b: a != b}


def nullok(ai, s, v):
    """the call succeeded where the reply's result was present but null"""
    return any(x[0] == "adt" and x[1].endswith("Value") and x[2] == "Null" for x in subs(v)) or \
        any(x[0] == "vf" and x[2] == "result" for x in subs(v))


def after(evs, ln):
    out = []
    on = False
    for e in evs:
        if e[0] == "recv" and e[1] == ln:
            on = True
        elif on:
            out.append(e)
    return out


def why(v):
    return v[3][0][2] if v[0] == "adt" and v[3] and v[3][0][0] == "adt" else "an error"


def errstate(ai, s, l):
    """True / False when the reply's error field is known to be there / missing"""
    x = s.asm.get(("discr", ("rf", "Response", l, "error")))
    if isinstance(x, frozenset):
        return False if 1 in x else True if 0 in x else None
    return None if x is None else x != 0


def cancel(rep, p):
    """the cell whose value a cancel message names"""
    cells = set()
    for k, f in sorted(p.fns.items()):
        if not k.startswith("hodu_plugin_runtime") or "{closure" in k:
            continue
        if not any(CANCEL in str(b) for b in f.blocks):
            continue
        ru = Rpc(p)
        ai = AI(p, ru, 100000)
        rets, _ = ai.analyse(k, [("ref", ("obj", selfval(p, f)), ())] + [("arg", i) for i in range(2, f.argc + 1)])
        bad = None
        nw = 0
        for v, s in rets:
            for e in ru.evs(s):
                if e[0] == "write":
                    nw += 1
                    c = [x for x in subs(e[1]) if x[0] == "adt" and x[1] == RPC + "CancelParams"]
                    ids = [y for x in c for y in subs(x) if y[0] == "ld"]
                    own = [y for x in subs(e[1]) if x[0] == "adt" and x[1] == RPC + "Request" for y in subs(x[3][-1])
                           if y[0] == "drawn"]
                    if len({y[1] for y in ids}) != 1 or not own:
                        bad = "the cancel message does not name the request in progress under an id of its own"
                    else:
                        cells.add(ids[0][1])
                    z = [x for x in s.asm.items() if ids and ids[0] in tuple(subs(x[0] if isinstance(x[0], tuple) else ()))]
                    if not z:
                        bad = "a cancel message is written without knowing that a request is in progress"
        rep.ob("cancel", k, bad is None and nw > 0, "%s: %s" % (k, bad or "no cancel message is written"), f.loc)
    rep.floor("anchor", "cells naming the request in progress", len(cells), 1)
    return min(cells) if cells else None


CANCEL = RPC + "CancelParams"


# ---------------------------------------------------------------- server
class Srv(Rpc):
    def opaque(self, ai, st, fr, bi, t, m, args):
        k = sum(1 for e in self.evs(st) if e[0] == "answer")
        resp = ("answer", k)
        s = self.ev(ai, st, "answer", k)
        s2 = self.ev(ai, st, "silence")
        return [(s, some(resp)), (s2, NONE)]

    def more(self, ai, st, fr, bi, t, d, r, args, m, n):
        if n == "next" and args and ("Lines" in m or "Lines" in str(t["f"].get("a"))):
            k = sum(1 for e in self.evs(st) if e[0] == "recv")
            out = [(self.ev(ai, st, "end"), NONE)]
            if k < LINES:
                out.append((self.ev(ai, st, "recv", k), some(ok(("line", k)))))
                out.append((self.ev(ai, st, "fail"), some(err(("sym", "io error")))))
            return out
        if n == "read_line":
            return None
        if n in ("call", "call_mut", "call_once") and "dyn" in str(t["f"].get("a")):
            k = sum(1 for e in self.evs(st) if e[0] == "handled")
            s = self.ev(ai, st, "handled", k, ai.deep(st, args[-1]))
            return [(self.learn(s, ("done", k), True), ok(("handled", k))), (self.learn(s, ("done", k), False), err(("refused", k)))]
        return None


def server(rep, p):
    made = []
    for k, f in sorted(p.fns.items()):
        if not k.startswith("hodu_plugin_sdk") or "{closure" in k:
            continue
        ret = strip_gen(f.locals[0][0])
        if "Response" in ret and any("serde_json" in (t["f"].get("r") or t["f"].get("d") or "") for b, t, c in f.calls()):
            made.append(f)
    rep.floor("anchor", "functions that answer a line", len(made), 1)
    for f in made:
        ru = Srv(p)
        ai = AI(p, ru, 300000)
        rets, _ = ai.analyse(f.path, [("ref", ("obj", ("sym", "server")), ()), ("line", 0)])
        bad = {}
        n = good = 0
        for v, s in rets:
            n += 1
            v = ai.deep(s, v)
            while v[0] == "adt" and v[1] in (OPT, RES) and v[3]:
                v = v[3][0]
            parsed = any(x[0] == "k" and x[1][0] == "parse" and x[1][1].endswith("Request") and x[2] for x in s.facts)
            if v[0] != "adt" or v[1] != RPC + "Response":
                if parsed:
                    bad.setdefault("answered", "a request can be left without an answer")
                continue
            fs = dict(zip([x[0] for x in p.adt(v[1])["variants"][0]["f"]], v[3]))
            if parsed and fs["id"] != ("rf", "Request", 0, "id"):
                bad.setdefault("id", "a request is answered under another id than its own")
            done = [(x[1][1], x[2]) for x in s.facts if x[0] == "k" and x[1][0] == "done"]
            if len(done) > 1:
                bad.setdefault("once", "a request is handled twice")
            for k, okd in done:
                good += 1
                if okd and not (has(fs["result"], ("handled", k)) and fs["error"] == NONE):
                    bad.setdefault("result", "the answer to a request that succeeded is not its result")
                if not okd and not (has(fs["error"], ("refused", k)) and fs["result"] == NONE):
                    bad.setdefault("result", "the answer to a request that failed is not its error")
            if fs["error"] == NONE and fs["result"] == NONE:
                bad.setdefault("result", "an answer carries neither a result nor an error")
        for k in ("answered", "id", "once", "result"):
            rep.ob("server", f.path + " " + k, k not in bad, "%s: %s" % (f.path, bad.get(k, "")), f.loc)
        rep.floor("anchor", "paths that answer a request", good, 2)
    names = {f.path for f in made}
    loops = [f for k, f in sorted(p.fns.items()) if k.startswith("hodu_plugin_sdk") and "{closure" not in k and
             any(names & set(p.targets(t)) for b, t, c in f.calls())]
    rep.floor("anchor", "loops that write answers", len(loops), 1)
    for f in loops:
        ru = Srv(p, names)
        ai = AI(p, ru, 300000)
        rets, _ = ai.analyse(f.path, [("sym", "server")] * f.argc)
        bad = None
        n = 0
        for v, s in rets:
            evs = ru.evs(s)
            if any(e[0] == "fail" for e in evs):
                evs = evs[:next(i for i, e in enumerate(evs) if e[0] == "fail")]
            elif not any(e[0] == "end" for e in evs):
                bad = bad or "it stops before its input ends"
            n += 1
            open_ = None
            cut = any(e[0] == "fail" for e in ru.evs(s))
            for e in evs:
                if e[0] == "answer":
                    open_ = (e[1], 0)
                elif e[0] == "write":
                    ks = {x[1] for x in subs(e[1]) if x[0] == "answer"}
                    if open_ is None or ks != {open_[0]}:
                        bad = bad or "it writes an answer that is not the last one made, or writes it twice"
                    open_ = open_ and (open_[0], 1)
                elif e[0] == "flush" and open_ and open_[1]:
                    open_ = None
                elif e[0] in ("recv", "end") and open_:
                    bad = bad or "it goes on to the next request before the answer is written and flushed"
        rep.ob("server", f.path + " loop", bad is None and n > 0, "%s: %s" % (f.path, bad), f.loc)


def check(rep):
    p = program(*CR)
    p.vs = lambda a: [v["n"] for v in p.adt(a)["variants"]] if a in p.adts else ["Timeout", "Disconnected"]
    client(rep, p)
    server(rep, p)
