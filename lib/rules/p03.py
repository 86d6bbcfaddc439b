"""P03: a process that was started is handed on, or ended and reaped, on every path.

Every function that starts a child process, or takes a value holding one out of a map, is followed on each of its paths, with the
functions it calls in its crate: at its end the child is inside what it returns, inside what it stored, or has been waited for; and
it is waited for only after it was killed or told to stop.  A type that keeps children ends them all when it is dropped."""
import re
from rules.common import *
from rules.p01 import Rpc, subs, some, ok, err, NONE, OPT, RES
from absint import C, UNIT, TOP, is_c

CR = ("hodu_plugin", "hodu_plugin_runtime", "hodu_plugin_sdk", "hodu_cli")
CHILD = "std::process::Child"


def holders(p):
    """structs that hold a child, directly or inside"""
    out = set()
    while True:
        new = {a for a, d in p.adts.items() if a not in out and a.startswith("hodu_") and any(
            CHILD == re.sub(r"<.*", "", ty) or any(h in re.split(r"[<>, ]+", ty) for h in out)
            for v in d["variants"] for n, ty, *_ in v["f"])}
        if not new:
            return out
        out |= new


class Proc(Rpc):
    def __init__(self, p, hold):
        Rpc.__init__(self, p)
        self.hold = hold

    def enter(self, path, fn, depth, args=()):
        """functions of the crates that see a child"""
        if not path.startswith(("hodu_plugin", "hodu_cli", "<hodu_plugin", "<hodu_cli")):
            return False
        return any(CHILD in strip_gen(fn.locals[i][0]) or any(h in fn.locals[i][0] for h in self.hold) for i in range(fn.argc + 1)) \
            or any("std::process::Command::spawn" in (t["f"].get("r") or t["f"].get("d") or "") for b, t, c in fn.calls())

    def holder(self, ty, k):
        """a value of type ty holding the k-th child"""
        d = self.p.adt(ty)["variants"][0]
        return ("adt", ty, d["n"], tuple(("child", k) if re.sub(r"<.*", "", t) == CHILD else ("own", n) for n, t, *_ in d["f"]))

    def on_call(self, ai, st, fr, bi, t, d, r, args):
        m = r or d or ""
        n = m.rsplit("::", 1)[-1]
        k = sum(1 for e in self.evs(st) if e[0] == "born")
        if n == "spawn" and "process::Command" in m:
            s = self.ev(ai, st, "born", k)
            return [(s, ok(("child", k))), (st.copy(), err(("sym", "spawn error")))]
        if n == "spawn" and "thread" in m:
            return [(st, ("sym", "thread"))]
        if n in ("status", "output") and "process::Command" in m:
            return [(st, ok(("sym", "status"))), (st.copy(), err(("sym", "io error")))]
        if "process::Child" in m and n in ("kill", "wait", "wait_with_output", "try_wait"):
            s = st
            for x in {x for x in subs(ai.deep(st, args[0])) if x[0] == "child"}:
                s = self.ev(ai, s, n.split("_")[0] if n != "try_wait" else "poll", x[1])
                if n == "try_wait":
                    done = self.ev(ai, s, "wait", x[1])
                    return [(done, ok(some(("sym", "status")))), (s, ok(NONE)), (s.copy(), err(("sym", "io error")))]
            return [(s, ok(("sym", "status"))), (self.ev(ai, s, "broken"), err(("sym", "io error")))]
        ty = str(t["f"].get("a") or "")
        h = [x for x in sorted(self.hold) if x in ty]
        if h and "HashMap" in m and n in ("remove", "remove_entry", "take"):
            s = self.ev(ai, st, "born", k)
            return [(s, some(self.holder(h[0], k))), (st.copy(), NONE)]
        if h and "HashMap" in m and n == "insert":
            s = st
            key = ai.deep(st, args[1])
            for x in {x for x in subs(ai.deep(st, args[2])) if x[0] == "child"}:
                s = self.ev(ai, s, "kept", x[1])
            if self.known(st, ("held", self.text(key))) is not False:
                s = self.ev(ai, s, "overwrites")
            return [(s, NONE)]
        if h and "HashMap" in m and n in ("contains_key", "get", "get_mut"):
            key = self.text(ai.deep(st, args[1]))
            yes = C(True) if n == "contains_key" else some(("sym", "running"))
            no = C(False) if n == "contains_key" else NONE
            return self.fork(st, ("held", key), [(True, yes), (False, no)])
        if h and "HashMap" in m and n in ("drain", "into_values", "into_iter", "clear", "retain"):
            return [(self.ev(ai, st, "emptied"), ("sym", "emptied"))]
        if self.stops(m):
            return self.fork(st, ("told", k), [(True, ok(UNIT)), (False, err(("sym", "io error")))])
        f = self.p.fns.get(strip_gen(m))
        if f is not None and not self.enter(strip_gen(m), f, 0) and "core::result::Result<" in f.locals[0][0]:
            c = sum(1 for e in self.evs(st) if e[0] == "tried")
            s = self.ev(ai, st, "tried")
            return [(s, ok(("got", c))), (s.copy(), err(("failed", c)))]
        if n in ("to_string", "to_owned", "clone", "as_str", "into") and args and h == []:
            v = ai.deep(st, args[0])
            if v[0] in ("arg", "own", "rf"):
                return [(st, v)]
        return None

    def text(self, v):
        return v

    def stops(self, m):
        """the client call that tells the other side to end"""
        f = self.p.fns.get(strip_gen(m))
        if f is None:
            return False
        if m not in STOP:
            STOP[m] = m.startswith("hodu_plugin_runtime") and any("shutdown" in str(b) for b in f.blocks) and any(
                (t["f"].get("d") or "").rsplit("::", 1)[-1] in ("write_fmt", "write_all") or "Request" in str(t["f"])
                for b, t, c in f.calls()) and f.argc == 1
        return STOP[m]


STOP = {}


def check(rep):
    p = program(*CR)
    p.vs = lambda a: ["Timeout", "Disconnected"]
    hold = holders(p)
    rep.floor("anchor", "types that hold a child process", len(hold), 1)
    starts, n = 0, 0
    for k, f in sorted(p.fns.items()):
        if not k.startswith(("hodu_plugin", "hodu_cli", "<hodu_plugin", "<hodu_cli")) or "{closure" in k:
            continue
        calls = [(t["f"].get("r") or t["f"].get("d") or "", str(t["f"].get("a") or "")) for b, t, c in f.calls()]
        spawn = any("process::Command::spawn" in m for m, a in calls)
        taken = any("HashMap" in m and m.rsplit("::", 1)[-1] in ("remove", "remove_entry", "insert") and any(h in a for h in hold)
                    for m, a in calls)
        if not spawn and not taken:
            continue
        starts += spawn
        ru = Proc(p, hold)
        ai = AI(p, ru, 200000)
        rets, _ = ai.analyse(k, [("arg", i) for i in range(1, f.argc + 1)])
        bad = {}
        for v, s in rets:
            n += 1
            v = ai.deep(s, v)
            evs = ru.evs(s)
            out = {x[1] for x in subs(v) if x[0] == "child"}
            for i, e in enumerate(evs):
                if e[0] == "born":
                    c = e[1]
                    if c not in out and not any(x[0] in ("kept", "wait") and x[1] == c for x in evs):
                        bad.setdefault("ended", "a process it started is neither handed on nor waited for where it returns %s" % (
                            "an error" if v[0] == "adt" and v[2] == "Err" else "normally"))
                if e[0] == "wait":
                    told = any(x[0] == "k" and x[1][0] == "told" and x[2] for x in s.facts)
                    if not told and not any(x[0] == "kill" and x[1] == e[1] for x in evs[:i]) and \
                            not any(x[0] == "poll" and x[1] == e[1] for x in evs[:i]):
                        bad.setdefault("told", "it waits for a process that was neither killed nor told to stop")
                if e[0] == "overwrites":
                    bad.setdefault("kept", "it may replace a running process in the map of processes")
        rep.ob("ended", k, "ended" not in bad, "%s: %s" % (k, bad.get("ended")), f.loc)
        rep.ob("told", k, "told" not in bad, "%s: %s" % (k, bad.get("told")), f.loc)
        rep.ob("kept", k, "kept" not in bad, "%s: %s" % (k, bad.get("kept")), f.loc)
    rep.count("paths", n)
    rep.floor("anchor", "functions that start a process", starts, 2)
    # keepers
    cg = p.callgraph()
    keep = 0
    for a, d in sorted(p.adts.items()):
        if a not in hold or not any("HashMap<" in t and any(h in t for h in hold) for v in d["variants"] for x, t, *_ in v["f"]):
            continue
        keep += 1
        drop = "<%s as core::ops::drop::Drop>::drop" % a
        seen, todo = set(), [drop] if drop in p.fns else []
        waits = False
        while todo:
            x = todo.pop()
            if x in seen or x not in p.fns:
                continue
            seen.add(x)
            todo += list(cg.get(x, ()))
            waits = waits or any("process::Child::wait" in (t["f"].get("r") or t["f"].get("d") or "") for b, t, c in p.fns[x].calls())
        rep.ob("dropped", a, waits, "dropping a %s does not end the processes it keeps" % a, "")
    rep.floor("anchor", "types that keep processes", keep, 1)
