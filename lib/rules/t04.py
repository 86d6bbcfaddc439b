"""T04: recording of operations is suspended only between a suspension and its end, and the end comes on every way out.

A flag is a static that a function stores its boolean parameter to.  Every function of the library, and the methods the derives
generate for a user's types, is followed along all of its paths: after a call that raises a flag, every path to the return (the
error returns included) lowers it again, by a call or by dropping a guard whose drop lowers it on all of its own paths."""
import extract, mir, os
from rules.common import *

BOOLS = ("core::sync::atomic::AtomicBool", "core::sync::atomic::Atomic<bool>", "core::cell::Cell<bool>")


def statics_of(f):
    """{local: static} of the function's references to statics"""
    out = {}
    for b in f.blocks:
        for s in b[0]:
            if s[0] == "=" and len(s[1]) == 1:
                k = s[2].get("use", {}).get("k") if isinstance(s[2].get("use"), dict) else None
                if k and "static" in k:
                    out[s[1][0]] = k["static"]
                elif "tls" in s[2]:
                    out[s[1][0]] = s[2]["tls"]
    moved = True
    while moved:
        moved = False
        for b in f.blocks:
            for s in b[0]:
                if s[0] == "=" and len(s[1]) == 1 and s[1][0] not in out:
                    src = s[2].get("ref") or next((s[2]["use"].get(x) for x in ("m", "c") if isinstance(s[2].get("use"), dict) and
                                                   s[2]["use"].get(x)), None)
                    if src and src[0] in out:
                        out[s[1][0]] = out[src[0]]
                        moved = True
    return out


def const_bool(f, x):
    k = x.get("k") if isinstance(x, dict) else None
    if k and k.get("ty") == "bool":
        return str(k.get("int")) == "1"
    return None


def param_of(f, x):
    """the parameter an operand copies, if it does"""
    pl = x.get("m") or x.get("c") if isinstance(x, dict) else None
    for _ in range(6):
        if not pl or len(pl) != 1:
            return None
        if 1 <= pl[0] <= f.argc:
            return pl[0]
        srcs = [s[2] for b in f.blocks for s in b[0] if s[0] == "=" and s[1] == pl]
        if len(srcs) != 1 or "use" not in srcs[0]:
            return None
        pl = srcs[0]["use"].get("m") or srcs[0]["use"].get("c")
    return None


def operand_bool(f, x):
    """constant an operand carries, through copies"""
    for _ in range(6):
        v = const_bool(f, x)
        if v is not None:
            return v
        pl = x.get("m") or x.get("c")
        if not pl or len(pl) != 1:
            return None
        srcs = [s[2] for b in f.blocks for s in b[0] if s[0] == "=" and s[1] == pl]
        if len(srcs) != 1 or "use" not in srcs[0]:
            return None
        x = srcs[0]["use"]
    return None


class Flags:
    def __init__(self, p):
        self.p = p
        self.setter = {}
        self.flags = set()
        for k, f in p.fns.items():
            if f.d.get("dk") == "Static":
                continue
            st = None
            for bi, t, c in f.calls():
                n = (t["f"].get("d") or "").rsplit("::", 1)[-1]
                if n in ("store", "set", "swap") and ("atomic" in t["f"]["d"] or "cell" in t["f"]["d"].lower()) and len(t["args"]) > 1:
                    if st is None:
                        st = self.reach(f)
                    pl = t["args"][0].get("m") or t["args"][0].get("c")
                    fl = st.get(pl[0]) if pl else None
                    if fl and self.isbool(fl):
                        pa = param_of(f, t["args"][1])
                        if pa:
                            self.setter[k] = (fl, pa)
                            self.flags.add(fl)

    def isbool(self, st):
        ty = (self.p.statics.get(st) or {}).get("ty", "")
        return any(b in ty for b in BOOLS)

    def reach(self, f):
        return statics_of(f)

    def effect(self, f, t):
        """[(flag, True|False)] of a call"""
        d, r = mir.callee(t)
        k = r or d
        if k in self.setter:
            fl, pa = self.setter[k]
            v = operand_bool(f, t["args"][pa - 1])
            return [(fl, v)] if v is not None else [(fl, None)]
        n = (t["f"].get("d") or "").rsplit("::", 1)[-1]
        if n in ("store", "set", "swap") and len(t["args"]) > 1:
            pl = t["args"][0].get("m") or t["args"][0].get("c")
            fl = self.reach(f).get(pl[0]) if pl else None
            if fl in self.flags or fl and self.isbool(fl):
                return [(fl, operand_bool(f, t["args"][1]))]
        return []


def exits(fl, f, lowers, raises, start=frozenset(), seen_calls=None):
    """flags that may be up at a return of f, with the place where each was raised; seen_calls collects (call, flags up)"""
    seen, st, bad = set(), [(0, start)], {}
    while st:
        b, up = st.pop()
        if (b, up) in seen:
            continue
        seen.add((b, up))
        t = f.blocks[b][1]
        now = dict(up)
        if t["t"] == "call":
            if seen_calls is not None:
                seen_calls.append((b, t, frozenset(now)))
            for g, v in fl.effect(f, t):
                if v is True:
                    now[g] = t.get("loc", "")
                elif v is False:
                    now.pop(g, None)
            d, r = mir.callee(t)
            k = r or d
            for g in raises.get(k, ()):
                now[g] = t.get("loc", "")
            if k == "core::mem::drop":
                for x in t["args"]:
                    pl = x.get("m") or x.get("c")
                    if pl and len(pl) == 1:
                        for ty, gs in lowers.items():
                            if ty == strip_gen(f.locals[pl[0]][0]):
                                for g in gs:
                                    now.pop(g, None)
        elif t["t"] == "drop":
            for ty, gs in lowers.items():
                if ty in strip_gen(t.get("ty", "")):
                    for g in gs:
                        now.pop(g, None)
        elif t["t"] == "return":
            for g, l in now.items():
                bad.setdefault(g, l)
            continue
        for x in f.succs(b):
            if len(f.blocks[x]) < 3:
                st.append((x, frozenset(now.items())))
    return bad


def check(rep):
    crates = ["hodu_core", "hodu_nn", "hodu_datasets"]
    d = extract.extract()
    if os.path.exists(os.path.join(d, "witness_parts.jsonl")):
        crates.append("witness_parts")
    else:
        rep.undecided("user", "the user's program does not compile (see N07)")
    p = program(*crates)
    fl = Flags(p)
    rep.floor("anchor", "flags that suspend recording", len(fl.flags), 2)
    # guards: types whose drop lowers a flag on every path
    lowers = {}
    for k, f in p.fns.items():
        if k.endswith(" as core::ops::drop::Drop>::drop"):
            ty = strip_gen(k[1:].split(" as ", 1)[0])
            for g in fl.flags:
                if g not in exits(fl, f, {}, {}, frozenset({(g, "entry")})):
                    lowers.setdefault(ty, set()).add(g)
    # functions that hand out a guard may return with its flag up
    raises, todo = {}, True
    while todo:
        todo = False
        for k, f in p.fns.items():
            if k in fl.setter:
                continue
            ret = strip_gen(f.locals[0][0])
            for g, l in exits(fl, f, lowers, raises).items():
                if any(ty in ret and g in gs for ty, gs in lowers.items()) and g not in raises.get(k, ()):
                    raises.setdefault(k, set()).add(g)
                    todo = True
    n = 0
    for k, f in sorted(p.fns.items()):
        if k in fl.setter or f.d.get("dk") == "Static":
            continue
        ups = [(g, v) for bi, t, c in f.calls() for g, v in fl.effect(f, t)] + \
              [(g, True) for bi, t, c in f.calls() for g in raises.get(mir.callee(t)[1] or mir.callee(t)[0], ())]
        if not any(v is not False for g, v in ups):
            continue
        n += 1
        up = exits(fl, f, lowers, raises)
        for g in sorted({g for g, v in ups if v is not False}):
            bad = g in up and g not in raises.get(k, ())
            rep.ob("resumes", "%s %s" % (k.replace("witness_parts::", ""), g.rsplit("::", 1)[1]), not bad,
                   "%s raises %s at %s and can return without lowering it" % (k, g, up.get(g, "")), up.get(g, f.loc))
        for g, v in ups:
            if v is None:
                rep.undecided("resumes|%s %s" % (k, g), "the flag is set to a value that is not known here")
    rep.floor("anchor", "functions that raise a flag", n, 4)
    rep.count("guard types", len(lowers))
    # what must not be recorded runs while a flag is up: the derivatives of operations, and the steps of optimizers
    cg = p.callgraph()
    callers = {}
    for a, bs in cg.items():
        for b in bs:
            callers.setdefault(b, set()).add(a)
    raisers = {k for k, f in p.fns.items() if k not in fl.setter and any(
        v is True for bi, t, c in f.calls() for g, v in fl.effect(f, t)) or any(
        raises.get(mir.callee(t)[1] or mir.callee(t)[0]) for bi, t, c in f.calls())}
    vjp = {k for k, f in p.fns.items() if f.name == "compute_vjp" and f.blocks}
    step = {k for k, f in p.fns.items() if f.name == "step" and " as " not in k and f.d.get("dk") == "AssocFn" and
            any(c.endswith("Optimizer>::step") for c in callers.get(k, ()))}
    rep.floor("anchor", "derivative rules", len(vjp), 15)
    rep.floor("anchor", "optimizer steps", len(step), 5)
    for what, inner in (("derivatives", vjp), ("step", step)):
        reach = set(inner)
        todo = list(inner)
        while todo:
            k = todo.pop()
            for c in callers.get(k, ()):
                if c not in reach and c not in raisers:
                    reach.add(c)
                    todo.append(c)
        for k in sorted(reach - inner):
            f = p.fns[k]
            up = not callers.get(k) and f.d.get("pub")
            rep.ob("suspended", "%s %s" % (what, k), not up, "%s runs %s with recording on" % (k, what), f.loc)
        for k in sorted(raisers):
            calls = []
            exits(fl, p.fns[k], lowers, raises, frozenset(), calls)
            for b, t, now in calls:
                tg = set(p.targets(t) + p.callbacks(t))
                if tg & reach:
                    rep.ob("suspended", "%s in %s" % (what, k.replace("witness_parts::", "")), bool(now),
                           "%s reaches %s at %s with recording on" % (k, what, t.get("loc", "")), t.get("loc", ""))
