"""N07: the derives of the library work in a user's crate: two programs (one that depends on hodu alone, one on its parts) compile
against the tree, and every method the derives generate for the user's types forwards to the method the user wrote."""
import os
import re
import extract, mir
from rules.common import *
from absint import UNIT

WANT = [("UserModule", "module::Module", ("forward", "parameters")), ("UserLoss", "module::Module", ("forward", "parameters")),
        ("UserOptimizer", "optimizer::Optimizer", ("step",)), ("UserDataset", "dataset::Dataset", ("len", "get")),
        ("UserTriple", "module::Module", ("forward", "parameters")), ("UserGenericOptimizer", "optimizer::Optimizer", ("step",)),
        ("UserGenericDataset", "dataset::Dataset", ("len", "get"))]


def bare(path):
    """a path without its generic arguments"""
    o = None
    while o != path:
        o, path = path, re.sub(r"(::)?<[^<>]*>", "", path) if not path.startswith("<") else path
    return path


def check(rep):
    d = extract.extract()
    n = 0
    for name in ("parts", "umbrella", "dev"):
        w = "witness_" + name
        fp, ep = (os.path.join(d, w + x) for x in (".jsonl", ".err"))
        rep.ob("anchor", "program " + name, os.path.exists(fp) or os.path.exists(ep), "no witness " + name, "")
        if not os.path.exists(fp):
            err = open(ep).read() if os.path.exists(ep) else ""
            rep.ob("compiles", name, False, "a user's program that derives Module, Optimizer and Dataset and calls train!() and eval!() "
                   "does not compile: " + " / ".join(dict.fromkeys(l for l in err.splitlines() if l.startswith("error")))[:400],
                   "/verif/witness/%s/lib.rs" % name)
            continue
        rep.ob("compiles", name, True, "", "")
        p = mir.Program([w])
        for ty, tr, meths in WANT:
            for m in meths:
                fs = [f for k, f in p.fns.items() if f.name == m and (" as hodu_" in f.path) and re.match(r"<%s::%s\b.* as hodu_" % (w, ty), f.path)
                      and tr in f.path]
                rep.ob("anchor", "%s %s::%s" % (name, ty, m), len(fs) == 1, "no derived %s for %s" % (m, ty), "")
                for f in fs:
                    n += 1
                    me = "%s::%s::%s" % (w, ty, m)
                    calls = [mir.callee(t)[1] or mir.callee(t)[0] for b, t, c in f.calls() if not c]
                    on = must_call(f, lambda t: bare(mir.callee(t)[1] or mir.callee(t)[0]) == me)
                    rep.ob("forwards", "%s::%s" % (ty, m), on,
                           "the derived %s of %s calls %s; %s is not called on every path" %
                           (m, ty, ", ".join(calls) or "nothing", me), "hodu_nn_macros / hodu_datasets_macros, used in %s" % f.loc)
                    got = []

                    class R(Rule):
                        concrete = True

                        def on_call(self, ai, st, fr, bi, t, dd, r, args):
                            if bare(r or dd or "") == me:
                                got.append(tuple(ai.deep(st, a) for a in args))
                                return [(st, ("sym", "answer"))]
                            return [(st, UNIT)] if (dd or "").startswith("hodu_core::") else None
                    env = {("self", 0): ("sym", "self")}
                    given = (("ref", ("self", 0), ()),) + tuple(("sym", "a%d" % i) for i in range(1, f.argc))
                    outs, _ = AI(p, R(), 20000).analyse(strip_gen(f.path), given, frozenset(), env)
                    rep.ob("answer", "%s::%s" % (ty, m), bool(outs) and all(v == ("sym", "answer") for v, s in outs) and
                           set(got) == {tuple([("sym", "self")] + [("sym", "a%d" % i) for i in range(1, f.argc)])},
                           "the derived %s of %s does not return what the user's method returns for the same arguments" % (m, ty), f.loc)
    rep.floor("anchor", "derived methods checked", n, 36)


def must_call(f, pred):
    """does every path from entry to return pass such a call?"""
    seen, st = set(), [0]
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        t = f.blocks[b][1]
        if t["t"] == "call" and pred(t):
            continue
        if t["t"] == "return":
            return False
        st += [x for x in f.succs(b) if len(f.blocks[x]) < 3]
    return True
