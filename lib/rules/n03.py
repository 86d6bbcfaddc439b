"""N03: no library function is bound to recurse for ever.

A function must-calls another when every path from its entry to a return passes a call of it (calls through traits count when the
implementation is known). A cycle of must-calls can never return. Checked over every function of the workspace, derive output included."""
from rules.common import *


def must(f, p):
    """functions called on every path to a return"""
    live = set(f.rpo())
    if not any(f.blocks[b][1]["t"] == "return" for b in live):
        return set()
    by = {}
    for b in live:
        t = f.blocks[b][1]
        if t["t"] == "call":
            x = p.targets(t)
            if len(x) == 1:
                by.setdefault(x[0], set()).add(b)
    out = set()
    for g, bs in by.items():
        seen, st = set(), [0]
        while st:
            b = st.pop()
            if b in seen or b in bs:
                continue
            seen.add(b)
            st += f.succs(b)
        if not any(f.blocks[b][1]["t"] == "return" for b in seen):
            out.add(g)
    return out


def check(rep):
    p = program()
    g = {}
    nc = 0
    for path, f in p.fns.items():
        g[path] = must(f, p)
        nc += len(g[path])
    # cycles of the must-call graph
    idx, low, st, on, n, comps = {}, {}, [], set(), 0, []

    def walk(v0):
        nonlocal n
        work = [(v0, iter(sorted(g[v0])))]
        idx[v0] = low[v0] = n
        n += 1
        st.append(v0)
        on.add(v0)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in g:
                    continue
                if w not in idx:
                    idx[w] = low[w] = n
                    n += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(sorted(g[w]))))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    u = work[-1][0]
                    low[u] = min(low[u], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    comps.append(c)
    for v in g:
        if v not in idx:
            walk(v)
    for c in comps:
        bad = len(c) > 1 or c[0] in g[c[0]]
        k = min(c)
        rep.ob("returns", k, not bad, "every path through %s calls %s again: it never returns" %
               (k, "itself" if len(c) == 1 else " and ".join(sorted(c)[1:])), p.fns[k].loc)
    # the derives forward to the type's own methods: each trait method of a derived impl must call something other than itself
    rep.floor("anchor", "functions examined", len(g), 3500)
    rep.floor("anchor", "unconditional calls found", nc, 2000)
    fw = [q for t in ("hodu_nn::module::Module::forward", "hodu_nn::module::Module::parameters", "hodu_nn::optimizer::Optimizer::step",
                      "hodu_datasets::data::dataset::Dataset::get", "hodu_datasets::data::dataset::Dataset::len")
          for q in p.trait_impls[t]]
    rep.floor("anchor", "module, optimizer and dataset methods among them", len([q for q in fw if q in g]), 90)
