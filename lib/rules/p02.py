"""P02: the plugin registry is complete at every moment, and names only plugins whose files are there.

Saving: the function that writes a registry is followed on each path, with the files it opens, writes and renames; the registry's own
path is changed by a rename alone, of a file that belongs to this process and holds the whole text.  Order: in every function that
changes the registry, files of a plugin are put in place before the save that adds it, and deleted after the save that removes it
(reachability over the control-flow graph and call graph)."""
import re
from rules.common import *
from rules.p01 import Rpc, subs, some, ok, err, NONE, OPT, RES
from absint import C, UNIT, TOP, is_c

CR = ("hodu_plugin", "hodu_plugin_runtime", "hodu_plugin_sdk", "hodu_cli")
REG = "PluginRegistry"
HURT = ("write", "create", "remove_file", "remove_dir_all", "set_len", "copy", "remove_dir", "hard_link", "create_new", "truncate")


class Save(Rpc):
    def enter(self, path, fn, depth, args=()):
        return path.startswith(("hodu_plugin_runtime", "hodu_cli", "<hodu")) and "_serde::" not in path

    def on_call(self, ai, st, fr, bi, t, d, r, args):
        m = r or d or ""
        n = m.rsplit("::", 1)[-1]
        A = [ai.deep(st, a) for a in args]
        if "OpenOptions" in m and n in ("new", "read", "write", "create", "truncate", "append", "create_new", "mode"):
            if n == "new":
                return [(st, ("opts", ()))]
            o = A[0][1] if A[0][0] == "opts" else ()
            return [(st, ("opts", o + ((n, A[1][1] if is_c(A[1]) else None),)))]
        if "OpenOptions" in m and n == "open" or "fs::File" in m and n in ("open", "create", "create_new", "options"):
            path = A[-1]
            o = dict(A[0][1]) if A[0][0] == "opts" else {"write": n != "open", "truncate": n == "create"}
            k = "truncate" if o.get("truncate") else "append" if o.get("append") else "write" if o.get("write") else "read"
            i = sum(1 for e in self.evs(st) if e[0] == "open")
            return [(self.ev(ai, st, "open", k, path), ok(("file", i, path))), (self.ev(ai, st, "fail"), err(("sym", "io")))]
        if n in ("write_all", "write_fmt", "write") and A and self.file(A[0]):
            f = self.file(A[0])
            return [(self.ev(ai, st, "put", f, A[1]), ok(UNIT)), (self.ev(ai, st, "torn", f), err(("sym", "io")))]
        if n in ("sync_all", "sync_data", "flush") and A and self.file(A[0]):
            f = self.file(A[0])
            return [(self.ev(ai, st, "synced", f), ok(UNIT)), (self.ev(ai, st, "torn", f), err(("sym", "io")))]
        if re.search(r"\bfs::", m) and n in ("write", "rename", "remove_file", "copy", "create_dir_all", "remove_dir_all", "set_len",
                                             "set_permissions", "create_dir", "read_to_string", "read", "metadata"):
            good = UNIT if n not in ("read", "read_to_string", "metadata", "copy") else ("sym", n)
            return [(self.ev(ai, st, n, *A), ok(good)), (self.ev(ai, self.ev(ai, st, n, *A), "torn", A[0] if n == "write" else None),
                                                         err(("sym", "io")))]
        if n == "id" and "process" in m:
            return [(st, ("pid",))]
        if n in ("to_string_pretty", "to_string", "to_vec", "to_vec_pretty") and "serde_json" in m:
            return [(st.copy(), ok(("json", A[0]))), (st.copy(), err(("sym", "serialize")))]
        if n in ("as_bytes", "into_bytes", "as_str", "as_ref", "as_path", "to_path_buf", "borrow", "into", "deref", "clone") and len(A) == 1:
            return [(st, A[0])]
        if n in ("push", "push_str", "set_extension", "set_file_name") and len(args) == 2 and "Vec" not in m:
            s, a = st.copy(), args[0]
            while a[0] == "ref" and ai.load(s, a[1], a[2])[0] == "ref":
                a = ai.load(s, a[1], a[2])
            if a[0] == "ref":
                ai.store(s, a[1], a[2], ("path", n) + tuple(A))
                return [(s, UNIT)]
        if n in ("to_os_string", "to_string_lossy", "to_owned", "into_os_string", "unwrap_or_default", "to_string", "display") and \
                len(A) == 1 and A[0][0] in ("path", "arg", "adt", "app"):
            return [(st, A[0])]
        if n in ("lock_exclusive", "lock_shared", "unlock", "try_lock_exclusive", "lock"):
            return [(st.copy(), ok(UNIT)), (st.copy(), err(("sym", "lock")))]
        if n in ("with_extension", "with_file_name", "join", "parent", "file_name", "set_extension", "push", "with_added_extension"):
            return [(st, some(("path", n) + tuple(A)) if n in ("parent", "file_name") else ("path", n) + tuple(A))]
        return None

    def file(self, v):
        return next((x for x in subs(v) if x[0] == "file"), None)


def saves(rep, p):
    n = paths = 0
    found = set()
    for k, f in sorted(p.fns.items()):
        if not k.startswith(("hodu_plugin_runtime", "hodu_cli")) or "{closure" in k or f.argc < 2:
            continue
        tys = [strip_gen(f.locals[i + 1][0]) for i in range(f.argc)]
        if REG not in tys[0] or "Path" not in tys[1]:
            continue
        n += 1
        ru = Save(p)
        ai = AI(p, ru, 100000)
        dst = ("arg", 2)
        rets, _ = ai.analyse(k, [("ref", ("obj", ("arg", 1)), ()), dst])
        bad = {}
        good = 0
        for v, s in rets:
            paths += 1
            v = ai.deep(s, v)
            evs = ru.evs(s)
            put = {}
            torn = set()
            moved = False
            for e in evs:
                if e[0] == "open" and e[1] in ("truncate", "append", "write") and e[2] == dst or \
                        e[0] in HURT and len(e) > 1 and (e[-1] if e[0] == "copy" else e[1]) == dst:
                    bad.setdefault("place", "it changes the registry's file in place (%s), so it can be seen or left incomplete" % e[0])
                if e[0] == "put":
                    put.setdefault(e[1][2], []).append(e[2])
                if e[0] == "write":
                    put.setdefault(e[1], []).append(e[2])
                if e[0] == "torn" and e[1] is not None:
                    torn.add(e[1][2] if e[1][0] == "file" else e[1])
                if e[0] == "rename" and e[2] == dst:
                    moved = True
                    src = e[1]
                    if not any(x == ("json", ("arg", 1)) or x[0] == "json" for c in put.get(src, ()) for x in subs(c)):
                        bad.setdefault("whole", "it renames into place a file that does not hold the registry")
                    if src in torn:
                        bad.setdefault("whole", "it renames into place a file whose writing failed")
                    if not any(x == dst for x in subs(src)):
                        bad.setdefault("beside", "the file it renames is not in the registry's directory")
                    if not any(x[0] == "pid" for x in subs(src)):
                        bad.setdefault("own", "the file it renames may be another process's")
                    # text put together under one name and another path
            if v[0] == "adt" and v[2] == "Ok":
                good += 1
                if not moved:
                    bad.setdefault("done", "it succeeds without having put the new registry in place")
        found.add(k)
        for g in ("place", "whole", "beside", "own", "done"):
            rep.ob("save", k + " " + g, g not in bad, "%s: %s" % (k, bad.get(g)), f.loc)
        rep.floor("anchor", "paths on which a registry is saved", good, 1)
    rep.floor("anchor", "functions that save a registry", n, 1)
    rep.count("paths of a save", paths)
    return found


def order(rep, p, found):
    """around each save: additions after their files, removals before them"""
    cg = p.callgraph()

    def effects(k, seen):
        out = set()
        todo = [k]
        while todo:
            x = todo.pop()
            if x in seen or x not in p.fns or x in found:
                continue
            seen.add(x)
            for b, t, c in p.fns[x].calls():
                out |= eff(t)
            todo += list(cg.get(x, ()))
        return out

    def eff(t):
        m = t["f"].get("r") or t["f"].get("d") or ""
        n = m.rsplit("::", 1)[-1]
        if re.search(r"\bfs::", m):
            if n in ("copy", "create_dir_all", "set_permissions", "write", "rename", "create_dir", "hard_link"):
                return {"put"}
            if n in ("remove_dir_all", "remove_file", "remove_dir"):
                return {"delete"}
        return set()
    n = 0
    for k, f in sorted(p.fns.items()):
        if not k.startswith("hodu_cli") or "{closure" in k:
            continue
        sv = [b for b, t, c in f.calls() if not c and set(p.targets(t)) & found]
        if not sv:
            continue
        at = {}
        adds = rems = False
        for b, t, c in f.calls():
            if c:
                continue
            e = eff(t)
            for x in p.targets(t):
                f2 = p.fns.get(x)
                if f2 is not None and x not in found:
                    e |= effects(x, set())
                    if REG in (f2.d.get("impl_self") or x) and f2.argc >= 2 and REG in f2.locals[1][0] and "&mut" in f2.locals[1][0]:
                        kinds = mutation(p, f2)
                        adds |= "add" in kinds
                        rems |= "remove" in kinds and "add" not in kinds
            if e:
                at[b] = e
        if not adds and not rems:
            continue
        n += 1
        reach = {b: closure(f, b) for b in set(at) | set(sv)}
        late = [b for b, e in at.items() if "put" in e and any(b in reach[s] for s in sv)]
        early = [b for b, e in at.items() if "delete" in e and any(s in reach[b] for s in sv)]
        if adds:
            rep.ob("order", k + " add", not late, "%s: files of a plugin are put in place after the registry that names it is saved" % k, f.loc)
        if rems:
            rep.ob("order", k + " remove", not early, "%s: files of a plugin are deleted before the registry that names it is replaced" % k, f.loc)
            rep.ob("order", k + " files", any("delete" in e for e in at.values()), "%s: the files of a removed plugin are not deleted" % k, f.loc)
    rep.floor("anchor", "functions that add or remove plugins", n, 2)


def mutation(p, f):
    """what a method of the registry does to its list"""
    out = set()
    seen, todo = set(), [f.path]
    while todo:
        x = todo.pop()
        if x in seen or x not in p.fns:
            continue
        seen.add(x)
        for b, t, c in p.fns[x].calls():
            m = t["f"].get("r") or t["f"].get("d") or ""
            n = m.rsplit("::", 1)[-1]
            if "vec::Vec" in m and n in ("push", "insert", "extend"):
                out.add("add")
            if "vec::Vec" in m and n in ("remove", "retain", "swap_remove", "drain", "pop", "retain_mut"):
                out.add("remove")
            for y in p.targets(t):
                if REG in y:
                    todo.append(y)
    return out


def closure(f, b):
    seen, todo = set(), list(f.succs(b))
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += list(f.succs(x))
    return seen


def check(rep):
    p = program(*CR)
    p.vs = lambda a: ["Timeout", "Disconnected"]
    found = saves(rep, p)
    order(rep, p, found)
