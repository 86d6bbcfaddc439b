"""Program model over the MIR dump: functions, types, impls, call graph."""
import json, os, re
from collections import defaultdict
import extract
from extract import CheckError

try:
    import orjson
    _loads = orjson.loads
except Exception:
    _loads = json.loads

CRATES = ["hodu_core", "hodu_cpu_kernels", "hodu_nn", "hodu_datasets", "hodu_plugin", "hodu_plugin_runtime",
          "hodu_plugin_sdk", "hodu_cli", "hodu_internal", "hodu_macro_utils", "hodu_nn_macros",
          "hodu_datasets_macros", "hodu", "hodu.bin"]


def strip_gen(p):
    """Path without generic argument lists: `a::B::<T>::c` -> `a::B::c` (keeps `<X as Y>` qualifiers)."""
    out = []
    i, n = 0, len(p)
    while i < n:
        if p.startswith("::<", i) and i > 0 and not p.startswith("::<impl ", i):
            d, j = 0, i + 2
            while j < n:
                if p[j] == "<":
                    d += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    return "".join(out)


class Fn:
    __slots__ = ("d", "path", "name", "crate", "blocks", "locals", "argc", "body", "_cfg", "_live", "_rpo")

    def __init__(self, d, crate):
        self.d = d
        self.path = d["path"]
        self.name = d["name"]
        self.crate = crate
        self.body = d["body"]
        self.blocks = self.body["blocks"]
        self.locals = self.body["locals"]
        self.argc = self.body["argc"]
        self._cfg = self._live = self._rpo = None

    @property
    def loc(self):
        return self.d["loc"]

    @property
    def file(self):
        return self.d["loc"].rsplit(":", 1)[0]

    def succs(self, bi, unwind=False):
        t = self.blocks[bi][1]
        k = t["t"]
        s = []
        if k in ("goto",):
            s = [t["to"]]
        elif k == "switch":
            s = [c[1] for c in t["cases"]] + [t["else"]]
        elif k in ("drop", "assert"):
            s = [t["to"]]
        elif k == "call":
            s = [t["to"]] if t["to"] is not None else []
        if unwind and k in ("drop", "assert", "call") and isinstance(t.get("uw"), int):
            s.append(t["uw"])
        return s

    def rpo(self, unwind=False):
        if self._rpo is None:
            self._rpo = {}
        if unwind in self._rpo:
            return self._rpo[unwind]
        seen, order, st = {0}, [], [(0, iter(self.succs(0, unwind)))]
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succs(s, unwind))))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        r = {b: i for i, b in enumerate(order)}
        self._rpo[unwind] = r
        return r

    def calls(self):
        for i, b in enumerate(self.blocks):
            t = b[1]
            if t["t"] == "call":
                yield i, t, (len(b) > 2)


def callee(t):
    """(declared path, resolved path or None) of a call terminator."""
    f = t["f"]
    return strip_gen(f.get("d", "")), strip_gen(f["r"]) if "r" in f else None


class Program:
    def __init__(self, crates=None):
        self.dir = extract.extract()
        self.fns = {}
        self.by_name = defaultdict(list)
        self.adts = {}
        self.impls = []
        self.traits = {}
        self.statics = {}
        self.foreign = {}
        self.crates = []
        for c in crates or CRATES:
            fp = os.path.join(self.dir, c + ".jsonl")
            if not os.path.exists(fp):
                raise CheckError("missing dump " + fp)
            self.crates.append(c)
            with open(fp, "rb") as fh:
                for line in fh:
                    d = _loads(line)
                    k = d["kind"]
                    if k == "fn":
                        f = Fn(d, c)
                        sp = strip_gen(f.path)
                        self.fns[sp] = f
                        self.by_name[f.name].append(f)
                    elif k == "adt":
                        self.adts[strip_gen(d["path"])] = d
                    elif k == "impl":
                        self.impls.append(d)
                    elif k == "trait":
                        self.traits[strip_gen(d["path"])] = d
                    elif k == "static":
                        self.statics[d["path"]] = d
                    elif k == "foreign":
                        self.foreign[d["name"]] = d
        # trait method path -> implementing fns (for dyn dispatch)
        self.trait_impls = defaultdict(list)
        for im in self.impls:
            if im["trait"]:
                t = strip_gen(im["trait"])
                for nm, p in im["items"]:
                    self.trait_impls[t + "::" + nm].append(strip_gen(p))

    def fn(self, path):
        f = self.fns.get(path)
        if f is None:
            raise CheckError("anchor function not found: " + path)
        return f

    def find(self, suffix, crate=None):
        r = [f for p, f in self.fns.items() if p.endswith(suffix) and (crate is None or f.crate == crate)]
        return r

    def one(self, suffix, crate=None):
        r = self.find(suffix, crate)
        if len(r) != 1:
            raise CheckError("anchor %r: expected one function, found %s" % (suffix, [x.path for x in r][:6]))
        return r[0]

    def adt(self, path):
        a = self.adts.get(path)
        if a is None:
            raise CheckError("anchor type not found: " + path)
        return a

    def variants(self, path):
        return [v["n"] for v in self.adt(path)["variants"]]

    def targets(self, t):
        """Workspace functions a call terminator may enter (callbacks included)."""
        f = t["f"]
        out = []
        d, r = callee(t)
        for p in (r, d):
            if p and p in self.fns:
                out.append(p)
                break
        else:
            if f.get("k") in ("virtual", "decl") and d in self.trait_impls:
                out += [p for p in self.trait_impls[d] if p in self.fns]
        return out

    def callbacks(self, t):
        return [strip_gen(p) for p in t["f"].get("cb", []) if strip_gen(p) in self.fns]

    def callgraph(self, drops=True):
        g = defaultdict(set)
        for p, f in self.fns.items():
            for b in f.blocks:
                t = b[1]
                if t["t"] == "call":
                    for x in self.targets(t) + self.callbacks(t):
                        g[p].add(x)
                    for a in t["args"]:
                        k = a.get("k")
                        if k and "fn" in k:
                            q = strip_gen(k["fn"].get("r", k["fn"]["d"]))
                            if q in self.fns:
                                g[p].add(q)
                elif t["t"] == "drop" and drops:
                    for x in t["impls"]:
                        x = strip_gen(x)
                        if x in self.fns:
                            g[p].add(x)
                for s in b[0]:
                    if s[0] == "=" and s[2].get("agg") == "closure":
                        q = strip_gen(s[2]["fn"])
                        if q in self.fns:
                            g[p].add(q)
        return g
