"""T08: buffers and layouts are always paired correctly.

For every public tensor operation, on every path and in both modes:
 - a tensor created around a buffer the back end has just filled gets a layout built from its shape alone (contiguous,
   offset zero); an operand's layout may carry a stride of zero, a permutation or an offset and describes the operand's
   buffer;
 - a tensor that shares an operand's buffer gets a layout derived from that operand's layout;
 - every back-end call receives, for each operand buffer, the layout of the tensor that buffer belongs to, in the same
   order."""
from tcommon import *

ASSUMPTIONS = ["the back end fills result buffers densely in logical order (the kernels' subject)",
               "Layout::from_shape builds the contiguous, offset-free layout of a shape",
               "SymbolicLayout::to_max_layout builds a contiguous layout"]
NOT_COVERED = "whether the shape itself is the right one for the operation"


def classify(lay):
    if lay[0] == "fresh":
        return "fresh"
    if lay[0] == "phi":
        c = {classify(x) for x in lay[1]}
        return c.pop() if len(c) == 1 else "mixed"
    if lay[0] == "lay":
        return "operand"
    if lay[0] == "top" or lay[0] == "big":
        return "unknown"
    if any(x[0] == "lay" for x in leaves(lay)):
        return "derived"
    return "unknown"


def bufs(v, out):
    """operand buffers in argument order: tensor terms, or ('x', n) for a buffer produced by an earlier call"""
    if v[0] == "stor":
        out.append(v[1])
    elif v[0] == "xstor":
        out.append(("x", v[1]))
    elif v[0] in ("vec", "arr", "tup", "itr"):
        for x in v[1]:
            bufs(x, out)
    elif v[0] == "adt":
        for x in v[3]:
            bufs(x, out)
    elif v[0] == "phi":
        alts = []
        for x in v[1]:
            o = []
            bufs(x, o)
            if o not in alts:
                alts.append(o)
        alts = [a for a in alts if a]
        if len(alts) == 1:
            out.extend(alts[0])
        elif alts:
            out.append(("mixed",))
    return out


def lays(v, out):
    if v[0] == "lay":
        out.append(v[1])
    elif v[0] == "fresh":
        out.append(("fresh",))
    elif v[0] in ("vec", "arr", "tup", "itr"):
        for x in v[1]:
            lays(x, out)
    elif v[0] == "phi":
        alts = []
        for x in v[1]:
            o = []
            lays(x, o)
            if o not in alts:
                alts.append(o)
        alts = [a for a in alts if a]
        if len(alts) == 1:
            out.extend(alts[0])
        elif alts:
            out.append(("mixed",))
    elif v[0] == "app" and any(x[0] == "lay" for x in leaves(v)) and "Layout" in str(v[1]):
        src = {x[1] for x in leaves(v) if x[0] == "lay"}
        out.append(src.pop() if len(src) == 1 else ("mixed",))
    return out


def pairing(pa, f):
    b, l = [], []
    for a in f[3]:
        bufs(a, b)
        lays(a, l)
    if len(b) != len(l):
        return "%d operand buffers but %d layouts are passed" % (len(b), len(l))
    for i, (x, y) in enumerate(zip(b, l)):
        if x[0] == "x":
            if y != ("fresh",):
                return "operand %d is a buffer filled by an earlier call but its layout is that of %s" % (i, y[-1])
        elif x != y:
            return "operand %d is the buffer of %s but is read through the layout of %s" % (i, show(x), show(y))
    return ""


def show(t):
    if t[0] == "targ":
        return t[2]
    if t[0] == "der":
        return "%s(%s)" % (t[1], ", ".join(show(x) for x in t[2]))
    return {"new": "a result tensor", "fresh": "a fresh shape", "mixed": "several tensors"}.get(t[0], t[0])


def check(rep):
    p, res, nondiff = data()
    rep.floor("layout", "tensor operations analysed", len(res), 150)
    n = ne = 0
    for path, runs in sorted(res.items()):
        nm, loc = name(path), p.fn(path).loc
        if isinstance(runs, str):
            rep.ob("layout", nm, False, "not analysable: " + runs, loc)
            continue
        bad = {}
        kinds = set()
        calls = {}
        for pa in paths(runs):
            for k, f in pa.new.items():
                _, _, kind, rg, lay, stor, _dt = f
                c = classify(lay)
                kinds.add(kind)
                if kind == "eager":
                    if c != "fresh":
                        bad.setdefault("eager", "the result buffer is new but its layout is %s" % c)
                elif kind == "shared":
                    src = stor[1]
                    if c not in ("derived", "operand") or not contains(lay, ("lay", src)):
                        bad.setdefault("shared", "the result shares %s's buffer but its layout is %s" % (src[-1], c))
                elif kind == "builder":
                    # the mode that executes decides what the buffer will be
                    bad.setdefault("builder:" + c, None)
            for f in pa.exec.values():
                w = pairing(pa, f)
                calls[f[2]] = calls.get(f[2]) or w
        shared = "shared" in kinds
        for c in [x for x in bad if x.startswith("builder:")]:
            del bad[c]
            cl = c.split(":")[1]
            if shared and cl not in ("derived", "operand"):
                bad["builder"] = "the captured result is a view but its layout is %s" % cl
            if not shared and cl != "fresh":
                bad["builder"] = "the captured result is a new buffer but its layout is %s" % cl
        for kd in sorted(kinds):
            n += 1
            rep.ob("layout", "%s/%s" % (nm, kd), kd not in bad, bad.get(kd, ""), loc)
        for c in sorted(calls):
            ne += 1
            rep.ob("operand", "%s/%s" % (nm, c), not calls[c], calls[c], loc)
    rep.floor("layout", "operation/mode pairs", n, 200)
    rep.floor("operand", "back-end calls", ne, 100)
