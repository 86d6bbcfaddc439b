"""LLVM IR of the CPU kernels: compiled from the current C sources, inlined into SSA form, parsed."""
import os, re, subprocess, hashlib, pickle, glob, sys
from concurrent.futures import ProcessPoolExecutor
import extract
from extract import REPO, BUILD, CheckError, BuildError

KDIR = os.path.join(REPO, "crates", "hodu_cpu_kernels", "kernels")
ITY = {"i1": 1, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "float": 4, "double": 8, "ptr": 8, "half": 2, "bfloat": 2}


def ckernel_files():
    """the C files the build script compiles with the openblas feature, as /repo is built and tested here"""
    out = []
    s = open(os.path.join(os.path.dirname(KDIR), "build.rs")).read()
    for m in re.finditer(r'\.file\("kernels/([^"]+\.c)"\)', s):
        if "apple" not in m.group(1) and m.group(1) not in out:
            out.append(m.group(1))
    if not out:
        raise CheckError("no C file named in the kernel crate's build script")
    return out


def ckey():
    h = hashlib.sha256()
    for p in sorted(glob.glob(os.path.join(KDIR, "*.[ch]"))) + [os.path.join(os.path.dirname(KDIR), "build.rs"), __file__]:
        h.update(p.encode())
        h.update(open(p, "rb").read())
    return h.hexdigest()[:24]


def _compile(job):
    f, out = job
    base = os.path.join(out, f[:-2])
    r = subprocess.run(["clang", "-std=c11", "-O1", "-Xclang", "-disable-llvm-passes", "-DENABLE_SIMD_AUTO", "-DENABLE_THREADS",
                        "-DUSE_BLAS",                        "-w", "-S", "-emit-llvm", "-I", KDIR, os.path.join(KDIR, f), "-o", base + ".0.ll"],
                       capture_output=True, text=True)
    if r.returncode:
        raise BuildError("clang failed on %s:\n%s" % (f, r.stderr[-2000:]))
    r = subprocess.run(["/usr/lib/llvm-18/bin/opt", "-S", "-passes=function(sroa),inline,function(sroa,early-cse,simplifycfg,dce)",
                        "-inline-threshold=1000000", base + ".0.ll", "-o", base + ".ll"], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("opt failed on %s:\n%s" % (f, r.stderr[-2000:]))
    os.unlink(base + ".0.ll")
    fns, types = parse(open(base + ".ll").read(), f)
    os.unlink(base + ".ll")
    for x in fns:
        with open(os.path.join(out, "fn." + x.name), "wb") as fh:
            pickle.dump((x, types), fh, protocol=4)
    return f, [x.name for x in fns]


def build():
    """directory with one pickled function per file"""
    os.makedirs(BUILD, exist_ok=True)
    import fcntl, shutil
    with open(os.path.join(BUILD, ".clock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        out = os.path.join(BUILD, "cir-" + ckey())
        if os.path.exists(os.path.join(out, ".done")):
            return out
        for old in glob.glob(os.path.join(BUILD, "cir-*")):
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(out)
        with ProcessPoolExecutor(8) as ex:
            files = ckernel_files()
            idx = {}
            for f, names in ex.map(_compile, [(f, out) for f in sorted(files, key=lambda f: -os.path.getsize(os.path.join(KDIR, f)))]):
                for n in names:
                    idx[n] = f
        with open(os.path.join(out, "index"), "wb") as fh:
            pickle.dump(idx, fh)
        open(os.path.join(out, ".done"), "w").close()
        return out


class CFn:
    __slots__ = ("name", "file", "ret", "params", "blocks", "order", "internal")


_split = re.compile(r"[^\s,()\[\]{}<>]+|[\[\](){}<>,]")


def val(s):
    """operand text -> value: '%x', '@g', int or None for constants we do not follow"""
    s = s.strip()
    if s[0] in "%@":
        return s
    if s == "true":
        return 1
    if s in ("false", "null", "zeroinitializer"):
        return 0
    if re.fullmatch(r"-?\d+", s):
        return int(s)
    return None


def splitc(s):
    """split at top-level commas"""
    out, d, cur = [], 0, []
    for ch in s:
        if ch in "([{<":
            d += 1
        elif ch in ")]}>":
            d -= 1
        if ch == "," and d == 0:
            out.append("".join(cur).strip())
            cur = []
        else:
            cur.append(ch)
    if cur:
        out.append("".join(cur).strip())
    return out


ATTR = re.compile(r"\b(noundef|signext|zeroext|nonnull|nocapture|immarg|readonly|writeonly|noalias|returned|nuw|nsw|exact|disjoint|nneg|inbounds|"
                  r"fast|nnan|ninf|nsz|arcp|contract|afn|reassoc|volatile|tail|notail|musttail|dereferenceable\(\d+\)|align \d+|samesign)\b ?")
BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
          "fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint", "inttoptr", "bitcast"}


def tyval(s):
    """'i64 %3' -> ('i64', '%3')"""
    s = s.strip()
    d = 0
    for i, ch in enumerate(s):
        if ch in "([{<":
            d += 1
        elif ch in ")]}>":
            d -= 1
        elif ch == " " and d == 0:
            # "type value" splits at the first top-level blank ("x i64" lives in brackets)
            return s[:i], val(s[i + 1:])
    return s, None


def parse(txt, file):
    types = {}
    for m in re.finditer(r"^(%[\w.]+) = type (\{.*\})$", txt, re.M):
        types[m.group(1)] = splitc(m.group(2).strip()[1:-1].strip())
    fns = []
    cur = None
    lines = iter(txt.split("\n"))
    for ln in lines:
        if ln.startswith("define "):
            m = re.match(r"define (.*?)@([\w.$]+)\((.*)\)[^)]*\{", ln)
            cur = CFn()
            cur.name, cur.file = m.group(2), file
            cur.internal = "internal" in m.group(1)
            cur.ret = ATTR.sub("", m.group(1).replace("internal", "").replace("dso_local", "").replace("local_unnamed_addr", "")).strip()
            cur.params = []
            for a in splitc(m.group(3)):
                a = ATTR.sub("", a)
                if a.strip() == "...":
                    continue
                cur.params.append(tyval(a))
            cur.blocks, cur.order = {}, []
            # the entry block carries the number after the parameters unless it is named
            lab = "%" + str(len(cur.params))
            first = True
            continue
        if cur is None:
            continue
        if ln == "}":
            fns.append(cur)
            cur = None
            continue
        if not ln or ln.startswith(";"):
            continue
        if not ln.startswith(" "):
            m = re.match(r'("?[\w.\-$]+"?):', ln)
            if m:
                lab = "%" + m.group(1)
                cur.blocks[lab] = []
                cur.order.append(lab)
                first = False
                continue
        if first:
            cur.blocks[lab] = []
            cur.order.append(lab)
            first = False
        t = ln.strip()
        if t.startswith("switch"):
            while "]" not in t:
                t += " " + next(lines).strip()
        i = inst(t)
        if i is not None:
            cur.blocks[lab].append(i)
    return fns, types


def inst(t):
    t = re.sub(r", ![\w.]+ ![\d]+|, !\w+ !\{[^}]*\}| ![\w.]+ !\d+", "", t)
    t = re.sub(r" #\d+$", "", t)
    res = None
    m = re.match(r"(%[\w.\-$\"]+) = (.*)", t)
    if m:
        res, t = m.group(1), m.group(2)
    t = ATTR.sub("", t)
    op, _, rest = t.partition(" ")
    if op in BINOPS:
        ty, ab = rest.split(" ", 1) if not rest.startswith("<") else (rest[:rest.index(">") + 1], rest[rest.index(">") + 2:])
        a, b = splitc(ab)
        return (op, res, ty, val(a), val(b))
    if op in ("icmp", "fcmp"):
        pred, rest = rest.split(" ", 1)
        ty, ab = rest.split(" ", 1) if not rest.startswith("<") else (rest[:rest.index(">") + 1], rest[rest.index(">") + 2:])
        a, b = splitc(ab)
        return (op, res, pred, val(a), val(b))
    if op in CASTS:
        m = re.match(r"(.*) to (.*)$", rest)
        ty, v = tyval(m.group(1))
        return ("cast", res, op, v, ty, m.group(2))
    if op == "fneg" or op == "freeze":
        return ("un", res, op, tyval(rest)[1])
    if op == "load":
        if rest.startswith("atomic"):
            rest = rest[7:]
        p = splitc(rest)
        return ("load", res, p[0], tyval(p[1])[1])
    if op == "store":
        if rest.startswith("atomic"):
            rest = rest[7:]
        p = splitc(rest)
        ty, v = tyval(p[0])
        return ("store", None, ty, v, tyval(p[1])[1])
    if op == "getelementptr":
        p = splitc(rest)
        return ("gep", res, p[0], tyval(p[1])[1], tuple(tyval(x)[1] for x in p[2:]))
    if op == "phi":
        p = re.findall(r"\[ (.*?), (%[\w.\-$\"]+) \]", rest)
        return ("phi", res, tyval(rest)[0] if not rest.startswith(("i", "p", "f", "d", "h")) else rest.split(" ", 1)[0],
                tuple((val(a), b) for a, b in p))
    if op == "select":
        p = splitc(rest)
        return ("select", res, tyval(p[0])[1], tyval(p[1])[1], tyval(p[2])[1], tyval(p[1])[0])
    if op == "br":
        if rest.startswith("label"):
            return ("br", None, None, (rest.split()[1],))
        m = re.match(r"i1 (.+?), label (\S+), label (\S+)$", rest)
        return ("br", None, val(m.group(1)), (m.group(2), m.group(3)))
    if op == "switch":
        m = re.match(r"(\S+) (\S+), label (\S+) \[(.*)\]", rest)
        cases = re.findall(r"\S+ (-?\d+), label (\S+)", m.group(4))
        return ("switch", None, val(m.group(2)), m.group(3), tuple((int(c), l) for c, l in cases))
    if op == "ret":
        return ("ret", None, tyval(rest)[1] if rest != "void" else None)
    if op == "unreachable":
        return ("unreachable", None)
    if op == "call":
        m = re.match(r"(.*?)([@%][\w.$]+)\((.*)\)", rest)
        if not m:
            return ("call", res, None, ())
        args = []
        for a in splitc(m.group(3)):
            args.append(tyval(a) if a else (None, None))
        return ("call", res, m.group(2), tuple(args), m.group(1).strip())
    if op == "alloca":
        p = splitc(rest)
        n = 1
        for x in p[1:]:
            if not x.startswith("align"):
                n = tyval(x)[1]
        return ("alloca", res, p[0], n)
    if op == "cmpxchg":
        rest = rest.replace("weak ", "")
        p = splitc(rest)
        return ("rmw", res, tyval(p[0])[1], tyval(p[2])[1])
    if op == "atomicrmw":
        p = splitc(rest.split(" ", 1)[1])
        return ("rmw", res, tyval(p[0])[1], tyval(p[1])[1])
    if op == "extractvalue":
        return ("un", res, op, tyval(splitc(rest)[0])[1])
    if op in ("extractelement", "insertelement", "shufflevector", "insertvalue"):
        return ("misc", res, op, tuple(tyval(x)[1] for x in splitc(rest)))
    if op in ("fence",):
        return None
    raise CheckError("instruction of the kernels' IR not understood: " + t[:120])


_idx = None
_fns = {}


def index():
    global _idx
    if _idx is None:
        with open(os.path.join(build(), "index"), "rb") as fh:
            _idx = pickle.load(fh)
    return _idx


def fn(name):
    if name not in _fns:
        if name not in index():
            return None
        with open(os.path.join(build(), "fn." + name), "rb") as fh:
            _fns[name] = pickle.load(fh)
    return _fns[name]


if __name__ == "__main__":
    import cir
    print(cir.build(), len(cir.index()))
