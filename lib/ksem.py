"""Runs the syntax-tree tool over the C kernels: how values of the integer-backed float types are used."""
import os, subprocess, hashlib, glob
from concurrent.futures import ThreadPoolExecutor
import extract
from extract import BUILD, VERIF, CheckError, BuildError
from cir import KDIR, ckernel_files

SRC = os.path.join(VERIF, "driver", "ksem.cpp")
LLVM = "/usr/lib/llvm-18"


def tool():
    """the syntax-tree tool, built once per source"""
    import fcntl
    h = hashlib.sha256(open(SRC, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, "ksem-" + h)
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".kslock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            libs = [sorted(glob.glob(LLVM + "/lib/libclang-cpp.so.18*"))[0], sorted(glob.glob(LLVM + "/lib/libLLVM*18*.so*"))[0]]
            r = subprocess.run(["clang++", "-std=c++17", "-fno-rtti", "-O1", "-w", "-I", LLVM + "/include", SRC, "-o", out + ".tmp"] + libs
                               + ["-Wl,-rpath," + LLVM + "/lib"], capture_output=True, text=True)
            if r.returncode:
                raise CheckError("the syntax-tree tool does not build: " + r.stderr[-1500:])
            os.rename(out + ".tmp", out)
    return out


def events():
    t = tool()
    res = subprocess.run(["clang", "-print-resource-dir"], capture_output=True, text=True).stdout.strip()

    def one(f):
        r = subprocess.run([t, os.path.join(KDIR, f), "--", "-std=c11", "-w", "-DENABLE_SIMD_AUTO", "-DENABLE_THREADS", "-DUSE_BLAS",
                            "-I", KDIR, "-resource-dir", res], capture_output=True, text=True)
        if r.returncode:
            raise BuildError("clang failed on %s:\n%s" % (f, r.stderr[-2000:]))
        return f, [l.split("\t") for l in r.stdout.splitlines()]
    with ThreadPoolExecutor(8) as ex:
        return dict(ex.map(one, ckernel_files()))


if __name__ == "__main__":
    print(tool())
