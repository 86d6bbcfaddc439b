"""Builds the MIR driver when needed, runs it over /repo's current tree and loads the result.

The dump is always made from the tree as it is now: a cache is used only when the SHA-256 over the
driver, the toolchain and every source file of /repo is the same as that of the cached dump."""
import hashlib, json, os, re, subprocess, sys, glob, shutil, fcntl, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HODU_REPO", "/repo")
BUILD = os.environ.get("HODU_VERIF_BUILD", os.path.join(VERIF, ".build"))
SRC_EXT = (".rs", ".toml", ".c", ".h", ".lock")


class CheckError(Exception):
    pass


class BuildError(CheckError):
    pass


def source_files():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target", "node_modules"))
        for f in sorted(files):
            if f.endswith(SRC_EXT):
                out.append(os.path.join(root, f))
    return out


def tree_hash():
    h = hashlib.sha256()
    for p in [os.path.join(VERIF, "driver", "main.rs")] + sorted(glob.glob(os.path.join(VERIF, "witness", "*", "*"))) + source_files():
        h.update(p.encode())
        with open(p, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def _env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") or k in ("RUSTFLAGS", "RUSTC", "RUSTC_WRAPPER"):
            e.pop(k)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    e["HODU_DISABLE_NATIVE"] = "1"
    e["RUSTUP_TOOLCHAIN"] = "nightly-x86_64-unknown-linux-gnu"
    return e


def sysroot():
    return subprocess.run(["rustc", "--print", "sysroot"], env=_env(), capture_output=True, text=True,
                          check=True).stdout.strip()


def build_driver():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "driver", "main.rs")
    exe = os.path.join(BUILD, "hodu-mir")
    tag = exe + ".sha"
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if os.path.exists(exe) and os.path.exists(tag) and open(tag).read() == h:
        return exe
    r = subprocess.run(["rustc", "-O", src, "-o", exe, "--edition", "2021"], env=_env(), capture_output=True,
                       text=True)
    if r.returncode != 0:
        raise BuildError("driver build failed:\n" + r.stderr[-4000:])
    with open(tag, "w") as f:
        f.write(h)
    return exe


LOCAL_PKGS = None


def local_packages():
    pk = []
    for p in source_files():
        if os.path.basename(p) == "Cargo.toml":
            m = re.search(r'^\[package\]\s*$.*?^name\s*=\s*"([^"]+)"', open(p).read(), re.M | re.S)
            if m:
                pk.append(m.group(1))
    return pk


def witness(exe, env, d, out):
    """compiles a user's program against the metadata of the tree's crates: witness_NAME.jsonl is its dump, witness_NAME.err
    what the compiler had to say when it does not compile"""
    name = "witness_" + os.path.basename(d)
    outs = glob.glob(os.path.join(BUILD, "target", "debug", "build", "*", "*", "out")) + [os.path.join(BUILD, "target", "debug", "deps")]
    args = [exe, os.path.join(d, "lib.rs"), "--crate-name", name, "--crate-type", "lib", "--emit", "metadata", "--edition", "2021",
            "--out-dir", out]
    for o in outs:
        args += ["-L", "dependency=" + o]
    for dep in re.findall(r'^(hodu\w*)\s*=', open(os.path.join(d, "Cargo.toml")).read(), re.M):
        fs = sorted((f for o in outs for f in glob.glob(os.path.join(o, "lib%s-*.rmeta" % dep))
                     if "/hodu-cli/" not in f), key=os.path.getmtime)
        if not fs:
            raise CheckError("no metadata of crate " + dep)
        args += ["--extern", "%s=%s" % (dep, fs[-1])]
    e = dict(env, CARGO_MANIFEST_DIR=d, CARGO_PKG_NAME=name)
    r = subprocess.run(args, cwd=d, env=e, capture_output=True, text=True)
    if r.returncode != 0:
        open(os.path.join(out, name + ".err"), "w").write(r.stderr)
    elif not os.path.exists(os.path.join(out, name + ".jsonl")):
        raise CheckError("no dump of witness " + name)
    m = os.path.join(out, "lib%s.rmeta" % name)
    if os.path.exists(m):
        os.unlink(m)


def extract():
    """Returns the directory that holds the dump of the current tree."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = tree_hash()
        out = os.path.join(BUILD, "mir-" + h)
        if os.path.exists(os.path.join(out, ".done")):
            return out
        exe = build_driver()
        for old in glob.glob(os.path.join(BUILD, "mir-*")):
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(out)
        e = _env()
        e["LD_LIBRARY_PATH"] = sysroot() + "/lib"
        e["CC"] = os.path.join(VERIF, "lib", "fakecc.sh")
        e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
        e["RUSTC_WORKSPACE_WRAPPER"] = exe
        e["HODU_MIR_OUT"] = out
        # cargo's freshness would silently skip the wrapper: drop the workspace's own artefacts
        if os.path.isdir(e["CARGO_TARGET_DIR"]):
            args = ["cargo", "clean", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml")]
            for p in local_packages():
                args += ["-p", p]
            r = subprocess.run(args, cwd=REPO, env=e, capture_output=True, text=True)
            if r.returncode != 0:
                shutil.rmtree(e["CARGO_TARGET_DIR"], ignore_errors=True)
        r = subprocess.run(["cargo", "check", "--workspace", "--features", "hodu_core/openblas", "--offline",
                            "--locked"], cwd=REPO, env=e, capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("cargo check failed:\n" + r.stderr[-6000:])
        need = ["hodu_core", "hodu_cpu_kernels", "hodu_nn", "hodu_datasets", "hodu_plugin", "hodu_plugin_runtime",
                "hodu_plugin_sdk", "hodu_cli", "hodu_internal", "hodu_macro_utils", "hodu_nn_macros",
                "hodu_datasets_macros", "hodu"]
        for n in need:
            if not os.path.exists(os.path.join(out, n + ".jsonl")):
                raise CheckError("no dump of crate " + n)
        for f in glob.glob(os.path.join(out, ".*.*")):
            if not f.endswith(".done"):
                os.unlink(f)
        for w in sorted(glob.glob(os.path.join(VERIF, "witness", "*"))):
            witness(exe, e, w, out)
        open(os.path.join(out, ".done"), "w").close()
        return out


if __name__ == "__main__":
    t = time.time()
    print(extract(), round(time.time() - t, 1))
