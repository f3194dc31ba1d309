"""Shadow-crate generation, IR extraction, symbolic execution and native replay."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, ".build"))
TOOLCHAIN = "stable"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_TERM_COLOR="never")
ENV.pop("RUSTFLAGS", None)
ENV.pop("CARGO_TARGET_DIR", None)
RUSTFLAGS = "-C no-vectorize-loops -C no-vectorize-slp -A warnings"
PROFILE = """
[profile.release]
opt-level = 1
lto = "fat"
panic = "abort"
codegen-units = 1
debug = 1
overflow-checks = false
debug-assertions = false
"""


class Inconclusive(Exception):
    pass


def sh(cmd, cwd=None, env=None, timeout=1500):
    r = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode("utf-8", "replace")


def must(cmd, what, **kw):
    rc, out = sh(cmd, **kw)
    if rc != 0:
        raise Inconclusive(f"{what} failed:\n{out[-4000:]}")
    return out


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_vsym():
    with Lock("vsym"):
        must(["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(BUILD, "vsym")], "building vsym", cwd=os.path.join(VERIF, "vsym"))
        b = os.path.join(BUILD, "vsym", "release", "vsym")
        r = os.path.join(BUILD, "replay")
        src = os.path.join(VERIF, "replay", "replay.c")
        if not os.path.exists(r) or os.path.getmtime(r) < os.path.getmtime(src):
            must(["gcc", "-O1", "-w", "-rdynamic", "-o", r + ".tmp", src, "-ldl"], "building the replay driver")
            os.replace(r + ".tmp", r)
        return b, r


def files_under(d):
    out = []
    for root, ds, fs in os.walk(d):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
        for f in sorted(fs):
            out.append(os.path.join(root, f))
    return out


def read(p):
    with open(p, "rb") as f:
        return f.read()


def sysroot():
    return must(["rustc", "--print", "sysroot"], "rustc").strip()


class Crate:
    """A shadow crate: real sources copied from /repo plus harness modules."""

    def __init__(self, name, files, manifest, inject, inputs, entry_files, post=None):
        self.name, self.files, self.manifest, self.inject = name, files, manifest, inject
        self.inputs, self.entry_files, self.post = inputs, entry_files, post

    def gather(self):
        """{relative path: bytes} of the whole shadow crate, from the current /repo tree."""
        out = {}
        for src, dst in self.files:
            p = os.path.join(REPO, src)
            if os.path.isdir(p):
                for f in files_under(p):
                    out[os.path.join(dst, os.path.relpath(f, p))] = read(f)
            elif os.path.exists(p):
                out[dst] = read(p)
            else:
                raise Inconclusive(f"{p} is missing")
        for f, text in self.inject.items():
            out[f] = out.get(f, b"") + b"\n" + text.replace("@VERIF@", VERIF).encode()
        if self.post:
            self.post(out)
        out["Cargo.toml"] = (self.manifest.replace("@VERIF@", VERIF) + PROFILE).encode()
        return out

    def build(self):
        """Returns (ir file, shared object, map of real source files)."""
        d = os.path.join(BUILD, "crate-" + self.name)
        with Lock("crate-" + self.name):
            tree = self.gather()
            h = hashlib.sha256()
            for p in sorted(tree):
                h.update(p.encode() + b"\0" + tree[p] + b"\0")
            for i in self.inputs:
                for f in files_under(os.path.join(VERIF, i)) if os.path.isdir(os.path.join(VERIF, i)) else [os.path.join(VERIF, i)]:
                    h.update(f.encode() + b"\0" + read(f) + b"\0")
            h.update(RUSTFLAGS.encode() + must(["rustc", "--version"], "rustc").encode())
            key = h.hexdigest()
            ll, so, kf = os.path.join(d, "out.ll"), os.path.join(d, "out.so"), os.path.join(d, "key")
            if os.path.exists(kf) and open(kf).read() == key and os.path.exists(ll) and os.path.exists(so):
                return ll, so
            os.makedirs(d, exist_ok=True)
            for f in (kf, ll, so):
                if os.path.exists(f):
                    os.remove(f)
            keep = {"target", "Cargo.lock"}
            for f in os.listdir(d):
                if f not in keep:
                    p = os.path.join(d, f)
                    shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
            for p, b in tree.items():
                q = os.path.join(d, p)
                os.makedirs(os.path.dirname(q), exist_ok=True)
                with open(q, "wb") as f:
                    f.write(b)
            lock = os.path.join(VERIF, "lock", self.name + ".lock")
            if os.path.exists(lock):
                shutil.copy(lock, os.path.join(d, "Cargo.lock"))
            deps = os.path.join(d, "target", "release", "deps")
            if os.path.isdir(deps):
                for f in os.listdir(deps):
                    if f.endswith(".bc"):
                        os.remove(os.path.join(deps, f))
            env = dict(ENV, RUSTFLAGS=RUSTFLAGS)
            must(["cargo", "rustc", "--release", "--offline", "--lib", "--target-dir", os.path.join(d, "target"), "--", "-C", "save-temps"],
                 f"compiling the real sources with the harness ({self.name})", cwd=d, env=env)
            bcs = [os.path.join(deps, f) for f in os.listdir(deps) if f.endswith("cgu.0.rcgu.bc")]
            lib = re.search(r'name\s*=\s*"([^"]+)"', self.manifest).group(1).replace("-", "_")
            bcs = [b for b in bcs if os.path.basename(b).startswith(lib + ".")]
            if len(bcs) != 1:
                raise Inconclusive(f"expected one bitcode file, found {bcs}")
            entries = set()
            for f in self.entry_files:
                entries |= set(re.findall(r"\bharness!\(\s*(h_\w+)", open(os.path.join(VERIF, f)).read()))
            opt = os.path.join(sysroot(), "lib/rustlib/x86_64-unknown-linux-gnu/bin/opt")
            must([opt, "-S", "--passes=internalize,globaldce", "--internalize-public-api-list=" + ",".join(sorted(entries)), bcs[0], "-o", ll + ".tmp"], "extracting IR")
            shutil.copy(os.path.join(d, "target", "release", f"lib{lib}.so"), so)
            for f in os.listdir(deps):
                if f.endswith(".bc"):
                    os.remove(os.path.join(deps, f))
            os.replace(ll + ".tmp", ll)
            with open(kf, "w") as f:
                f.write(key)
            return ll, so


def run_vsym(vsym, ll, entry, timeout, jobs=8, extra=()):
    cmd = [vsym, ll, "--entry", entry, "--jobs", str(jobs), "--timeout", str(timeout), *map(str, extra)]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout + 60)
    except subprocess.TimeoutExpired:
        raise Inconclusive(f"{entry}: no answer within {timeout + 60} s")
    try:
        return json.loads(r.stdout)
    except ValueError:
        raise Inconclusive(f"{entry}: symbolic executor ended with {r.returncode}: {r.stderr.decode('utf-8', 'replace')[-600:]}")


def cex_text(v, entry):
    o = [f"# entry {entry}", f"# {v['kind']}: {v['msg']}"]
    o += [f"nd {w} {k}" for w, k in v["inputs"]]
    o += [f"hash {m or '-'} {d}" for m, d in v["hashes"]]
    return "\n".join(o) + "\n"


class Outcome:
    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err
        m = re.search(r"REPLAY: violated: (.*)", out)
        self.violated = m.group(1) if m else None
        m = re.search(r"panicked at ([^\s:]+:\d+)", err)
        self.panic = m.group(1) if m else ("abort" if rc == -6 else None)
        self.obs = re.findall(r"OBS (\d+)", out)
        self.kind = {0: "ok", 42: "assert", 77: "assume"}.get(rc, "panic" if rc == -6 else f"exit {rc}")


def replay(driver, so, entry, cexfile, real=False):
    cmd = [driver, so, entry, cexfile] + (["real"] if real else [])
    env = {"PATH": "/usr/bin:/bin", "RUST_BACKTRACE": "0"}
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=env)
    except subprocess.TimeoutExpired:
        return Outcome(-9, "", "timeout")
    return Outcome(r.returncode, r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace"))
