"""Building the tools: the extractor and the bounded harness, always from /repo's current tree."""
import fcntl, hashlib, os, subprocess, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


def cargo_env(target):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    e["PATH"] = "/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin:" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TARGET_DIR"] = target
    e["CARGO_INCREMENTAL"] = "0"
    return e


def tree_hash(paths):
    h = hashlib.sha256()
    for top in paths:
        for d, ds, fs in os.walk(top):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                if f.endswith((".rs", ".toml", ".lock")):
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def run(cmd, cwd, env, timeout):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, text=True, errors="replace")
    return p.returncode, p.stdout


class BuildError(Exception):
    pass


def vxt():
    """Path of the extractor binary."""
    target = os.path.join(BUILD, "vxt")
    src = os.path.join(VERIF, "tools", "vxt")
    with Lock("vxt"):
        binp = os.path.join(target, "release", "vxt")
        stamp = os.path.join(target, "stamp")
        h = tree_hash([src])
        if not (os.path.exists(binp) and os.path.exists(stamp) and open(stamp).read() == h):
            if os.path.exists(stamp):
                run(["cargo", "clean", "--offline", "-p", "vxt", "--release"], src, cargo_env(target), 120)
            rc, out = run(["cargo", "build", "--release", "--offline"], src, cargo_env(target), 600)
            if rc != 0:
                raise BuildError("extractor does not build:\n" + out[-4000:])
            open(stamp, "w").write(h)
        return binp


def harness(full=True):
    """Path of the harness binary for the full or the minimal feature set."""
    name = "h-full" if full else "h-min"
    target = os.path.join(BUILD, name)
    src = os.path.join(VERIF, "harness")
    with Lock(name):
        binp = os.path.join(target, "debug", "vh")
        stamp = os.path.join(target, "stamp")
        h = tree_hash([REPO, src])
        if os.path.exists(binp) and os.path.exists(stamp) and open(stamp).read() == h:
            return binp
        env = cargo_env(target)
        if os.path.exists(target):
            # file times are not trusted: rebuild whatever comes from /repo or the harness
            for pkg in ("octane", "octane_http", "octane_macros", "vh"):
                run(["cargo", "clean", "--offline", "-p", pkg], src, env, 120)
        cmd = ["cargo", "build", "--offline"]
        if not full:
            cmd += ["--no-default-features"]
        rc, out = run(cmd, src, env, 800)
        if rc != 0:
            raise BuildError("harness or /repo does not build:\n" + out[-6000:])
        open(stamp, "w").write(h)
        return binp


def expanded(crate):
    """Path of the macro-expanded source of a crate of /repo, as the harness build compiles it."""
    harness(True)
    target = os.path.join(BUILD, "h-full")
    out = os.path.join(BUILD, "expanded", crate + ".rs")
    with Lock("h-full"):
        h = tree_hash([REPO])
        stamp = out + ".stamp"
        if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h:
            return out
        env = cargo_env(target)
        env["RUSTC_BOOTSTRAP"] = "1"
        os.makedirs(os.path.dirname(out), exist_ok=True)
        p = subprocess.run(["cargo", "rustc", "--offline", "-q", "-p", crate, "--lib", "--", "-Zunpretty=expanded"],
                           cwd=os.path.join(VERIF, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=600, text=True, errors="replace")
        if p.returncode != 0:
            raise BuildError("macro expansion of %s failed:\n%s" % (crate, p.stderr[-3000:]))
        open(out, "w").write(p.stdout)
        open(stamp, "w").write(h)
        return out
