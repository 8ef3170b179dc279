"""Builds everything a check needs from /repo's current working tree, under /verif/.build."""
import fcntl, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
TARGET = os.path.join(BUILD, "target")
EVAL = os.path.join(TARGET, "debug", "eval")
SERVER = os.path.join(TARGET, "debug", "prexel-server")
LIBSIM = os.path.join(BUILD, "libsim", "debug", "libsim")
SIMOS = os.path.join(BUILD, "libsimos.so")
LAUNCH = os.path.join(BUILD, "simlaunch")

class BuildError(Exception):
    pass

def cargo_env():
    e = dict(os.environ)
    home = e.get("HOME") or "/root"
    if os.path.isdir("/root/.cargo"):
        home = "/root"
    e["HOME"] = home
    e["PATH"] = home + "/.cargo/bin:/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_PROFILE_DEV_DEBUG"] = "line-tables-only"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e

def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        if os.path.isfile(d):
            files = [d]
        else:
            files = []
            for root, ds, fs in os.walk(d):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules"))
                files += [os.path.join(root, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode() + b"\0")
            try:
                with open(f, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
            except OSError:
                pass
    return h.hexdigest()

def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout

def _stamp(name):
    try:
        with open(os.path.join(BUILD, name)) as f:
            return f.read().strip()
    except OSError:
        return ""

def _set_stamp(name, v):
    with open(os.path.join(BUILD, name), "w") as f:
        f.write(v)

def ensure(need=("eval", "server", "libsim")):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = cargo_env()
        sd = os.path.join(VERIF, "simos")
        h = tree_hash([sd])
        if _stamp("simos.stamp") != h or not os.path.exists(SIMOS) or not os.path.exists(LAUNCH):
            _run(["gcc", "-O2", "-g", "-fPIC", "-shared", "-o", SIMOS, os.path.join(sd, "simos.c"), "-ldl", "-lpthread"])
            _run(["gcc", "-O2", "-o", LAUNCH, os.path.join(sd, "simlaunch.c")])
            _set_stamp("simos.stamp", h)
        repo_h = tree_hash([os.path.join(REPO, x) for x in ("Cargo.toml", "Cargo.lock", "eval", "prexel", "prexel-server")])
        pk = []
        if "eval" in need: pk.append(("eval", ["eval", "prexel"], EVAL))
        if "server" in need: pk.append(("prexel-server", ["prexel-server"], SERVER))
        for name, clean, out in pk:
            if _stamp(name + ".stamp") == repo_h and os.path.exists(out):
                continue
            # file times may be older than the last build: rebuild the repository's crates from content
            fp = os.path.join(TARGET, "debug", ".fingerprint")
            if os.path.isdir(fp):
                for x in os.listdir(fp):
                    if x.rsplit("-", 1)[0] in clean:
                        shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
            _run(["cargo", "build", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--target-dir", TARGET, "-p", name], env=env, cwd=REPO)
            if not os.path.exists(out):
                raise BuildError("no " + out)
            _set_stamp(name + ".stamp", repo_h)
        if "libsim" in need:
            ld = os.path.join(VERIF, "libsim")
            lh = tree_hash([os.path.join(REPO, "prexel"), ld])
            if _stamp("libsim.stamp") != lh or not os.path.exists(LIBSIM):
                lt = os.path.join(BUILD, "libsim")
                fp = os.path.join(lt, "debug", ".fingerprint")
                if os.path.isdir(fp):
                    for x in os.listdir(fp):
                        if x.rsplit("-", 1)[0] in ("libsim", "prexel"):
                            shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
                src = os.path.join(BUILD, "libsim-src")
                shutil.rmtree(src, ignore_errors=True)
                shutil.copytree(ld, src, ignore=shutil.ignore_patterns("target"))
                ct = os.path.join(src, "Cargo.toml")
                with open(ct) as f:
                    toml = f.read().replace("@REPO@", REPO)
                with open(ct, "w") as f:
                    f.write(toml)
                _run(["cargo", "build", "--offline", "--manifest-path", os.path.join(src, "Cargo.toml"), "--target-dir", lt], env=env, cwd=src)
                _set_stamp("libsim.stamp", lh)

if __name__ == "__main__":
    try:
        ensure(tuple(sys.argv[1:]) or (("eval", "server", "libsim") if os.path.isdir(os.path.join(VERIF, "libsim")) else ("eval", "server")))
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(3)
