"""Build the extractor if needed and extract MIR facts from /repo's current tree."""
import os, subprocess, shutil, glob, sys, time, json, fcntl, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
CRATES = ["tower", "tower_layer", "tower_service", "tower_test"]


def base_env():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER",
              "LD_LIBRARY_PATH", "RUSTUP_TOOLCHAIN", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    env["HOME"] = "/root"
    env["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env["CARGO_INCREMENTAL"] = "0"
    env["CARGO_PROFILE_DEV_DEBUG"] = "line-tables-only"
    return env


def sysroot(env):
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=env, capture_output=True, text=True, check=True).stdout.strip()


def build_driver():
    env = base_env()
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver")
    r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline", "-q"], cwd=os.path.join(VERIF, "driver"), env=env,
                       capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stderr)
        raise SystemExit(2)
    return os.path.join(BUILD, "driver", "release", "mirx")


def source_digest():
    h = hashlib.sha256()
    for d in ("tower", "tower-layer", "tower-service", "tower-test"):
        for root, dirs, files in sorted(os.walk(os.path.join(REPO, d))):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".rs", ".toml", ".md")):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    for f in ("Cargo.toml", "Cargo.lock"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            h.update(open(p, "rb").read())
    with open(os.path.join(VERIF, "driver/src/main.rs"), "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()


class Extracted:
    pass


def extract(force=True):
    """Returns directory holding <crate>.json for each workspace crate."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        t0 = time.time()
        drv = build_driver()
        env = base_env()
        sr = sysroot(env)
        dig = source_digest()
        out = os.path.join(BUILD, "mir")
        stamp = os.path.join(out, "digest")
        if not force and os.path.exists(stamp) and open(stamp).read() == dig:
            return out
        tgt = os.path.join(BUILD, "target")
        for p in glob.glob(os.path.join(tgt, "debug/.fingerprint/tower*")) + glob.glob(os.path.join(tgt, "debug/build/tower*")):
            shutil.rmtree(p, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        env["CARGO_TARGET_DIR"] = tgt
        env["RUSTFLAGS"] = "-Zmir-opt-level=0 -Zalways-encode-mir -Awarnings"
        env["RUSTC_WORKSPACE_WRAPPER"] = drv
        env["LD_LIBRARY_PATH"] = os.path.join(sr, "lib")
        env["MIRX_OUT"] = out
        env["MIRX_CRATES"] = ",".join(CRATES)
        had_lock = os.path.exists(os.path.join(REPO, "Cargo.lock"))
        cmd = ["cargo", "+nightly", "check", "--offline", "-q", "--workspace", "--exclude", "examples", "--lib", "--all-features"]
        r = subprocess.run(cmd, cwd=REPO, env=env, capture_output=True, text=True)
        if r.returncode != 0:
            cmd = ["cargo", "+nightly", "check", "--offline", "-q", "-p", "tower", "-p", "tower-layer", "-p", "tower-service", "-p", "tower-test", "--lib", "--all-features"]
            r = subprocess.run(cmd, cwd=REPO, env=env, capture_output=True, text=True)
        if r.returncode != 0:
            sys.stderr.write(r.stderr[-6000:])
            sys.stderr.write("extract: /repo does not type-check\n")
            raise SystemExit(2)
        for c in CRATES:
            if not os.path.exists(os.path.join(out, c + ".json")):
                sys.stderr.write("extract: no facts for crate %s\n" % c)
                raise SystemExit(2)
        with open(stamp, "w") as f:
            f.write(dig)
        return out
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


if __name__ == "__main__":
    t = time.time()
    print(extract(force="--force" in sys.argv), round(time.time() - t, 1))
