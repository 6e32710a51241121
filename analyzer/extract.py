"""Obtain the resolved program (monomorphic MIR) of /repo's current working tree."""
import fcntl
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BCALC_REPO", "/repo")
BUILD = os.environ.get("BCALC_BUILD_DIR", os.path.join(VERIF, ".build"))


class ExtractError(Exception):
    pass


def _run(cmd, env=None, cwd=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def sysroot():
    rc, out = _run(["rustc", "+nightly", "--print", "sysroot"])
    if rc != 0:
        raise ExtractError("no nightly toolchain: " + out)
    return out.strip()


def driver_path():
    return os.path.join(BUILD, "driver", "release", "bcalc-mir-export")


def build_driver():
    d = os.path.join(VERIF, "driver")
    env = dict(os.environ)
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver")
    env.pop("RUSTC", None)
    env.pop("RUSTC_WORKSPACE_WRAPPER", None)
    rc, out = _run(["cargo", "+nightly", "build", "--release", "--offline", "--quiet"], env=env, cwd=d)
    if rc != 0:
        raise ExtractError("driver build failed:\n" + out)


def export(keep=None):
    """Type-check REPO with its own manifest and flags and return the exported program."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        build_driver()
        root = sysroot()
        tgt = os.path.join(BUILD, "deps")
        for f in glob.glob(os.path.join(tgt, "debug", ".fingerprint", "bcalc-*")):
            shutil.rmtree(f, ignore_errors=True)
        fd, out_file = tempfile.mkstemp(suffix=".json", dir=BUILD)
        os.close(fd)
        env = dict(os.environ)
        env.update(
            RUSTC=os.path.join(VERIF, "driver", "fake-stable-rustc.sh"),
            BCALC_NIGHTLY_RUSTC=os.path.join(root, "bin", "rustc"),
            RUSTC_WORKSPACE_WRAPPER=driver_path(),
            LD_LIBRARY_PATH=os.path.join(root, "lib"),
            CARGO_TARGET_DIR=tgt,
            MIR_EXPORT_OUT=out_file,
            RUSTC_BOOTSTRAP="-1",
        )
        env.pop("RUSTFLAGS", None)
        rc, out = _run(
            ["cargo", "+stable", "check", "--offline", "--locked", "--bin", "bcalc",
             "--manifest-path", os.path.join(REPO, "Cargo.toml")],
            env=env,
        )
        if rc != 0 or os.path.getsize(out_file) == 0:
            os.unlink(out_file)
            raise ExtractError("analysis build of the repository failed:\n" + out[-4000:])
        with open(out_file) as f:
            prog = json.load(f)
        if keep:
            shutil.copy(out_file, keep)
        os.unlink(out_file)
        return prog
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


if __name__ == "__main__":
    p = export(keep=sys.argv[1] if len(sys.argv) > 1 else None)
    print(len(p["fns"]), "bodies;", len(p["tys"]), "types;", len(p["impls"]), "impls")
