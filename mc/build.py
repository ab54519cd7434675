"""Builds the real VM (libamanda.so) from /repo's current working tree.

The crate sources are /repo/amanda/vm/src exactly as they are; only the two
external crates come from /verif/vendor (the versions pinned by the
repository's lock file are not available offline; see DESIGN.md).
"""
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".build")

CARGO_TOML = """[package]
name = "vm"
version = "0.1.0"
edition = "2018"

[dependencies]
unicode-segmentation = {{ path = "{verif}/vendor/unicode-segmentation-1.13.3" }}
rustc-hash = {{ path = "{verif}/vendor/rustc-hash-2.1.3" }}

[lib]
name = "amanda"
crate-type = ["cdylib"]
path = "{repo}/amanda/vm/src/lib.rs"

[profile.dev]
debug = 0
incremental = false

[workspace]
"""


def _tree_hash(profile):
    h = hashlib.sha256(profile.encode())
    for base in (os.path.join(REPO, "amanda/vm/src"), os.path.join(VERIF, "vendor")):
        for root, dirs, files in sorted(os.walk(base)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def build_vm(profile="debug"):
    """Returns the path of libamanda.so built from the current sources."""
    os.makedirs(CACHE, exist_ok=True)
    key = _tree_hash(profile)
    out = os.path.join(CACHE, f"libamanda-{profile}-{key}.so")
    if os.path.isfile(out):
        return out
    work = tempfile.mkdtemp(prefix="vmbuild-", dir=CACHE)
    try:
        with open(os.path.join(work, "Cargo.toml"), "w") as f:
            f.write(CARGO_TOML.format(verif=VERIF, repo=REPO))
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(work, "target"), RUSTFLAGS="-Awarnings")
        cmd = ["cargo", "build", "--offline", "--quiet"]
        if profile == "release":
            cmd.append("--release")
        r = subprocess.run(cmd, cwd=work, env=env, capture_output=True, text=True)
        so = os.path.join(work, "target", profile, "libamanda.so")
        if r.returncode != 0 or not os.path.isfile(so):
            sys.stderr.write(r.stdout + r.stderr)
            raise SystemExit("the VM could not be built from /repo/amanda/vm")
        tmp = out + f".{os.getpid()}.tmp"
        shutil.copy(so, tmp)
        os.replace(tmp, out)
        # keep the cache small
        old = sorted(
            (os.path.join(CACHE, n) for n in os.listdir(CACHE) if n.startswith("libamanda-")),
            key=os.path.getmtime,
        )
        for p in old[:-6]:
            os.unlink(p)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return out


if __name__ == "__main__":
    for p in sys.argv[1:] or ["debug"]:
        print(build_vm(p))
