"""Build the extension from /repo's current working tree and lay out a private,
relocated PostgreSQL 16 installation that contains it."""
import fcntl
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
PGLIB = "/usr/lib/postgresql/16"
PGSHARE = "/usr/share/postgresql/16"


class InfraError(Exception):
    """Something the harness needs failed: never a verdict about the code."""


def toolchain_env():
    env = dict(os.environ)
    for k in ("CARGO_PGRX", "CARGO_PGRX_TEST_PGDATA", "CARGO_PGRX_TEST_RUNAS", "RUSTFLAGS"):
        env.pop(k, None)
    env.update({
        "PATH": "/root/.cargo/bin:/usr/local/bin:" + env.get("PATH", "/usr/bin:/bin"),
        "RUSTUP_TOOLCHAIN": "1.96.0",
        "RUSTC_WRAPPER": "",
        "CARGO_NET_OFFLINE": "true",
        "CARGO_TERM_COLOR": "never",
        "PGRX_HOME": "/opt/vp/pgrx-home",
        "CARGO_TARGET_DIR": os.path.join(BUILD, "target"),
        "CARGO_INCREMENTAL": "1",
        "CARGO_PROFILE_DEV_DEBUG": "0",
        # the shipped (release) configuration has neither of these
        "CARGO_PROFILE_DEV_DEBUG_ASSERTIONS": "false",
        "CARGO_PROFILE_DEV_OVERFLOW_CHECKS": "false",
    })
    return env


def build_extension(log=None):
    """Incremental build; returns the package root. The build happens outside /repo."""
    os.makedirs(BUILD, exist_ok=True)
    pkg = os.path.join(BUILD, "pkg")
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        # cargo's fingerprints go by mtime; make sure a tree restored with older
        # mtimes than our products (a checkout, an overlay) is still rebuilt.
        touch_if_changed()
        cmd = ["cargo", "pgrx", "package", "--debug", "--out-dir", pkg,
               "--no-default-features", "--features", "pg16",
               "-c", PGLIB + "/bin/pg_config"]
        p = subprocess.run(cmd, cwd=os.path.join(REPO, "extension"), env=toolchain_env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            sys.stderr.write(p.stdout[-8000:])
            raise InfraError("building the extension failed")
    return pkg


def source_files():
    out = []
    for base in ("extension", "crates", "tools"):
        for root, dirs, files in os.walk(os.path.join(REPO, base)):
            dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
            for f in sorted(files):
                if f.endswith((".rs", ".toml", ".control", ".pest", ".sql")):
                    out.append(os.path.join(root, f))
    return out


def touch_if_changed(man="sources.json", target="target"):
    """Keep a content manifest of the sources; when a file's content differs from the
    one built last but its mtime is not newer, drop that crate's fingerprint by
    removing nothing in /repo: we invalidate on our side only."""
    import hashlib
    import json
    man = os.path.join(BUILD, man)
    cur = {}
    for f in source_files():
        with open(f, "rb") as fh:
            cur[os.path.relpath(f, REPO)] = hashlib.sha256(fh.read()).hexdigest()
    try:
        with open(man) as fh:
            old = json.load(fh)
    except Exception:
        old = None
    if old is not None and old != cur:
        changed = {k for k in set(old) | set(cur) if old.get(k) != cur.get(k)}
        stale = set()
        for k in changed:
            parts = k.split("/")
            top = "/".join(parts[:3]) if k.startswith("crates/flat_serialize/") else (
                parts[0] if parts[0] == "extension" else "/".join(parts[:2]))
            toml = os.path.join(REPO, top, "Cargo.toml")
            name = None
            try:
                for line in open(toml):
                    if line.startswith("name"):
                        name = line.split("=")[1].strip().strip('"')
                        break
            except OSError:
                pass
            if name:
                stale.add(name)
        fp = os.path.join(BUILD, target, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                base = d.rsplit("-", 1)[0]
                if base in stale:
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    if old != cur:
        tmp = man + ".tmp"
        with open(tmp, "w") as fh:
            json.dump(cur, fh)
        os.replace(tmp, man)


def make_install(prefix, pkg):
    """Relocated PostgreSQL: real binaries, everything else symlinked, plus our build."""
    lib = os.path.join(prefix, "lib/postgresql/16")
    share = os.path.join(prefix, "share/postgresql/16")
    os.makedirs(os.path.join(lib, "bin"))
    os.makedirs(os.path.join(lib, "lib"))
    os.makedirs(os.path.join(share, "extension"))
    for b in ("postgres", "initdb"):
        shutil.copy2(os.path.join(PGLIB, "bin", b), os.path.join(lib, "bin", b))
    for f in os.listdir(os.path.join(PGLIB, "lib")):
        if not f.startswith("timescaledb_toolkit"):
            os.symlink(os.path.join(PGLIB, "lib", f), os.path.join(lib, "lib", f))
    for f in os.listdir(PGSHARE):
        if f != "extension":
            os.symlink(os.path.join(PGSHARE, f), os.path.join(share, f))
    for f in os.listdir(os.path.join(PGSHARE, "extension")):
        if not f.startswith("timescaledb_toolkit"):
            os.symlink(os.path.join(PGSHARE, "extension", f), os.path.join(share, "extension", f))
    src = os.path.join(pkg, "usr/lib/postgresql/16/lib/timescaledb_toolkit.so")
    shutil.copy2(src, os.path.join(lib, "lib/timescaledb_toolkit.so"))
    ext = os.path.join(pkg, "usr/share/postgresql/16/extension")
    for f in os.listdir(ext):
        shutil.copy2(os.path.join(ext, f), os.path.join(share, "extension", f))
    return os.path.join(lib, "bin")
