"""Private, throw-away PostgreSQL servers running as the unprivileged postgres user."""
import ctypes
import os
import pwd
import resource
import shutil
import signal
import subprocess
import tempfile
import time

from . import build
from .build import InfraError
from .pg import DB, PgInfra

PDEATHSIG = 1


def _pg_user():
    try:
        p = pwd.getpwnam("postgres")
        return p.pw_uid, p.pw_gid
    except KeyError:
        raise InfraError("no postgres user")


def _child_setup():
    libc = ctypes.CDLL(None)
    libc.prctl(PDEATHSIG, signal.SIGQUIT, 0, 0, 0)
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


CONF = """
listen_addresses = ''
fsync = off
synchronous_commit = off
full_page_writes = off
autovacuum = off
shared_buffers = 24MB
max_connections = 12
max_worker_processes = 8
max_parallel_workers = 6
max_parallel_workers_per_gather = 0
jit = off
wal_level = minimal
max_wal_senders = 0
timezone = 'UTC'
datestyle = 'ISO, MDY'
intervalstyle = 'postgres'
log_min_messages = fatal
log_min_error_statement = panic
restart_after_crash = on
statement_timeout = '60s'
client_min_messages = error
max_stack_depth = '2MB'
huge_pages = off
checkpoint_timeout = 1h
max_wal_size = 8GB
"""

SESSION = ["SET timezone='UTC'", "SET extra_float_digits=1", "SET intervalstyle='postgres'"]


class Scratch:
    def __init__(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
        # sockets need a short path; data on tmpfs when there is one
        self.dir = tempfile.mkdtemp(prefix="vpck", dir=base)
        os.chmod(self.dir, 0o755)

    def remove(self):
        d = self.dir
        if os.path.basename(d).startswith("vpck"):
            shutil.rmtree(d, ignore_errors=True)


class Install:
    def __init__(self, scratch):
        pkg = build.build_extension()
        self.scratch = scratch
        self.bin = build.make_install(os.path.join(scratch.dir, "inst"), pkg)
        self.template = os.path.join(scratch.dir, "tmpl")
        uid, gid = _pg_user()
        os.mkdir(self.template, 0o700)
        os.chown(self.template, uid, gid)
        p = subprocess.run([os.path.join(self.bin, "initdb"), "-D", self.template, "-E", "UTF8",
                            "--locale=C.UTF-8", "-A", "trust", "--no-sync", "-U", "postgres"],
                           user=uid, group=gid, extra_groups=[], cwd="/",
                           env={"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "HOME": "/"},
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise InfraError("initdb failed: " + p.stdout[-2000:])


class Server:
    def __init__(self, install, idx, extra_conf=""):
        self.install = install
        self.dir = os.path.join(install.scratch.dir, "s%d" % idx)
        self.data = os.path.join(self.dir, "d")
        uid, gid = _pg_user()
        os.mkdir(self.dir, 0o755)
        os.chown(self.dir, uid, gid)
        subprocess.run(["cp", "-a", install.template, self.data], check=True)
        with open(os.path.join(self.data, "postgresql.conf"), "a") as f:
            f.write(CONF + extra_conf)
            f.write("unix_socket_directories = '%s'\n" % self.dir)
        self.log = open(os.path.join(self.dir, "log"), "wb")
        self.proc = subprocess.Popen([os.path.join(install.bin, "postgres"), "-D", self.data],
                                     user=uid, group=gid, extra_groups=[], cwd="/",
                                     env={"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "HOME": "/"},
                                     stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log,
                                     start_new_session=True, preexec_fn=_child_setup)
        self.base = "host=%s user=postgres connect_timeout=20 " % self.dir

    def connect(self, db="postgres"):
        if self.proc.poll() is not None:
            raise InfraError("server exited: " + self.tail())
        try:
            return DB(self.base + "dbname=" + db, SESSION)
        except PgInfra as e:
            raise InfraError("%s; log: %s" % (e, self.tail()))

    def ready(self):
        db = self.connect()
        db.q("CREATE EXTENSION timescaledb_toolkit")
        return db

    def tail(self):
        try:
            with open(os.path.join(self.dir, "log"), "rb") as f:
                return f.read()[-2000:].decode("utf8", "replace")
        except OSError:
            return ""

    def stop(self):
        if self.proc.poll() is None:
            self.proc.send_signal(signal.SIGQUIT)
            try:
                self.proc.wait(10)
            except subprocess.TimeoutExpired:
                os.killpg(self.proc.pid, signal.SIGKILL)
                self.proc.wait(10)
        self.log.close()
