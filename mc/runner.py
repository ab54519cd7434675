"""Runs Amanda programs on the real compiler and the real VM.

Every program gets a fresh forked process (the compiler keeps global state and
a VM abort ends the process), driven through the public command-line entry
point `amanda.__main__.main`, with its own scratch directory, stdin, stdout and
stderr.  The only thing replaced is the path of the VM's shared library: any
library whose file name contains "amanda" is the one built by mc/build.py; in
"compile" mode its `run_module` records the module instead of running it.
"""
import ctypes
import gc
import io
import os
import pickle
import resource
import selectors
import shutil
import signal
import struct
import sys
import tempfile
import traceback
from collections import namedtuple

from . import build

REPO = build.REPO
sys.dont_write_bytecode = True

# status: "exit" (code = exit code), "exception" (an uncaught Python exception;
# err ends in the traceback), "signal" (code = signal number), "timeout"
Result = namedtuple("Result", "status code out err blob")
Result.__new__.__defaults__ = (None,)

_RealCDLL = ctypes.CDLL
_so = None  # the VM built from the working tree
_capture = None  # in compile mode: called with the bytes of the module
_main = None
_snapshot = None


def _blob_of(arg, count):
    count = getattr(count, "value", count)
    if hasattr(arg, "_obj"):
        data = bytes(arg._obj)
    elif isinstance(arg, (bytes, bytearray)):
        data = bytes(arg)
    elif isinstance(arg, ctypes.Array):
        data = bytes(arg)
    else:
        data = ctypes.string_at(arg, count)
    return data[:count]


class _VmLib(_RealCDLL):
    def __init__(self, name=None, *a, **kw):
        if name is not None and "amanda" in os.path.basename(str(name)) and _so:
            name = _so
            if _capture is not None:

                def run_module(arg, count, *_):
                    _capture(_blob_of(arg, count))
                    return 0

                self.__dict__["run_module"] = run_module
        super().__init__(name, *a, **kw)


def load_repo(so):
    """Imports the code under test from /repo (once per process tree)."""
    global _so, _main, _snapshot
    _so = so
    if _main is None:
        ctypes.CDLL = _VmLib
        ctypes.cdll = ctypes.LibraryLoader(_VmLib)
        if sys.path[0] != REPO:
            sys.path.insert(0, REPO)
        import amanda.__main__ as main

        _main = main
        _snapshot = Snapshot()
    return _main


class Snapshot:
    """The state that the compiler keeps in its modules and classes, so that
    a process can run one program after another as if each were the first.
    What it misses only costs time: an unexpected result of a program that was
    not the first of its process is always confirmed in a fresh one."""

    def __init__(self):
        self.binds, self.boxes = [], []
        seen = set()
        for name, mod in list(sys.modules.items()):
            if mod is not None and name.split(".")[0] == "amanda":
                self._space(mod, vars(mod), seen, 0)

    def _space(self, owner, space, seen, depth):
        for k, v in list(space.items()):
            if k.startswith("__"):
                continue
            self.binds.append((owner, k, v))
            if id(v) in seen:
                continue
            if isinstance(v, (dict, list, set)):
                seen.add(id(v))
                self.boxes.append((v, v.copy()))
            elif depth < 3 and (v.__module__ if isinstance(v, type) else type(v).__module__ or "").split(".")[0] == "amanda":
                seen.add(id(v))
                d = getattr(v, "__dict__", None)
                if d:
                    self._space(v, d, seen, depth + 1)

    def restore(self):
        for owner, k, v in self.binds:
            if owner.__dict__.get(k, self) is not v:
                try:
                    setattr(owner, k, v)
                except (AttributeError, TypeError):
                    pass
        for v, old in self.boxes:
            if len(v) != len(old) or v != old:
                v.clear()
                v.extend(old) if isinstance(v, list) else v.update(old)


def call_cli(args):
    """One run of the command line in this process; returns its exit status."""
    old = sys.argv
    sys.argv = [os.path.join(REPO, "amanda", "__main__.py"), *args]
    try:
        _main.main()
        return 0
    except SystemExit as e:
        if e.code is None:
            return 0
        if isinstance(e.code, int):
            return e.code & 0xFF
        sys.stderr.write(str(e.code) + "\n")
        return 1
    finally:
        sys.argv = old


def _child(job):
    """Runs in the forked child; never returns."""
    global _capture
    code = 0
    try:
        if job.get("mode", "run") == "compile":
            # stop at the hand-over to the VM and report the module bytes
            def capture(blob):
                with open("out.amac", "wb") as f:
                    f.write(blob)

            _capture = capture
        for pre in job.get("before", ()):  # earlier runs in the same process
            call_cli([pre])
        code = call_cli([*job.get("flags", ()), job["entry"]])
    except BaseException:
        traceback.print_exc(limit=-6)
        code = 99
    try:
        sys.stdout.flush()
        sys.stderr.flush()
    except Exception:
        pass
    os._exit(code or 0)


class Worker:
    def __init__(self, so, folder=None):
        self.dir = folder or tempfile.mkdtemp(prefix="amarun-")
        self.made = []
        self.out = os.memfd_create("out")
        self.err = os.memfd_create("err")
        load_repo(so)

    def clean(self):
        for p in self.made:
            q = os.path.join(self.dir, p)
            if os.path.isdir(q) and not os.path.islink(q):
                shutil.rmtree(q, ignore_errors=True)
            else:
                try:
                    os.unlink(q)
                except OSError:
                    pass
        self.made = []

    def _prepare(self, job):
        for name, text in job["files"].items():
            p = os.path.join(self.dir, name)
            top = name.split("/")[0]
            if "/" in name:
                os.makedirs(os.path.dirname(p), exist_ok=True)
            if job.get("root"):  # programs that name files by their absolute path
                text = text.replace("@ROOT@", self.dir)
            with open(p, "wb") as f:
                f.write(text if isinstance(text, bytes) else text.encode("utf-8", "surrogatepass"))
            if top != "main.ama":
                self.made.append(top)
        for name, target in job.get("links", {}).items():
            os.symlink(target, os.path.join(self.dir, name))
            self.made.append(name)

    @staticmethod
    def _job(job):
        if isinstance(job, str):
            job = {"files": {"main.ama": job}}
        job = dict(job)
        if "src" in job:
            job["files"] = {"main.ama": job["src"]}
        job.setdefault("entry", "main.ama")
        return job

    def _setup_child(self, infd, timeout):
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        signal.setitimer(signal.ITIMER_REAL, timeout)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))
        os.dup2(infd, 0)
        os.dup2(self.out, 1)
        os.dup2(self.err, 2)
        sys.stdin = io.TextIOWrapper(io.FileIO(0, closefd=False), encoding="utf-8")
        sys.stdout = io.TextIOWrapper(io.FileIO(1, "w", closefd=False), encoding="utf-8", line_buffering=True)
        sys.stderr = io.TextIOWrapper(io.FileIO(2, "w", closefd=False), encoding="utf-8", errors="backslashreplace", line_buffering=True)

    def _reset(self):
        for fd in (self.out, self.err):
            os.ftruncate(fd, 0)
            os.lseek(fd, 0, os.SEEK_SET)

    def run(self, job):
        """Runs one job in a process of its own."""
        job = self._job(job)
        self._prepare(job)
        self._reset()
        stdin = job.get("stdin")
        if stdin is not None:
            infd = os.memfd_create("in")
            os.write(infd, stdin)
            os.lseek(infd, 0, os.SEEK_SET)
        else:
            infd = os.open("/dev/null", os.O_RDONLY)
        pid = os.fork()
        if pid == 0:
            try:
                os.chdir(os.path.join(self.dir, job.get("cwd", "")))
                self._setup_child(infd, job.get("timeout", 10))
                _child(job)
            finally:
                os._exit(98)
        _, st = os.waitpid(pid, 0)
        os.close(infd)
        out = self._read(self.out)
        err = self._read(self.err)
        blob = None
        if job.get("mode") == "compile":
            bp = os.path.join(self.dir, job.get("cwd", ""), "out.amac")
            if os.path.exists(bp):
                with open(bp, "rb") as f:
                    blob = f.read()
                os.unlink(bp)
        self.clean()
        if os.WIFSIGNALED(st):
            sig = os.WTERMSIG(st)
            status = "timeout" if sig == signal.SIGALRM else "signal"
            return Result(status, sig, out, err, blob)
        code = os.WEXITSTATUS(st)
        return Result("exception" if code == 99 else "exit", code, out, err, blob)

    def run_many(self, jobs):
        """Runs jobs one after another in one process (about four times the
        throughput of `run`). The compiler has process-wide state, so callers
        must confirm an unexpected result with `run`. Jobs with an input, a
        mode, or other special needs are run on their own."""
        res = [None] * len(jobs)
        todo = []
        for i, j in enumerate(jobs):
            j = self._job(j)
            if set(j) - {"files", "entry", "src"}:
                res[i] = self.run(j)
            else:
                todo.append((i, j))
        while todo:
            self._reset()
            rec = os.memfd_create("rec")
            pid = os.fork()
            if pid == 0:
                try:
                    os.chdir(self.dir)
                    infd = os.open("/dev/null", os.O_RDONLY)
                    self._setup_child(infd, 10)
                    for i, j in todo:
                        signal.setitimer(signal.ITIMER_REAL, 10)
                        self.made = []
                        self._prepare(j)
                        _snapshot.restore()
                        try:
                            code = call_cli([j["entry"]])
                        except BaseException:
                            traceback.print_exc(limit=-6)
                            code = 99
                        sys.stdout.flush()
                        sys.stderr.flush()
                        os.write(rec, b"%d %d %d\n" % (code, os.lseek(1, 0, 1), os.lseek(2, 0, 1)))
                        self.clean()
                    os._exit(0)
                finally:
                    os._exit(98)
            os.waitpid(pid, 0)
            out = self._read_raw(self.out)
            err = self._read_raw(self.err)
            done = self._read_raw(rec).decode().split("\n")[:-1]
            os.close(rec)
            po = pe = 0
            for (i, j), line in zip(todo, done):
                code, o, e = map(int, line.split())
                res[i] = Result(
                    "exception" if code == 99 else "exit", code,
                    out[po:o].decode("utf-8", "backslashreplace"), err[pe:e].decode("utf-8", "backslashreplace"))
                po, pe = o, e
            todo = todo[len(done):]
            if todo:  # the child died in this one
                i, j = todo.pop(0)
                self.made = [n.split("/")[0] for n in j["files"] if n != "main.ama"]
                self.clean()
                res[i] = self.run(j)
        return res

    @staticmethod
    def _read_raw(fd):
        n = os.fstat(fd).st_size
        return os.pread(fd, n, 0) if n else b""

    @staticmethod
    def _read(fd):
        n = os.fstat(fd).st_size
        return os.pread(fd, n, 0).decode("utf-8", "backslashreplace") if n else ""


def chunks(it, n):
    buf = []
    for x in it:
        buf.append(x)
        if len(buf) >= n:
            yield buf
            buf = []
    if buf:
        yield buf


class WorkerDied(Exception):
    pass


def _read_exactly(f, n, k):
    buf = b""
    while len(buf) < n:
        b = f.read(n - len(buf))
        if not b:
            raise WorkerDied(f"worker {k} died")
        buf += b
    return buf


class Pool:
    """Runs functions over the items of a generator on every core. Each
    worker is a fork of this process that generates all of the items and
    handles every n-th chunk of them, so nothing but results is pickled."""

    def __init__(self, profile="debug", procs=None):
        self.so = build.build_vm(profile)
        self.procs = procs or int(os.environ.get("VERIF_PROCS") or os.cpu_count() or 4)
        self.base = tempfile.mkdtemp(prefix="amarun-")
        load_repo(self.so)
        _RealCDLL(self.so)  # map the library once; the workers inherit it
        self.owner = os.getpid()

    def _worker(self, k, fn, gen, chunk, fd):
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        w = Worker(self.so, tempfile.mkdtemp(dir=self.base))
        with os.fdopen(fd, "wb") as pipe:

            def send(x):
                data = pickle.dumps(x)
                pipe.write(struct.pack("<Q", len(data)) + data)
                pipe.flush()

            for n, c in enumerate(chunks(gen(), chunk)):
                if n % self.procs == k:
                    send((n, fn(w, c)))
            send(None)

    def map(self, fn, gen, chunk=64):
        """Yields (chunk number, fn(worker, chunk)) in no particular order.
        `gen` is called to get the iterator of the items."""
        gc.collect()
        gc.freeze()
        procs = {}
        pids = []
        sel = selectors.DefaultSelector()
        try:
            for k in range(self.procs):
                r, wr = os.pipe()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        os.close(r)
                        self._worker(k, fn, gen, chunk, wr)
                        code = 0
                    except BaseException:
                        traceback.print_exc()
                    finally:
                        sys.stderr.flush()
                        os._exit(code)
                os.close(wr)
                pids.append(pid)
                f = os.fdopen(r, "rb", buffering=0)
                procs[k] = f
                sel.register(f, selectors.EVENT_READ, k)
            while procs:
                for key, _ in sel.select():
                    f, k = key.fileobj, key.data
                    (size,) = struct.unpack("<Q", _read_exactly(f, 8, k))
                    msg = pickle.loads(_read_exactly(f, size, k))
                    if msg is None:
                        sel.unregister(f)
                        f.close()
                        del procs[k]
                    else:
                        yield msg
        finally:
            for f in procs.values():
                f.close()
            for pid in pids:
                if procs:
                    try:
                        os.kill(pid, signal.SIGTERM)
                    except ProcessLookupError:
                        pass
                os.waitpid(pid, 0)
            gc.unfreeze()

    def close(self):
        if os.getpid() == self.owner:
            shutil.rmtree(self.base, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
