"""C30: dialogue: what was written is out before the program waits, a line is taken as soon as it is complete, and an interruption ends the program at once."""
import fcntl
import itertools
import os
import select
import signal
import time

from mc import gen as g
from mc import model, runner
from mc.harness import Space, digest

PROP = "C30"
LEVEL = "model_checking"
RULE = ("a state is what was given to the program and what it has written when it waits, a transition is an event (a piece of the input, its end, a signal, a reader that takes a piece of the output or leaves); "
        "every program of the stated sets is run with every schedule of events of the stated sets, as a process with pipes, and what it has written is compared with the model before each event; two cases are distinct when the program or the schedule differ")
V, I, B, T, call = g.V, g.I, g.B, g.T, g.call
PATIENCE = 8.0  # seconds for what should happen at once


class Waits(BaseException):
    """The program waits for input that was not given yet."""


class Open(model.World):
    """The input is a pipe that is still open."""

    def read_line(self, line):
        if b"\n" not in self.stdin[self.pos:]:
            raise Waits
        return super().read_line(line)


class Talk:
    """events: ("give", bytes), ("close",), ("signal", number[, pause]), ("take", bytes), ("leave",), ("shut",). Before the
    first three, the program must have written all that it can; "shut" closes the input at any time."""
    __slots__ = ("label", "files", "events", "pipe", "start")

    def __init__(self, label, files, events, pipe=None, start=None):
        self.label, self.files, self.events, self.pipe, self.start = label, files, events, pipe, start


_progs = {}


def program(files):
    k = id(files)
    if k not in _progs:
        if len(_progs) > 300:
            _progs.clear()
        p = model.Program(files if isinstance(files, dict) else {"main.ama": files}, "main.ama")
        p.compile()
        _progs[k] = (p, files, {})
    p, _, memo = _progs[k]
    return p, memo


def run_model(p, memo, data, is_open):
    """(output, "waits" | None | error)"""
    key = (data, is_open)
    if key not in memo:
        w = (Open if is_open else model.World)(data, 200000)
        for m in p.modules.values():
            m.globals = {}
        try:
            for m in p.order:
                m.entry(w)
            end = None
        except Waits:
            end = "waits"
        except model.RT as e:
            end = model.expected_err((e.line, e.msg, e.trace))
        memo[key] = ("".join(w.out).encode(), end)
    return memo[key]


class Process:
    """The program in a process of its own, which is at the other end of pipes."""

    def __init__(self, worker, files, pipe):
        job = worker._job({"files": files})
        worker._prepare(job)
        worker._reset()
        self.worker = worker
        r0, self.stdin = os.pipe()
        self.stdout, w1 = os.pipe()
        if pipe:
            fcntl.fcntl(w1, fcntl.F_SETPIPE_SZ, pipe)
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.stdin)
                os.close(self.stdout)
                os.chdir(worker.dir)
                out, worker.out = worker.out, w1
                worker._setup_child(r0, 3 * PATIENCE)
                os.close(r0)
                os.close(w1)
                # as in any process that Python starts
                signal.signal(signal.SIGINT, signal.default_int_handler)
                runner._child(job)
            finally:
                os._exit(98)
        os.close(r0)
        os.close(w1)
        self.got = b""
        self.eof = False

    def read(self, n, deadline):
        """Reads up to n bytes; False when nothing comes."""
        left = deadline - time.monotonic()
        if left <= 0 or not select.select([self.stdout], [], [], left)[0]:
            return False
        b = os.read(self.stdout, n)
        if b:
            self.got += b
        else:
            self.eof = True
        return bool(b)

    def until(self, want):
        """Waits for the output to be `want`; what is wrong, or None."""
        deadline = time.monotonic() + PATIENCE
        while len(self.got) < len(want):
            if not self.read(65536, deadline):
                break
        if self.got == want:
            return None
        if want.startswith(self.got):
            return "ended too early" if self.eof else "what it wrote is not out when it waits for input"
        return "wrong output"

    def finish(self):
        """The rest of the output, and the status (None when it does not end)."""
        deadline = time.monotonic() + PATIENCE
        while not self.eof and self.stdout is not None:
            if not self.read(65536, deadline):
                break
        while True:
            pid, st = os.waitpid(self.pid, os.WNOHANG)
            if pid:
                self.pid = None
                return st
            if time.monotonic() > deadline:
                return None
            time.sleep(0.002)

    def close(self):
        for fd in (self.stdin, self.stdout):
            if fd is not None:
                os.close(fd)
        if self.pid:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
        self.worker.clean()


def is_wrong(c, worker):
    """Runs the case: (what is wrong, the states, the transitions, the class)."""
    p, memo = program(c.files)
    proc = Process(worker, p.src, c.pipe)
    data = b""
    steps = []
    cls = "completed"
    left = False

    def now():
        return c.start if c.start is not None else run_model(p, memo, data, True)[0]

    try:
        for ev in c.events:
            if ev[0] in ("give", "close", "signal"):
                bad = proc.until(now())
                if bad:
                    return bad, steps, cls, proc.got
            steps.append((data, proc.got[-40:], ev))
            if ev[0] == "give":
                try:
                    os.write(proc.stdin, ev[1])
                except BrokenPipeError:
                    pass
                data += ev[1]
            elif ev[0] in ("close", "shut"):
                os.close(proc.stdin)
                proc.stdin = None
            elif ev[0] == "signal":
                time.sleep(ev[2] if len(ev) > 2 else 0)
                os.kill(proc.pid, ev[1])
                st = proc.finish()
                if st is None:
                    return f"it goes on after the signal {ev[1]}", steps, cls, proc.got
                if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0:
                    return "exit status 0 after an interruption", steps, cls, proc.got
                if "panicked" in proc.worker._read(proc.worker.err):
                    return "a panic of the VM", steps, cls, proc.got
                if proc.got != now():
                    return "wrong output when it was interrupted", steps, cls, proc.got
                return None, steps, "interrupted", proc.got
            elif ev[0] == "take":  # the program waits for room to write
                end = len(proc.got) + ev[1]
                deadline = time.monotonic() + PATIENCE
                while len(proc.got) < end and proc.read(end - len(proc.got), deadline):
                    pass
            elif ev[0] == "leave":
                os.close(proc.stdout)
                proc.stdout = None
                left = True
        st = proc.finish()
        out, end = run_model(p, memo, data, False)
        if st is None:
            return "it does not end", steps, cls, proc.got
        if os.WIFSIGNALED(st):
            return f"ended by the signal {os.WTERMSIG(st)}", steps, cls, proc.got
        err = proc.worker._read(proc.worker.err)
        code = os.WEXITSTATUS(st)
        if code in (98, 99) or "panicked" in err:
            return "a crash", steps, cls, proc.got
        if left:
            # what the pipe can hold may be written after the reader's last piece
            return (None if code or len(out) <= len(proc.got) + c.pipe else "exit status 0, and not all of the output was taken"), steps, "the reader left", proc.got
        if proc.got != out:
            return "wrong output", steps, cls, proc.got
        if end is None and (code or err):
            return f"exit status {code}", steps, cls, proc.got
        if end is not None:
            cls = "runtime error"
            if err.strip("\n") != end.strip("\n") or not code:
                return "wrong runtime error", steps, cls, proc.got
        return None, steps, cls, proc.got
    finally:
        proc.close()


def judge(worker, cases):
    outs = []
    for c in cases:
        bad, steps, cls, got = is_wrong(c, worker)
        if bad:  # a busy machine is not a violation
            bad, steps, cls, got = is_wrong(c, worker)
        src = program(c.files)[0].src
        name = digest(sorted(src.items()))
        key = digest(name, repr(c.events))
        states = [digest(name, repr(s[:2])) for s in steps]
        o = {"key": key, "cls": cls, "obs": digest(got, cls), "bad": None, "label": c.label,
             "sample": {"program": src["main.ama"][-300:], "events": repr(c.events)[:300]},
             "steps": (set(states), {digest(s, repr(e[2])) for s, e in zip(states, steps)})}
        if bad:
            o["bad"] = {"what": bad, "label": f"{c.label}: {c.events!r}"[:300], "files": src, "events": repr(c.events), "got": {"stdout": got.decode("utf-8", "backslashreplace")[-2000:]}, "expected": "see the events"}
        outs.append(o)
    return outs


# ------------------------------------------------------------------ programs
def say(x):
    return ("mostra", ("fstr", ("<", x, ">")))


NONE = T("")
READS = {
    "leia": (say(call("leia", T("? ", "'"))),),
    "leia_int": (g.let("n@", "int", call("leia_int", T("int "))), say(V("n@"))),
    "leia_real": (say(call("leia_real", T("real ", "'"))),),
    "silent": (g.let("t@", "texto", call("leia", NONE)), say(V("t@"))),
}
WRITES = {
    "escreva": (g.do(call("escreva", T("a"))),),
    "escrevaln": (g.do(call("escrevaln", T("é"))),),
    "mostra": (("mostra", I(3)),),
    "lines": (g.do(call("escreva", T("x\ny", '"'))),),
}
OPS = {**READS, **WRITES}


def renamed(s, i):
    if isinstance(s, str):
        return s.replace("@", str(i))
    return tuple(renamed(x, i) for x in s) if isinstance(s, tuple) else s


def in_function(body):
    return (g.func("f", (), None, *body), g.do(call("f")))


def in_loop(body):
    return (("para", "k", I(0), I(2), None, body),)


def in_module(body):
    return {"main.ama": (("usa", "a.ama", "global", None), ("mostra", T("main"))), "a.ama": body}


def in_argument(body):
    return (g.func("g", (("a", "int"),), None, ("mostra", V("a"))), g.func("f", (), "int", *body, g.ret(I(7))), g.do(call("g", call("f"))))


HOSTS = {"main": lambda b: b, "function": in_function, "loop": in_loop, "module": in_module, "argument": in_argument}


def programs(depth, hosts, last=True):
    for names in itertools.product(OPS, repeat=depth):
        if not any(n in READS for n in names):
            continue
        body = ()
        for i, n in enumerate(names):
            body += renamed(OPS[n], i)
        for h in hosts:
            yield f"{' '.join(names)} in {h}", HOSTS[h](body)


def divisions(data):
    """Every way of giving the input in pieces."""
    n = len(data)
    for cuts in itertools.product((0, 1), repeat=max(n - 1, 0)):
        out, start = [], 0
        for i, c in enumerate(cuts):
            if c:
                out.append(data[start:i + 1])
                start = i + 1
        out.append(data[start:])
        yield tuple(("give", x) for x in out if x)


def byte_by_byte(data):
    return tuple(("give", data[i:i + 1]) for i in range(len(data)))


def pieces(depth, hosts, datas):
    def gen():
        for label, p in programs(depth, hosts):
            for data in datas:
                for d in divisions(data.encode()):
                    yield Talk(label, p, d + (("close",),))
    return gen


def bytewise(depth, hosts, datas):
    def gen():
        for label, p in programs(depth, hosts):
            for data in datas:
                yield Talk(label, p, byte_by_byte(data.encode()) + (("close",),))
    return gen


SIGNALS = (signal.SIGINT, signal.SIGTERM)


def interruptions(depth, hosts, datas):
    """A signal in each place where the program waits, with each beginning of the input."""
    def gen():
        for label, p in programs(depth, hosts):
            m, memo = program(p)
            for data in datas:
                data = data.encode()
                for n in range(len(data) + 1):
                    if run_model(m, memo, data[:n], True)[1] != "waits":
                        break
                    for s in SIGNALS:
                        yield Talk(label, p, ((("give", data[:n]),) if n else ()) + (("signal", int(s)),))
    return gen


def busy():
    """A signal while the program works, before the end of what it does."""
    big = I(10 ** 15)
    n = g.let("n", "int", I(0))
    up = put = g.put("n", B("+", V("n"), I(1)))
    loop = ("enquanto", g.TRUE, (up,))
    ps = {
        "enquanto": (n, loop),
        "empty enquanto": (("enquanto", g.TRUE, (g.do(I(1)),)),),
        "para": (("para", "i", I(0), big, None, (g.do(V("i")),)),),
        "nested para": (("para", "i", I(0), big, None, (("para", "j", I(0), big, None, (g.do(V("j")),)),)),),
        "condition": (n, ("enquanto", B(">=", call("f", V("n")), I(0)), (put,))),
        "calls": (("para", "i", I(0), big, None, (g.do(call("f", V("i"))),)),),
        "recursion": (("mostra", call("fib", I(60))),),
        "texts": (g.let("s", "texto", T("a")), ("enquanto", g.TRUE, (g.put("s", ("fstr", (V("n"),))), up))),
        "vectors": (g.let("v", ("vec", "int"), g.vec("int", I(1))), ("enquanto", g.TRUE, (g.put(g.idx(V("v"), I(0)), B("+", g.idx(V("v"), I(0)), I(1))),))),
        "escolha": (n, ("enquanto", g.TRUE, (("escolha", V("n"), ((I(1), (up,)),), (g.put("n", I(0)),)),))),
        "continua": (("enquanto", g.TRUE, (("se", g.TRUE, (("continua",),), (), None),)),),
    }
    pre = (g.func("f", (("a", "int"),), "int", g.ret(V("a"))),
           g.func("fib", (("a", "int"),), "int", ("se", B("<", V("a"), I(2)), (g.ret(V("a")),), (), (g.ret(B("+", call("fib", B("-", V("a"), I(1))), call("fib", B("-", V("a"), I(2))))),))))
    for name, body in ps.items():
        if name == "texts":
            body = (n,) + body
        for how in ("main", "function", "module", "after input"):
            b = (("mostra", T("a")), g.do(call("escreva", T("b"))))
            if how == "main":
                p = pre + b + body
            elif how == "function":
                p = pre + (g.func("w", (), None, *b, *body), g.do(call("w")))
            elif how == "module":
                p = {"main.ama": (("usa", "a.ama", "global", None), ("mostra", T("main"))), "a.ama": pre + b + body}
            else:
                p = pre + (g.do(call("leia", NONE)),) + b + body
            for s in SIGNALS:
                for pause in (0, 0.05):
                    ev = ()
                    if how == "after input":
                        ev = (("give", b"x\n"),)
                    yield Busy(name + " in " + how, p, ev + (("signal", int(s), pause),))


class Busy(Talk):
    """A program that never ends: what it shows before the loop is known."""


def judge_busy(worker, cases):
    outs = []
    for c in cases:
        # what comes before the loop, with the input that was given
        given = len(c.events) > 1
        talk = Talk(c.label, c.files, c.events, start=b"a\nb")
        if given:
            p, memo = program(c.files)
            memo.setdefault((b"", True), (b"", "waits"))
            memo.setdefault((b"x\n", True), (b"a\nb", "busy"))
            talk.start = None
        outs += judge(worker, [talk])
    return outs


def readers():
    """Programs that write more than the pipe holds, and readers that take it in pieces, or leave."""
    line = "0123456789" * 10
    ways = {"mostra": ("mostra", T(line)), "escreva": g.do(call("escreva", T(line))), "escrevaln": g.do(call("escrevaln", T("é" * 50))), "fstr": ("mostra", ("fstr", (V("i"), ":", V("i"))))}
    for name, st in ways.items():
        for n in (1, 40, 41, 100, 400):
            p = (("para", "i", I(0), I(n), None, (st,)), ("mostra", T("fim")))
            for size in (1, 100, 4095, 4096, 4097, 10000):
                yield Talk(f"{name} {n} read in pieces", p, tuple(("take", size) for _ in range(3)) + (("shut",),), pipe=4096)
            if n > 99:
                for after in (0, 1, 100, 101, 4096):
                    yield Talk(f"{name} {n} reader leaves", p, ((("take", after),) if after else ()) + (("leave",), ("shut",)), pipe=4096)
    for n in (4096, 65536, 200000):
        p = (g.let("v", ("vec", "int"), ("vec", "int", (I(n),))), ("mostra", V("v")), ("mostra", T("fim")))
        for size in (1, 4096, 65536, 100001):
            yield Talk(f"a vector of {n}", p, tuple(("take", size) for _ in range(3)) + (("shut",),), pipe=4096)
        yield Talk(f"a vector of {n}, reader leaves", p, (("take", 10), ("leave",), ("shut",)), pipe=4096)


def spaces(tier):
    q = tier == "quick"
    yield Space("pieces", f"every program of {'1 or 2' if q else 'up to 3'} of {len(OPS)} operations, every division of 3 inputs in pieces", lambda: itertools.chain(pieces(1, HOSTS, ("é\n2", "12\n3", "1\n\n"))(), pieces(2, ("main",) if q else HOSTS, ("é\n2", "1\n25\n", "1\n"))(), () if q else pieces(3, ("main",), ("é\n2\n", "1\n2\n3"))()), judge, 16)
    yield Space("byte by byte", f"every program of {'2' if q else '2 or 3'} operations in {len(HOSTS)} places, and of 3, inputs given one byte at a time", lambda: itertools.chain(bytewise(2, HOSTS, ("1\n2\n3\n4\n", "5\na\n"))(), bytewise(3, ("main",) if q else HOSTS, ("1\n2\n3\n",))()), judge, 16)
    yield Space("interruptions", f"2 signals in each place where each program of {'1 or 2' if q else 'up to 3'} operations waits, with each beginning of the input", lambda: itertools.chain(interruptions(1, HOSTS, ("1\n2\n3",))(), interruptions(2, ("main", "module") if q else HOSTS, ("1\n2\n",))(), () if q else interruptions(3, ("main",), ("1\n2\n3\n",))()), judge, 16)
    yield Space("busy", "2 signals while each of 11 programs that never end works, in 4 places, at 2 moments", busy, judge_busy, 2)
    yield Space("readers", "programs that write 1 to 400 lines or a long one, readers that take 3 pieces of 6 sizes, or leave", readers, judge, 4)
