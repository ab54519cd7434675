"""C26: the command line: what is run, what is written where, and the exit status. Every case is a real process."""
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile

from mc import runner
from mc.harness import VARIANT, Space, digest

PROP = "C26"
LEVEL = "exploration"
RULE = ("every combination of the stated programs, ways of naming the file, options, folders, streams and environments is run as a process of the command line; its standard output, exit status, the file and line of its "
        "diagnostic and the files that exist afterwards are compared with what the combination calls for; two cases are distinct when their files, arguments, streams or environment differ")
CLI = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mc", "cli.py")
CLEAN = {k: os.environ[k] for k in ("PATH", "HOME", "VERIF_REPO") if k in os.environ}


DIAG = re.compile(r'\nFicheiro "(?P<file>.*)", linha (?P<line>\d+)(?:: coluna \d+)?\n    .*\nErro(?: sint.*?tico)?: .*\.\n', re.S)


def parse_diag(err):
    """The only diagnostic: (file, line). Names of files can have any character."""
    m = DIAG.fullmatch(err)
    return m and err.count("\nErro") == 1 and (m["file"], int(m["line"])) or None


class Run:
    """out: the exact output, or None when it can be any prefix-free text; code: 0, 1 (any failure) or a
    number; diag: (file, line) of the only diagnostic; trace: text that the error output must contain."""

    __slots__ = ("label", "files", "links", "dirs", "fifos", "argv", "cwd", "env", "stdin", "out", "code", "diag", "err", "made", "streams", "twice", "asm")

    def __init__(self, label, files, argv, cwd="", env=None, stdin=None, out="", code=0, diag=None, err=None, made=(), links=None, dirs=(), fifos=(), streams=None, asm=None):
        self.label, self.files, self.argv, self.cwd, self.env, self.stdin, self.out, self.code, self.diag = label, files, argv, cwd, env or {}, stdin, out, code, diag
        self.err, self.made, self.links, self.dirs, self.fifos, self.streams, self.asm = err, made, links or {}, dirs, fifos, streams or {}, asm


def raw(x):
    return x if isinstance(x, bytes) else x.encode("utf-8", "surrogateescape")


def listing(root):
    found = set()
    for base, dirs, files in os.walk(root):
        for n in dirs + files:
            found.add(os.path.relpath(os.path.join(base, n), root))
    return found


def execute(c, root):
    """The exit code (negative: a signal), stdout, stderr and the files made."""
    for d in c.dirs:
        os.makedirs(os.path.join(root, d), exist_ok=True)
    for n, text in c.files.items():
        p = os.path.join(raw(root), raw(n))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(raw(text).replace(b"@ROOT@", raw(root)))
    for n, to in c.links.items():
        os.makedirs(os.path.dirname(os.path.join(root, n)), exist_ok=True)
        os.symlink(to.replace("@ROOT@", root), os.path.join(root, n))
    for n in c.fifos:
        os.mkfifo(os.path.join(root, n))
    os.makedirs(os.path.join(root, c.cwd), exist_ok=True)
    before = listing(root)
    argv = [raw(a).replace(b"@ROOT@", raw(root)) for a in c.argv]
    s = {"stdin": "null" if c.stdin is None else "data", "stdout": "pipe", "stderr": "pipe", **c.streams}
    close = [fd for fd, k in ((0, "stdin"), (1, "stdout"), (2, "stderr")) if s[k] == "closed"]
    opened = []

    def file_of(k):
        v = s[k]
        if v == "full":
            f = open("/dev/full", "wb")
        elif v == "gone":  # a pipe that nobody reads
            r, w = os.pipe()
            os.close(r)
            f = os.fdopen(w, "wb")
        elif v == "file":
            f = tempfile.TemporaryFile()
        elif v == "readonly":
            f = open("/dev/null", "rb")
        elif v == "writeonly":
            f = open("/dev/null", "wb")
        elif v == "folder":
            return os.open(root, os.O_RDONLY)
        elif v == "data file":
            f = tempfile.TemporaryFile()
            f.write(c.stdin or b"")
            f.flush()
            f.seek(0)
        elif v == "pipe" and k != "stdin" or v == "data":
            return subprocess.PIPE
        else:
            return subprocess.DEVNULL
        opened.append(f)
        return f

    fi, fo, fe = file_of("stdin"), file_of("stdout"), file_of("stderr")

    def child():
        for fd in close:
            os.close(fd)
        signal.alarm(20)

    try:
        p = subprocess.Popen([sys.executable, CLI, runner._so, *argv], stdin=fi, stdout=fo, stderr=fe, cwd=os.path.join(root, c.cwd), env={**CLEAN, "PYTHONDONTWRITEBYTECODE": "1", **c.env}, preexec_fn=child)
        out, err = p.communicate(c.stdin if fi == subprocess.PIPE else None)
        if s["stdout"] == "file":
            fo.seek(0)
            out = fo.read()
        if s["stderr"] == "file":
            fe.seek(0)
            err = fe.read()
    finally:
        for f in opened:
            f.close()
        if isinstance(fi, int) and fi >= 0:
            os.close(fi)
    made = listing(root) - before
    return p.returncode, out or b"", err or b"", made


def problem(c, root, code, out, err, made):
    out, err = out.decode("utf-8", "backslashreplace"), err.decode("utf-8", "backslashreplace")
    if code < 0:
        return f"ended by the signal {-code}"
    if "Traceback (most recent call last)" in err:
        return "an exception of Python"
    if "panicked" in err:
        return "a panic of the VM"
    if c.code == 0 and code != 0:
        return f"exit status {code}"
    if c.code == 1 and code == 0:
        return "exit status 0"
    if c.out is not None and VARIANT.sub("<Variante>", out) != c.out:
        return "wrong standard output"
    if c.diag is not None:
        d = parse_diag(err)
        if d is None:
            return "stderr is not exactly one diagnostic"
        seen, there = os.path.join(root, c.cwd, d[0]), os.path.join(root, c.diag[0])
        if not os.path.exists(seen) or not os.path.samefile(seen, there):
            return f"the diagnostic names the file {d[0]!r}"
        if d[1] != c.diag[1]:
            return f"the diagnostic is at line {d[1]} and not at line {c.diag[1]}"
    elif c.err is not None:
        if isinstance(c.err, str):
            if err.strip("\n") != c.err.strip("\n"):
                return "wrong text on stderr"
        elif not c.err[0].search(err):
            return "wrong text on stderr"
    if made != set(c.made):
        return f"the files {sorted(made)} were made, and not {sorted(c.made)}"
    for m in c.made:
        p = os.path.join(root, m)
        text = open(p, "rb").read()
        try:
            text = text.decode("utf-8")
        except UnicodeDecodeError:
            return "the debug file is not UTF-8"
        for w in c.asm or ():
            if w not in text:
                return f"the debug file does not have {w!r}"
    return None


def judge(worker, cases):
    outs = []
    for c in cases:
        for _ in range(2):  # a violation is confirmed
            root = os.path.realpath(tempfile.mkdtemp(prefix="cli", dir=worker.dir))
            try:
                got = execute(c, root)
                why = problem(c, root, *got)
            finally:
                shutil.rmtree(root, ignore_errors=True)
            if why is None:
                break
        code, out, err, made = got
        o = {"key": digest(sorted((repr(k), repr(v)) for k, v in c.files.items()), c.argv, c.cwd, sorted(c.env.items()), c.stdin, sorted(c.streams.items()), sorted(c.links.items())),
             "cls": "completed" if code == 0 else "rejected" if c.diag else "failed", "bad": None, "obs": digest(out, err.replace(root.encode(), b""), code), "label": c.label, "sample": c.label}
        if why:
            o["bad"] = {"what": why, "label": c.label, "files": {k: v if isinstance(v, str) else repr(v) for k, v in c.files.items()}, "entry": repr(c.argv), "stdin": repr(c.stdin), "more": {"env": c.env, "streams": c.streams, "cwd": c.cwd, "links": c.links},
                        "expected": {"stdout": c.out, "code": c.code, "diag": c.diag, "made": sorted(c.made)},
                        "got": {"code": code, "stdout": repr(out[:2000]), "stderr": err[-2000:].decode("utf-8", "backslashreplace"), "made": sorted(made)}}
        outs.append(o)
    return outs


SIB = 'func f(a: int): int\n  retorna a + 1\nfim\nfunc z(a: int): int\n  retorna 1 // a\nfim\n'
ANY = (re.compile("."),)
RUNTIME = (re.compile(r"Erro na linha 2: "),)
# name: (main, other files, input, output, exit, (file or "" for the main one, line) | None, stderr)
KINDS = {
    "shows": ("mostra 1\nmostra 'é'\n", {}, None, "1\né\n", 0, None, ""),
    "empty": ("", {}, None, "", 0, None, ""),
    "no line end": ("mostra 3", {}, None, "3\n", 0, None, ""),
    "reads": ("t: texto = leia('? ')\nmostra t\nmostra leia_int('') + 1\n", {}, b"ol\xc3\xa1\n41\n", "? olá\n42\n", 0, None, ""),
    "reads after the end": ("t: texto = leia('')\nmostra tam(t)\n", {}, b"", "0\n", 0, None, ""),
    "imports": ('usa "@D@b.ama" => m\nmostra m.f(1)\n', {"b.ama": SIB}, None, "2\n", 0, None, ""),
    "imports from a folder": ('usa "@D@lib/b.ama"\nmostra f(2)\n', {"lib/b.ama": 'usa "@D@lib/c.ama" => [g]\nfunc f(a: int): int\n  retorna g(a)\nfim\n', "lib/c.ama": "func g(a: int): int\n  retorna a * 10\nfim\n"}, None, "20\n", 0, None, ""),
    "imports the library": ('usa "mat" => m\nmostra m.teto(1.5)\n', {}, None, "2\n", 0, None, ""),
    "mistake": ("mostra 1\nmostra x\n", {}, None, "", 1, ("", 2), None),
    "syntax": ("mostra 1\n\nmostra )\n", {}, None, "", 1, ("", 3), None),
    "unknown character": ("mostra 1\nmostra $\n", {}, None, "", 1, ("", 2), None),
    "mistake in an import": ('usa "@D@b.ama" => m\nmostra 1\n', {"b.ama": "func f(a: int)\n  mostra a + 'a'\nfim\n"}, None, "", 1, ("b.ama", 2), None),
    "syntax in an import": ('usa "@D@lib/b.ama"\nmostra 1\n', {"lib/b.ama": "\n\n\nse\n"}, None, "", 1, ("lib/b.ama", 4), None),
    "import that does not exist": ('usa "@D@nada.ama" => m\nmostra 1\n', {}, None, "", 1, ("", 1), None),
    "import that is a folder": ('usa "@D@lib" => m\nmostra 1\n', {"lib/b.ama": SIB}, None, "", 1, ("", 1), None),
    "not UTF-8": (b"mostra 1\nmostra '\xff'\n", {}, None, "", 1, ("", 2), None),
    "import not UTF-8": ('usa "@D@b.ama" => m\nmostra 1\n', {"b.ama": b"# \xe9\nmostra 1\n"}, None, "", 1, ("b.ama", 1), None),
    "runtime error": ("mostra 5\nmostra 1 // 0\n", {}, None, "5\n", 1, None, RUNTIME),
    "runtime error at once": ("\nmostra [int: 1][1]\n", {}, None, "", 1, None, RUNTIME),
    "runtime error in an import": ('usa "@D@b.ama" => m\nmostra m.z(0)\n', {"b.ama": SIB}, None, "", 1, None, (re.compile("divi|zero|Erro"),)),
    "wrong input": ("mostra 7\nmostra leia_int('')\n", {}, b"x\n", "7\n", 1, None, RUNTIME),
    "long output": ("para i de 0..20000 faca\n  mostra i\nfim\n", {}, None, "".join(f"{i}\n" for i in range(20000)), 0, None, ""),
    "long output, error": ("para i de 0..5000 faca\n  mostra i\nfim\nmostra vec(int, 0)[1]\n", {}, None, "".join(f"{i}\n" for i in range(5000)), 1, None, (re.compile("Erro na linha 4: "),)),
    "no line end, error": ("escreva('abc')\nmostra 1 // 0\n", {}, None, "abc", 1, None, RUNTIME),
}
NAMES = ["main.ama", "\udcff.ama", "a\udce9b", "programa", "a b.ama", "olá.ama", "x.txt", ".ama", "日本.ama", "a'b\".ama", "b.c.ama", "a\\b.ama", "-x.ama", "main.py", "a\nb.ama", "%s{x}.ama", "@x", "usa", "mat", "mat.ama", "debug"]
# how the file d/NAME is named from each folder
FROM = {"": ["d/{}", "./d/{}", "d//{}", "d/../d/{}", "@ROOT@/d/{}", "@ROOT@//d/./{}", "e/../d/{}", "l/{}"], "d": ["{}", "./{}", "../d/{}", "@ROOT@/d/{}", ".//{}"], "e": ["../d/{}", "@ROOT@/d/{}", "../l/{}"], "d/f": ["../{}", "../../d/{}", "@ROOT@/d/f/../{}"]}
OPTIONS = {"": [], "-d": ["-d"], "--debug": ["--debug"], "--deb": ["--deb"], "-dd": ["-d", "-d"]}


def program(kind, name="main.ama", path="d/{}", cwd="", option="", after=False, env=None, streams=None, absolute=False, **more):
    main, others, stdin, out, code, diag, err = KINDS[kind]
    files = {"d/" + name: main, **{"d/" + k: v for k, v in others.items()}, "e/x": "", "d/f/x": ""}
    spelled = path.replace("{}", name)
    opts = OPTIONS[option]
    if absolute:
        at = "@ROOT@/d/"
    else:
        at = os.path.relpath("d", cwd or ".") + "/"
        at = "" if at == "./" else at
    files = {k: v.replace("@D@", at) if isinstance(v, str) else v.replace(b"@D@", at.encode()) for k, v in files.items()}
    argv = [spelled, *opts] if after else [*opts, spelled]
    if spelled.startswith("-"):
        argv = [*opts, "--", spelled]
    made = [os.path.join(cwd, "debug.amasm")] if opts and not diag else []
    if diag and not name.isprintable() and "\n" not in name:  # shown with escapes
        diag, err = None, (re.compile(r"linha %d\b" % diag[1]),)
    return Run(f"{kind}: {argv!a} from {cwd!r} {env or ''} {streams or ''}", files, argv, cwd, env, stdin, out, code, diag and ("d/" + (diag[0] or name), diag[1]), err, made, links={"l": "d"}, streams=streams, **more)


ENVS = [{"PYTHONHASHSEED": str(n)} for n in (0, 1, 2, 3, 1000)] + [
    {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"LANG": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"LC_ALL": "POSIX"}, {"LC_ALL": "C.UTF-8"}, {"LC_ALL": "nada"}, {"PYTHONUTF8": "1"}, {"PYTHONIOENCODING": "ascii"}, {"PYTHONIOENCODING": "latin-1"}, {"PYTHONIOENCODING": "utf-16"},
    {"PYTHONOPTIMIZE": "1"}, {"PYTHONOPTIMIZE": "2"}, {"PYTHONUNBUFFERED": "1"}, {"PYTHONDEVMODE": "1"}, {"PYTHONWARNINGS": "error"}, {"RUST_BACKTRACE": "1"}, {"TERM": "dumb", "COLUMNS": "20"}, {"HOME": "/nonexistent"}, {"TZ": "Asia/Tokyo"}, {"NO_COLOR": "1"}, {"PYTHONHASHSEED": "7", "PYTHONOPTIMIZE": "2", "LC_ALL": "C", "PYTHONUTF8": "0"},
    {"DEBUG": "1"}, {"AMANDA": "1"}, {"PYTHONPATH": "@none"},
]
# a program in which every construct is used, for what must not depend on the environment
ALL = """usa "@D@b.ama" => m
registo P
  n: int
  t: texto
fim
uniao U
  A,
  B(int),
  C(texto, int)
fim
met P::m(alvo, k: int): int
  alvo.n += k
  retorna alvo.n
fim
func g(u: U): texto
  retorna iguala u
    U::A => 'a'
    U::B(n) => f'<{n}>'
    U::C(t, n) => faca
      produz t
    fim
  fim
fim
p: P = P(n: 1, t: 'é')
mostra p.m(4) + m.f(1)
mostra [int: 1, 2, 3]
mostra g(U::A)
mostra g(U::B(3))
mostra g(U::C('ü', 1))
v: [[texto]] = vec(texto, 2, 2)
v[1][0] = 'x'
mostra v
x: indef = 3.5
mostra x :> real
o: int? = nulo
mostra o.valor_ou(7)
para i de 0..3 faca
  escolha i:
    caso 1:
      mostra 'um'
    senao:
      mostra i
  fim
fim
mostra 10 // 3, 10 % 3
"""
ALL_OUT = "7\n[1, 2, 3]\na\n<3>\nü\n[[, ], [x, ]]\n3.5\n7\n0\num\n2\n"
EVERY = ("every construct", ALL.replace("mostra 10 // 3, 10 % 3\n", ""), {"b.ama": SIB})


def spaces(tier):
    q = tier == "quick"
    KINDS["every construct"] = (EVERY[1], EVERY[2], None, ALL_OUT, 0, None, "")
    few = ["shows", "imports", "mistake", "runtime error", "mistake in an import"]

    def kinds():
        for k in KINDS:
            for o in OPTIONS:
                for after in (False, True) if o else (False,):
                    for cwd, path in [("", "d/{}"), ("d", "{}"), ("e", "../d/{}")] if q else [(c, p) for c in FROM for p in FROM[c]]:
                        yield program(k, path=path, cwd=cwd, option=o, after=after)

    def names():
        for n in NAMES:
            for k in few if q else KINDS:
                if n in ("mat", "mat.ama") and k == "imports the library":
                    continue  # the file of this name in the current folder comes first
                for cwd, path in [("", "d/{}"), ("d", "{}"), ("d/f", "@ROOT@/d/{}")] if q else [(c, p) for c in FROM for p in FROM[c]]:
                    yield program(k, n, path, cwd, "-d" if k == "shows" else "")

    def paths():
        for cwd in FROM:
            for path in FROM[cwd]:
                for k in few if q else KINDS:
                    yield program(k, "main.ama", path, cwd)

    def links():
        # the file is a link, or the folder of an import is
        for to in ["d/main.ama", "@ROOT@/d/main.ama", "k2"]:
            for name in ["k.ama", "e/k.ama"]:
                for k in ("shows", "mistake", "syntax", "runtime error", "reads", "long output", "imports the library"):
                    for o in ("", "-d"):
                        c = program(k, option=o)
                        if name[0] == "e" and not to.startswith("@"):
                            continue
                        c.links = {**c.links, name: to, "k2": "@ROOT@/d/main.ama"}
                        c.argv = [*OPTIONS[o], name]
                        c.label = f"link {name} to {to}: {k} {o}"
                        yield c
        for k in ("imports", "mistake in an import", "runtime error in an import", "import not UTF-8"):
            c = program(k)
            c.files["r/b.ama"] = c.files.pop("d/b.ama")
            c.links["d/b.ama"] = "../r/b.ama"
            c.label = f"link to an import: {k}"
            yield c
        for k in KINDS:
            if "import" in k:
                for cwd in FROM:
                    yield program(k, path=FROM[cwd][0], cwd=cwd, absolute=True)

    def nothing():
        fail = dict(code=1, out="", err=ANY)
        for o in OPTIONS:
            opts = OPTIONS[o]
            for what, argv, more in [
                ("missing", ["nada.ama"], {}), ("missing folder", ["nada/nada.ama"], {}), ("missing absolute", ["@ROOT@/nada.ama"], {}), ("folder", ["d"], {"dirs": ["d"]}), ("folder/", ["d/"], {"dirs": ["d"]}), ("this folder", ["."], {}), ("root", ["/"], {}), ("file/", ["x.ama/"], {"files": {"x.ama": "mostra 1\n"}}), ("file/x", ["x.ama/x"], {"files": {"x.ama": "mostra 1\n"}}),
                ("null", ["/dev/null"], {}), ("fifo", ["p"], {"fifos": ["p"]}), ("empty name", [""], {}), ("broken link", ["l"], {"links": {"l": "nada"}}), ("cyclic link", ["l"], {"links": {"l": "l"}}), ("long name", ["a" * 300], {}), ("long path", ["a/" * 3000], {}), ("space", [" "], {}), ("dash", ["-"], {}),
                ("no extension is added", ["x"], {"files": {"x.ama": "mostra 1\n"}}), ("nothing", [], {}), ("only --", ["--"], {}), ("two files", ["x.ama", "x.ama"], {"files": {"x.ama": "mostra 1\n"}}), ("three files", ["x.ama", "x.ama", "x.ama"], {"files": {"x.ama": "mostra 1\n"}}),
                ("unknown option", ["-x", "x.ama"], {"files": {"x.ama": "mostra 1\n"}}), ("unknown long option", ["--nada", "x.ama"], {"files": {"x.ama": "mostra 1\n"}}), ("option after", ["x.ama", "-x"], {"files": {"x.ama": "mostra 1\n"}}), ("value of an option", ["--debug=1", "x.ama"], {"files": {"x.ama": "mostra 1\n"}}), ("options joined", ["-dx", "x.ama"], {"files": {"x.ama": "mostra 1\n"}}),
                ("case of an option", ["-D", "x.ama"], {"files": {"x.ama": "mostra 1\n"}}),
            ]:
                yield Run(f"{what} {opts}", more.pop("files", {}), [*opts, *argv], **fail, **more)
        for a in (["-h"], ["--help"], ["-d", "-h"], ["-h", "nada"]):
            yield Run(f"help {a}", {}, a, out=None, code=0, err="")

    # what happens to the output that cannot be written
    def streams():
        for k in KINDS if not q else [*few, "long output", "reads", "empty", "long output, error", "syntax", "no line end, error"]:
            for so in ("pipe", "file", "closed", "full", "gone", "readonly"):
                for se in ("pipe", "file", "closed", "full", "gone", "readonly"):
                    if so == "pipe" and se == "pipe":
                        continue
                    c = program(k, streams={"stdout": so, "stderr": se})
                    lost = so in ("full", "gone") and c.out
                    if so not in ("pipe", "file"):
                        c.out = ""
                    if se not in ("pipe", "file"):
                        c.diag = c.err = None
                    if lost:
                        c.code, c.err = 1, ANY if se in ("pipe", "file") else None
                    elif so == "readonly" and c.code == 0 and KINDS[k][3]:
                        c.code = c.err = None  # as closed: a stream that is not open for writing
                    if so == "closed" and c.code == 0:
                        c.code = None
                        c.err = None
                    yield c

    def inputs():
        for k in KINDS if not q else ["shows", "reads", "reads after the end", "runtime error", "mistake", "empty", "wrong input"]:
            for si in ("null", "closed", "data file", "writeonly"):
                c = program(k, streams={"stdin": si})
                if si in ("writeonly", "closed") and k in ("reads", "reads after the end", "wrong input"):
                    c.code = c.err = c.out = None
                elif si == "null" and k in ("reads", "wrong input"):
                    c.code, c.out, c.err = 1, {"reads": "? \n", "wrong input": "7\n"}[k], ANY
                yield c

    def environments():
        for e in ENVS:
            for k in [*few, "every construct", "reads", "syntax", "not UTF-8"] if q else KINDS:
                c = program(k, env=e)
                if c.diag and e.get("PYTHONIOENCODING") == "utf-16":
                    c.diag = c.err = None
                yield c
            for n in ["olá.ama", "日本.ama"]:
                for k in ("shows", "imports", "runtime error", "mistake"):
                    c = program(k, n, option="-d", env=e)
                    if c.diag and ({"LC_ALL", "LANG"} & set(e) or "PYTHONIOENCODING" in e):
                        c.diag, c.err = None, (re.compile(r"linha 2\b"),)  # how the name is shown is up to the encoding
                        if e.get("PYTHONIOENCODING") == "utf-16":
                            c.err = None
                    yield c

    def debug():
        asm = ["f", "P", "U"]
        for e in ENVS[:3] + ENVS[5:7]:
            for cwd, path in [("", "d/{}"), ("d", "{}"), ("e", "../d/{}")]:
                yield program("every construct", cwd=cwd, path=path, option="-d", env=e, asm=asm)
        # the debug file replaces another one, and a failure to write it is reported
        for k in few if q else KINDS:
            c = program(k, option="-d")
            c.files["debug.amasm"] = "lixo\n" * 10000
            c.made = []
            yield c
            c = program(k, option="-d")
            c.dirs = ["debug.amasm"]
            c.made, c.code = [], 1
            if c.diag is None:
                c.out, c.err = "", ANY
            c.label += " debug.amasm is a folder"
            yield c
            c = program(k, option="-d")
            c.links["debug.amasm"] = "/dev/full"
            c.made, c.code = [], 1
            if c.diag is None:
                c.out, c.err = "", ANY
            c.label += " debug.amasm is full"
            yield c
            c = program(k, option="-d")
            c.links["debug.amasm"] = "nada/x"
            c.made, c.code = [], 1
            if c.diag is None:
                c.out, c.err = "", ANY
            c.label += " debug.amasm is a broken link"
            yield c

    yield Space("programs", f"{len(KINDS)} kinds of programs, every option, before and after the file", kinds, judge, 4)
    yield Space("names", f"{len(NAMES)} names of files", names, judge, 4)
    yield Space("paths", "every way of naming the file from 4 folders", paths, judge, 4)
    yield Space("links", "links to the program and to imports, imports by absolute paths", links, judge, 4)
    yield Space("nothing to run", "29 command lines that name no program, with every option; the help", nothing, judge, 4)
    yield Space("outputs", "6 kinds of standard output with 6 of standard error", streams, judge, 4)
    yield Space("inputs", "4 kinds of standard input", inputs, judge, 4)
    yield Space("environments", f"{len(ENVS)} environments", environments, judge, 4)
    yield Space("debug file", "every state of the debug file", debug, judge, 4)
