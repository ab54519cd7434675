"""C28: spaces, comments, line endings, `;` and the choice of names do not matter."""
import itertools
import re

from mc.harness import Space, Text, judge_texts

PROP = "C28"
LEVEL = "exploration"
RULE = ("every program of a corpus that has every construct, with each edit of its layout (or each renaming), at each place that the edit fits, alone and in pairs, is run: "
        "the output must be that of the program as written, and the lines of an error must follow the text; two cases are distinct when their sources differ")

# `~` before a newline: the end of a simple statement, which `;` can replace.
# `^`: a place inside of a construct where a new line can begin.
# Each program: (name, source, ("run", output, None | (line, message, trace)) | ("reject", line))
CORPUS = [
    ("expressions", """x: int = 2~
y: real = 1.5~
mostra x + 3 * -x - 7 // 2 % 4~
mostra (x + 1) * y / 2~
mostra nao (x < 3) == falso~
mostra (x >= 2) e (y != 1) ou falso~
mostra 2.0 :> int~
mostra nao verdadeiro ou nao falso~
""", ("run", '-7\n2.25\nverdadeiro\nverdadeiro\n2\nverdadeiro\n', None)),
    ("assignments", """x: int~
a, b: int~
v: [int] = [^int:^ 1,^ 2^]~
x = a = b = 3~
v[0] = x~
v[1] += x~
x -= 1~
x *= 4~
mostra v[0]; mostra v[1]~
mostra x; mostra a; mostra b~
w: [[int]] = [[int]: [int: 1], [int:^]]~
w[0][0] = 5~
mostra w[0][0]~
z: [int] = vec(^int,^ 2^)~
anexa(^z,^ 7^)~
mostra tam(z)~
""", ("run", '3\n5\n8\n3\n3\n5\n3\n', None)),
    ("control", """x: int = 0~
se x == 0 entao
  mostra 1~
senaose x == 1 entao
  mostra 2~
senao
  mostra 3~
fim
se x != 0 entao mostra 4~
fim
para i de 0..6 inc 2 faca
  se i == 2 entao
    continua~
  fim
  mostra i~
fim
para i de 0..2 faca mostra i~
fim
enquanto verdadeiro faca
  x += 1~
  se x > 2 entao
    quebra~
  fim
fim
escolha x:
  caso 1:
    mostra 'um'~
  caso 1 + 2:
    mostra 'tres'~
    mostra 'sim'~
  senao:
    mostra 'outro'~
fim
escolha x:
  caso 4: mostra 'quatro'~
  senao: mostra 'nada'~
fim
mostra x~
""", ("run", '1\n0\n4\n0\n1\ntres\nsim\nnada\n3\n', None)),
    ("functions", """func soma(^a: int,^ b: int^): int
  c: int = a + b~
  retorna c~
fim
func nada()
  retorna~
fim
func fact(n: int): int
  se n < 2 entao
    retorna 1~
  fim
  retorna n * fact(^n - 1^)~
fim
nada()~
mostra soma(^1,^ soma(^2,^ 3^)^)~
mostra fact(5) - soma(1, 1)~
func um(): int retorna 1~
fim
mostra um(^)~
""", ("run", '6\n118\n1\n', None)),
    ("records", """registo P
  n: int~
  t, u: texto~
  o: P?~
fim
registo Q p: P~
fim
met P::muda(^alvo,^ k: int^): int
  alvo.n += k~
  retorna alvo.n~
fim
p: P = P(^n: 1,^ t: 'a',^ u: 'b',^ o: nulo^)~
q: Q = Q(^p: p^)~
q.p.n = 4~
q.p.t = 'z'~
mostra p.muda(^2^)~
mostra p.t~
p.o = P(n: 2, t: 'c', u: 'd', o: p)~
mostra p.o != nulo~
mostra p.o.valor.u~
met int::dobro(alvo): int
  retorna alvo * 2~
fim
mostra p.n.dobro().dobro()~
""", ("run", '6\nz\nverdadeiro\nd\n24\n', None)),
    ("unions", """uniao Cor^ A,^ B^ fim
uniao F
  N^,
  C(^int^),
  R(^int^,^ texto^)
fim
f: F = F::R(1, 'x')~
func ver(f: F): int
  r: int = iguala f^
    F::N =>^ 0^
    F::C(n) =>^ n^
    F::R(k, t) => faca
      mostra t~
      produz k + 1~
    fim^
  fim~
  retorna r~
fim
mostra ver(f)~
mostra ver(F::N) + ver(F::C(5))~
iguala 3^
  1 => 'a'^
  3 => faca
    mostra 'tres'~
    produz 'b'~
  fim^
  outro => 'c'^
fim
se iguala f => F::R(a, b) entao
  mostra a~
senao
  mostra 9~
fim
mostra Cor::A~
""", ("run", 'x\n2\n5\ntres\n1\n<Variante(0)>\n', None)),
    ("outer names", """a: int = 3~
uniao U^ A,^ B(^int,^ U?^)^ fim
u: U = U::B(1, nulo)~
func id(x: U): U
  retorna x~
fim
func h(b: int, c: U): int
  d: int = 5~
  se iguala c => U::B(k, o) entao
    b += k + d~
  senao
    b = b * 10 + d~
  fim
  w: int = iguala id(c)^
    U::B(n, p) => n + b + d^
    U::A => faca
      mostra b~
      produz d - b~
    fim^
  fim~
  para i de b - d..b inc b - 5 faca
    d += i - b~
  fim
  escolha b - d:
    caso d:
      mostra d~
    senao:
      mostra f'{b} {d} {w}'~
  fim
  retorna b + d + w + a~
fim
mostra h(1, u)~
mostra h(a, U::A)~
se iguala a => 4 entao
  mostra 0~
senao
  mostra a + h(0, u)~
fim
mostra iguala a + 1^
  q => a + q^
fim
""", ("run", "7 -4 13\n19\n35\n35 0 -30\n8\n6 -10 12\n14\n7\n", None)),
    ("options", """o: int? = nulo~
mostra o.valor_ou(^4^)~
o = 5~
mostra o.valor~
mostra o == nulo~
i: indef = 'abc'~
mostra i :> texto~
x: int = 3~
mostra f'<{x}> {o.valor + 1} {{ [{ x - 1 }]'~
mostra 'a # b'~
mostra "c 'd'  e	f"~
""", ("run", "4\n5\nfalso\nabc\n<3> 6 { [2]\na # b\nc 'd'  e\tf\n", None)),
    ("imports", """usa 'm.ama' => md
usa 'm.ama' => [soma, menos]
usa 'n.ama'~
mostra md.soma(^1,^ 2^)~
mostra soma(3, 4) - menos(5)~
p: md.P = md.P(^n: 3^)~
mostra p.n~
mostra outra()~
""", ("run", '3\n12\n3\n8\n', None)),
    ("runtime error", """mostra 1~
func f(a: int): int
  x: int = 2~
  y: int = 8 // a~
  retorna x + y~
fim
mostra f(4)~
registo P
  n: int~
fim
met P::m(alvo): int
  se alvo.n == 0 entao
    retorna f(alvo.n)~
  fim
  retorna 2~
fim
mostra P(n: 1).m()~
mostra P(n: 0).m()~
mostra 2~
""", ("run", '1\n4\n2\n', (18, "não pode dividir um número por zero", (("f", 4), ("P::m", 13))))),
    ("index error", """v: [int] = [int: 1, 2]~
i: int = 0~
enquanto verdadeiro faca
  mostra v[i]~
  i += 1~
fim
mostra 3~
""", ("run", '1\n2\n', (4, "Erro de índice inválido. O tamanho do vector é 2, mas tentou aceder o índice 2", ()))),
    ("type error", """x: int = 1~
func f(): int
  mostra x~
  retorna 1~
fim
se x == 1 entao
  x = 'a'~
fim
mostra f()~
""", ("reject", 7)),
    ("unknown name", """mostra 1~
registo P
  n: int~
fim
para i de 0..2 faca
  mostra i~
  mostra zz~
fim
""", ("reject", 7)),
    ("syntax error", """mostra 1~
func f(): int
  retorna 1~
fim
mostra )~
mostra f()~
""", ("reject", 5)),
    ("not exhaustive", """uniao U^ A,^ B^ fim
u: U = U::A~
mostra 1~
mostra iguala u
  U::A => 1
fim
mostra 2~
""", ("reject", 4)),
]
FILES = {"m.ama": "registo P\n  n: int\nfim\nfunc soma(a: int, b: int): int\n  retorna a + b\nfim\nfunc menos(a: int): int\n  retorna -a\nfim\n", "n.ama": "func outra(): int\n  retorna 8\nfim\n"}
WORD = re.compile(r"[~^]|#.*|f?\"[^\"]*\"|f?'[^']*'|\d+\.\d+|\w+|::|:>|=>|\.\.|//|[+\-*/<>=!]=|\n| +|.")


class Program:
    """`parts`: the source, one piece for each token; `gaps[i]`: what stands
    between tokens i-1 and i: (spaces, kind), with kind "" inside of a line,
    "~" the end of a simple statement, "n" another end of a line, and "^" a
    place inside of a construct where a line may end."""

    def __init__(self, name, src, expect):
        self.name, self.expect = name, expect
        self.tokens, self.gaps = [], []
        gap, kind = "", ""
        for w in WORD.findall(src):
            if w == "~" or w == "^":
                kind = w
            elif w == "\n":
                if not kind:
                    kind = "n"
                gap += w
            elif w.strip(" ") == "":
                gap += w
            else:
                self.gaps.append((gap, kind))
                self.tokens.append(w)
                gap, kind = "", ""
        self.gaps.append((gap, kind))
        self.source = self.text({})

    def text(self, edits, tokens=None):
        out = ""
        for i, t in enumerate(tokens or self.tokens):
            out += edits.get(i, self.gaps[i][0]) + t
        n = len(self.tokens)
        return out + edits.get(n, self.gaps[n][0])

    def case(self, label, edits):
        """The lines of the error move with the token that begins its line."""
        src = self.text(edits)
        return self.made(f"{self.name}: {label}", src, self.mapping(edits))

    def mapping(self, edits):
        """Old line -> (first, last) new line of the tokens that it had."""
        old = new = 1
        lines = {}
        for i, t in enumerate(self.tokens):
            old += self.gaps[i][0].count("\n")
            new += newlines(edits.get(i, self.gaps[i][0]))
            a, b = lines.get(old, (new, new))
            lines[old] = (min(a, new), max(b, new))
        return lines

    def made(self, label, src, lines):
        files = dict(FILES, **{"main.ama": src}) if "usa" in self.tokens else src
        e = self.expect
        if e[0] == "reject":
            return Text(label, files, ("reject", "main.ama", lines[e[1]]))
        if e[2] is None:
            return Text(label, files, e)
        line, msg, trace = e[2]
        places = [line] + [l for _, l in trace]
        if any(lines[l][0] != lines[l][1] for l in places):
            return None  # on either of the lines of the construct: not this property
        return Text(label, files, ("run", e[1], (lines[line][0], msg, tuple((f, lines[l][0]) for f, l in trace))))


def newlines(s):
    return s.replace("\r\n", "\n").replace("\r", "\n").count("\n")


PROGRAMS = [Program(*p) for p in CORPUS]
INLINE = ["", " ", "\t", "   ", " \t "]
BREAK = ["\n", "\n\n  ", " # c\n", "\n# c\n  "]
LINE = ["\n", "\n\n", "\n \t\n", "\n# c\n", " # c\n", "#\n", "\t\n", "\r\n", "\r", "\n\n\n# fim \"'{ \n\n", "\n\t", "\n       ", "\r\n# c\r\n", " \r\n \r\n"]
STOP = [";", "; ", " ;", ";\n", " ; # c\n", "\t;\t\n\n"]
FIRST = ["", "\n", "# c\n", "  ", "\n\n", "\t# c\n  ", "\r\n", "#\n#\n"]
LAST = ["", "\n", "\n\n", " ", "# c", "\n# c", "\n  ", "\r\n", " # c\n", "\n#", "\n\t\n"]
COMMENTS = ["", " ", "#", " fim", " '", ' "', " {x}", " \\", " é😀", " mostra 1; x = 2", "!", " @@x", "\t", " a # b", ";", "'a", " f'", "=>", " \\n", "(", " ç" * 200]


def separate(a, b):
    return WORD.findall(a + b) == [a, b]


def variants(p, i):
    """What can stand in gap i of a program."""
    if i == 0:
        return FIRST
    if i == len(p.tokens):
        return LAST + (STOP if p.gaps[i][1] == "~" else [])
    gap, kind = p.gaps[i]
    out = []
    if kind in ("", "^"):
        out += [x for x in INLINE if x or separate(p.tokens[i - 1], p.tokens[i])]
    if kind == "^":
        out += BREAK
    if kind in ("n", "~"):
        out += LINE
    if kind == "~":
        out += STOP
    return [x for x in out if x != gap]


def one(p):
    for i in range(len(p.gaps)):
        for x in variants(p, i):
            yield f"{x!r} in {i}", {i: x}


def uniform(p, choose):
    """The same choice in every gap."""
    return {i: choose(p, i) for i in range(len(p.gaps))}


def least(p, i):
    kind = p.gaps[i][1]
    if i == 0:
        return ""
    if i == len(p.tokens):
        return ""
    return "\n" if kind == "n" else ";" if kind == "~" else "" if separate(p.tokens[i - 1], p.tokens[i]) else " "


def style(inner, brk, end, stop=None):
    def f(p, i):
        gap, kind = p.gaps[i]
        if i == 0:
            return ""
        if kind in ("n", "~") or i == len(p.tokens):
            return stop if kind == "~" and stop else end
        if kind == "^" and brk is not None:
            return brk
        if gap == "" and not inner:
            return ""
        return inner or gap
    return f


STYLES = [
    ("least", least), ("tabs", style("\t", None, "\n\t")), ("breaks", style(None, "\n", "\n")), ("breaks and blank lines", style(" ", "\n\n", "\n\n")), ("comments", style(None, " # c\n", " # c\n")),
    ("carriage returns", style(None, None, "\r\n")), ("carriage returns and breaks", style(None, "\r\n", "\r\n")), ("old line ends", style(None, "\r", "\r")), ("semicolons", style(None, None, "\n", ";")),
    ("semicolons and lines", style(None, None, "\n", " ;\n")), ("wide", style("     ", None, "\n            ")), ("comment lines", style(None, "\n#(\n", "\n# c\n# fim\n")), ("no indentation", style(None, None, "\n")), ("everything", style("\t ", "#'\r\n\t", "\r\n#\"\r\n", " ; #;\r\n\r\n")),
]


def styles():
    for p in PROGRAMS:
        for name, f in STYLES:
            yield p.case(f"style {name}", uniform(p, f))


def singles(bases=(None,)):
    def gen():
        for p in PROGRAMS:
            yield p.case("as written", {})
            for b in bases:
                base = uniform(p, dict(STYLES)[b]) if b else {}
                for label, e in one(p):
                    yield p.case(f"{b or 'one edit'}: {label}", {**base, **e})
    return gen


def pairs(dist, few):
    """Edits of two gaps at most `dist` apart."""
    def gen():
        for p in PROGRAMS:
            for i in range(len(p.gaps)):
                for j in range(i + 1, min(i + 1 + dist, len(p.gaps))):
                    for x in variants(p, i):
                        for y in variants(p, j):
                            if not few or (x in few and y in few):
                                yield p.case(f"{x!r} in {i}, {y!r} in {j}", {i: x, j: y})
    return gen


def comments():
    for p in PROGRAMS:
        for i in range(len(p.gaps)):
            kind = p.gaps[i][1]
            if kind or i in (0, len(p.tokens)):
                for c in COMMENTS:
                    yield p.case(f"comment {c[:20]!r} in {i}", {i: "#" + c + "\n" if i == 0 else " #" + c + "\n"})


BUILTIN = {"int", "real", "texto", "bool", "indef", "vec", "tam", "anexa", "valor", "valor_ou"}
RESERVED = set("mostra e ou nao verdadeiro falso caso retorna produz se senao senaose escolha entao enquanto para faca de continua quebra usa como alvo registo iguala inc fim func met nulo vazio nativa uniao classe".split())
NEW = ["_", "_target_", "_m0_", "_m1_", "_m2_", "_t0_", "_t1_", "_t5_", "_r0_0_", "_r1_0_", "_r1_1_", "_r2_0_", "__init__", "self", "Se", "fimx", "_fim", "mostra_", "E", "É", "ou_", "f", "ff", "x1", "_1", "None", "True", "len", "main", "_inicio_", "Int", "texto_", "valor_", "tam2", "T", "alvo1", "ação", "ñ", "变量", "ª", "idx", "__main__", "args", "str", "locals", "r" * 255, "r" * 256, "r" * 300]


def rename(p, names):
    """The program (all of its files) with its names replaced."""
    def word(w):
        return re.sub(r"[^\W\d]\w*", lambda m: names.get(m[0], m[0]), w)

    def token(t):
        if t[0] == "f" and t[1:2] in ("'", '"'):
            return re.sub(r"\{[^{}]*\}", lambda m: word(m[0]), t)
        return t if t[0] in "'\"#" else word(t)

    def source(s):
        return "".join(w if w.strip(" \n") == "" else token(w) for w in WORD.findall(s))

    c = p.made("", p.text({}, [token(t) for t in p.tokens]), p.mapping({}))
    for f in c.files:
        if f != "main.ama":
            c.files[f] = source(c.files[f])
    if c.expect[0] == "run" and c.expect[2]:
        line, msg, trace = c.expect[2]
        c.expect = ("run", c.expect[1], (line, msg, tuple((word(f), l) for f, l in trace)))
    return c


def names_of(p):
    text = p.source + ("".join(FILES.values()) if "usa" in p.tokens else "")
    out = []
    for t in WORD.findall(text):
        if re.fullmatch(r"[^\W\d]\w*", t) and t not in RESERVED and t not in BUILTIN and t not in out:
            out.append(t)
    return out


def renamings(pair):
    def gen():
        for p in PROGRAMS:
            ns = names_of(p)
            for n in ns:
                for new in NEW:
                    if new not in ns:
                        c = rename(p, {n: new})
                        c.label = f"{p.name}: {n} is {new[:20]}"
                        yield c
            for a, b in itertools.combinations(ns, 2):
                c = rename(p, {a: b, b: a})
                c.label = f"{p.name}: {a} and {b} exchanged"
                yield c
                if pair:
                    for x, y in itertools.permutations([n for n in NEW if n not in ns][:14], 2):
                        c = rename(p, {a: x, b: y})
                        c.label = f"{p.name}: {a} is {x}, {b} is {y}"
                        yield c
    return gen


def some(gen):
    return lambda: (c for c in gen() if c is not None)


def spaces(tier):
    q = tier == "quick"
    n = len(PROGRAMS)
    yield Space("one edit", f"{n} programs, with every other content of each of the gaps between their tokens", some(singles()), judge_texts, 100)
    yield Space("styles", f"{n} programs, in {len(STYLES)} styles", some(styles), judge_texts, 20)
    yield Space("comments", f"{len(COMMENTS)} comments, at each place where a line can end", some(comments), judge_texts, 100)
    yield Space("edits of styles", f"every edit of a gap of the programs in {'3' if q else 'each'} styles", some(singles(["least", "breaks", "everything"] if q else [s for s, _ in STYLES])), judge_texts, 100)
    few = ["", "\t", "\n", " # c\n", "\n\n", ";", "\r\n"]
    yield Space("two edits", f"{len(few)} contents in each two gaps at most {2 if q else 12} apart", some(pairs(2 if q else 12, few)), judge_texts, 100)
    if not q:
        yield Space("two near edits", "every two contents of each two adjacent gaps", some(pairs(1, None)), judge_texts, 100)
    yield Space("names", f"each name of the programs replaced by {len(NEW)} names; each two exchanged", renamings(not q), judge_texts, 60)
