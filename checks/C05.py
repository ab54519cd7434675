"""C05: on any text the compiler accepts the program or gives one diagnostic."""
import itertools
import re

from mc.harness import Space, Text, digest, reject_problem

PROP = "C05"
LEVEL = "exploration"
RULE = ("every sequence of tokens of the stated alphabets up to a length in the stated contexts, every program at one edit from a program with every construct, every string of the "
        "stated characters up to a length, is given to the real compiler, and run on the real VM when it is accepted; two cases are distinct when their texts differ")

RUNTIME = re.compile(r"\n*(Fluxo de execução: \n(    Linha \d+, na função [^\n]+\n)+)?Erro na linha (\d+): [^\n]+\n*")


def total_problem(res, c):
    if res.status != "exit":
        return f"ended by {res.status} {res.code}"
    if res.code == 0:
        return "text on stderr, and exit status 0" if res.err else None
    m = RUNTIME.fullmatch(res.err)
    if m:
        src = c.files[c.entry]
        src = src.decode("utf-8", "replace") if isinstance(src, bytes) else src
        n = src.count("\n") + src.replace("\r\n", "\n").count("\r") + 1
        return None if 1 <= int(m[3]) <= n else f"an error at line {m[3]} of {n}"
    files = {k: v.decode("utf-8", "replace") if isinstance(v, bytes) else v for k, v in c.files.items()}
    return reject_problem(res, {k: v.replace("\r\n", "\n").replace("\r", "\n") for k, v in files.items()})


def judge_total(worker, cases):
    outs = []
    for c, res in zip(cases, worker.run_many([c.job() for c in cases])):
        why = total_problem(res, c)
        if why:
            res = worker.run(c.job())
            why = total_problem(res, c)
        cls = "accepted" if res.code == 0 else "runtime error" if RUNTIME.fullmatch(res.err) else "rejected"
        src = c.files[c.entry]
        o = {"key": digest(sorted(c.files.items())), "cls": cls, "bad": None, "obs": digest(res.out, re.sub(r"\d+", "#", res.err)), "label": c.label, "sample": src if isinstance(src, str) else repr(src)}
        if why:
            o["bad"] = {"what": why, "label": c.label, "files": {k: v if isinstance(v, str) else v.decode("latin-1") for k, v in c.files.items()}, "entry": c.entry, "stdin": None, "more": c.more,
                        "expected": "one diagnostic, or a run", "got": {"status": res.status, "code": res.code, "stdout": res.out[:2000], "stderr": res.err[-2000:]}}
        outs.append(o)
    return outs


def T(label, src):
    return Text(label, src, None)


KEYWORDS = ["mostra", "e", "ou", "nao", "verdadeiro", "falso", "caso", "retorna", "produz", "se", "senao", "senaose", "escolha", "entao", "enquanto", "para", "faca", "de", "continua", "quebra", "usa", "como", "alvo", "registo", "iguala", "inc", "fim", "func", "met", "nulo", "vazio", "nativa",
            "uniao", "classe"]
PUNCT = ["(", ")", ".", "..", ";", ",", "{", "}", "[", "]", "@", "@@", ":", "?", "::", ":>", "=>", "\n", "+", "-", "*", "/", "//", "%", "+=", "-=", "*=", "/=", "<", ">", "<=", ">=", "!=", "=", "=="]
NAMES = ["1", "2.5", '"a"', 'f"{x}"', "x", "P", "U", "f", "v", "o", "int", "texto", "real", "bool", "indef", "vec", "tam", "valor", "T", "w", "_", "#", "!", "$"]
ALL = KEYWORDS + PUNCT + NAMES
SOME = ["mostra", "e", "nao", "verdadeiro", "caso", "retorna", "produz", "se", "senao", "escolha", "entao", "para", "faca", "de", "quebra", "usa", "alvo", "registo", "iguala", "fim", "func", "met", "nulo", "nativa", "uniao", "(", ")", ".", "..", ",", "[", "]", "@", "}", ":", "?", "::", ":>", "=>", "\n", "-", "+=",
        "<", "=", "1", '"a"', 'f"{x}"', "x", "P", "U", "f", "v", "o", "int", "vec", "valor"]
FEW = ["mostra", "verdadeiro", "caso", "retorna", "se", "senao", "escolha", "entao", "para", "faca", "de", "usa", "alvo", "registo", "iguala", "fim", "func", "met", "nulo", "nativa", "uniao", "(", ")", ".", "..", ",", "[", "]", "@", ":", "?", "::", ":>", "=>", "\n", "-", "=", "1", '"a"', "x", "P", "U", "int"]
TINY = ["mostra", "se", "entao", "iguala", "fim", "func", "registo", "(", ")", ".", "[", "]", ":", "::", "=>", "\n", "-", "=", "1", '"a"', "x", "P", "U", "int", "?"]

PRELUDE = "registo P\n n: int\n o: P?\nfim\nuniao U\n A,\n B(int)\nfim\nregisto G[T]\n g: T\nfim\nfunc f(a: int): int\n retorna a\nfim\nx: int = 1\nv: [int] = [int: 1, 2]\no: int? = nulo\np: P = P(n: 1, o: nulo)\nu: U = U::B(2)\n"
CONTEXTS = {
    "top": "{}\n", "statement": PRELUDE + "{}\n", "function": PRELUDE + "func h(y: int): int\n {}\n retorna 1\nfim\n", "method": PRELUDE + "met P::h(alvo, y: int): int\n {}\n retorna 1\nfim\nmostra p.h(1)\n", "mostra": PRELUDE + "mostra {}\n", "operand": PRELUDE + "mostra 1 + {} - 2\n",
    "type": PRELUDE + "y: {} = 1\n", "argument": PRELUDE + "mostra f({})\n", "list": PRELUDE + "mostra [int: {}]\n", "list type": PRELUDE + "mostra [{}: 1]\n", "index": PRELUDE + "mostra v[{}]\n", "arm": PRELUDE + "mostra iguala u\n {}\n w => 1\nfim\n", "pattern": PRELUDE + "mostra iguala u\n {} => 2\n w => 1\nfim\n",
    "result of arm": PRELUDE + "mostra iguala u\n w => {}\nfim\n", "field": "registo R\n {}\nfim\n", "initial value": PRELUDE + "mostra P({})\n", "variant": "uniao R\n {}\nfim\n", "f-string": PRELUDE + "mostra f'{{{}}}'\n", "import": "usa {}\n", "name of function": PRELUDE + "func {}\nfim\n", "parameter": PRELUDE + "func h({})\nfim\n",
    "result type": PRELUDE + "func h(): {}\n retorna 1\nfim\n", "target of method": PRELUDE + "met {}::h(alvo)\nfim\n", "condition": PRELUDE + "se {} entao\n mostra 1\nfim\n", "case": PRELUDE + "escolha x:\n {}\nfim\n", "value of case": PRELUDE + "escolha x:\n caso {}:\n mostra 1\nfim\n", "range": PRELUDE + "para i de {} faca\n mostra i\n quebra\nfim\n",
    "after a value": PRELUDE + "mostra x{}\n", "after a record": PRELUDE + "mostra p{}\n", "after an option": PRELUDE + "mostra o {}\n", "target": PRELUDE + "{} = 1\n", "assigned": PRELUDE + "x = {}\n", "generic": PRELUDE + "registo H[{}]\n n: int\nfim\n", "type argument": PRELUDE + "g: G[{}]\n", "annotation": "@{}\nfunc h()\nfim\n", "native": "nativa {}\n",
    "type of vec": PRELUDE + "mostra vec({}, 2)\n", "vector": PRELUDE + "anexa({}, 1)\n", "index of remova": PRELUDE + "mostra remova(v, {})\n", "conversion": PRELUDE + "mostra x :> {}\n", "after an alias": "usa 'mod.ama' => md\nmostra md{}\n", "items": "usa 'mod.ama' => [{}]\n",
    "se iguala": PRELUDE + "se iguala u => {} entao\n mostra 1\nfim\n", "in block": PRELUDE + "se verdadeiro entao\n {}\nsenao\n mostra 1\nfim\n", "in loop": PRELUDE + "para i de 0..1 faca\n {}\n mostra i\nfim\n",
}


def tokens(n, alphabet, contexts, seps=(" ",)):
    def gen():
        for c in contexts:
            pre, post = CONTEXTS[c].replace("{{{}}}", "\0{}\1").split("{}")
            pre, post = pre.replace("\0", "{"), post.replace("\1", "}")
            for k in range(n if len(contexts) > 1 or n < 3 else n, n + 1):
                for t in itertools.product(alphabet, repeat=k):
                    for s in seps:
                        yield C(f"{c}: {s.join(t)!r}", pre + s.join(t) + post)
    return gen


CORPUS = '''# every construct
usa "mod.ama" => md
usa "mod.ama" => [soma]
registo P
  n: int
  t: texto
fim
registo Par[A, B]
  a: A
  b: B
fim
uniao Cor
  Azul,
  Verde
fim
uniao Forma
  Nada,
  Circulo(real),
  Rect(int, int)
fim
x: int = 1
a, b: real
lista: [int] = [int: 1, 2, 3]
o: int? = nulo
func fact(n: int): int
  se n < 2 entao
    retorna 1
  senaose n == 2 entao
    retorna 2
  senao
    retorna n * fact(n - 1)
  fim
fim
met P::muda(alvo, k: int): int
  alvo.n = k
  alvo.n += 1
  retorna alvo.n
fim
met[A] Par[A, A]::primeiro(alvo): A
  retorna alvo.a
fim
func corpo(p: P, f: Forma, ls: [[int]])
  y: int? = 3
  z: indef = "a"
  ls[0][1] = x = 2
  ls[0][0] *= -(1 + 2) // 3 % 2
  para i de 0..tam(lista) inc 1 faca
    se (i == 1) e nao (verdadeiro ou falso) entao
      continua
    fim
    mostra lista[i]
    quebra
  fim
  enquanto x <= 3 faca
    x += 1
    quebra
  fim
  escolha x:
  caso 1:
    mostra "um"
  caso 2:
    mostra 'dois'
  senao:
    mostra f"{x} e {y.valor_ou(2)}"
  fim
  r: int = iguala f
    Forma::Nada => 0
    Forma::Circulo(q) => faca
      produz q :> int
    fim
    Forma::Rect(1, h) => h
    outro => 3
  fim
  se iguala f => Forma::Rect(l, m) entao
    mostra l + m
  senao
    mostra r
  fim
  q: P = P(n: fact(3), t: "k")
  mostra q.muda(2); mostra md.dobro(2)
  m: [int] = vec(int, 2)
  anexa(m, remova(lista, 0))
  se y != nulo entao mostra y.valor; fim
  mostra (z :> texto) == "a"
  mostra Cor::Azul
  retorna
fim
'''
MOD = {"mod.ama": "func dobro(n: int): int\n  retorna n * 2\nfim\nfunc soma(a: int, b: int): int\n  retorna a + b\nfim\n"}
WORD = re.compile(r'#.*|f?"[^"]*"|\'[^\']*\'|\d+\.\d+|\w+|::|:>|=>|\.\.|//|[+\-*/<>=!]=|\n| +|.')


def C(label, src):
    return Text(label, dict(MOD, **{"main.ama": src}), None)


def edits(alphabet):
    def gen():
        toks = WORD.findall(CORPUS)
        assert "".join(toks) == CORPUS
        for i, t in enumerate(toks):
            if t.strip(" ") == "":
                continue
            pre, post = "".join(toks[:i]), "".join(toks[i + 1:])
            yield C(f"without token {i} {t!r}", pre + post)
            yield C(f"twice token {i} {t!r}", pre + t + " " + t + post)
            j = i + 1
            while j < len(toks) and toks[j].strip(" ") == "":
                j += 1
            if j < len(toks):
                yield C(f"swapped {i}", pre + toks[j] + "".join(toks[i + 1:j]) + t + "".join(toks[j + 1:]))
            for a in alphabet:
                if a != t:
                    yield C(f"{i} {t!r} is {a!r}", pre + a + post)
                    yield C(f"{a!r} before {i} {t!r}", pre + a + " " + t + post)
    return gen


def lines():
    """Without a line, with two of them exchanged, with the last ones cut."""
    ls = CORPUS.split("\n")
    for i in range(len(ls)):
        yield C(f"without line {i}", "\n".join(ls[:i] + ls[i + 1:]))
        yield C(f"from line {i}", "\n".join(ls[i:]))
        for j in range(i + 1, len(ls)):
            m = ls[:]
            m[i], m[j] = m[j], m[i]
            yield C(f"lines {i} {j} exchanged", "\n".join(m))
        for j in range(i + 2, min(i + 8, len(ls))):
            yield C(f"without lines {i} to {j}", "\n".join(ls[:i] + ls[j:]))
    for i in range(len(CORPUS)):
        yield C(f"first {i}", CORPUS[:i])
        yield C(f"without character {i}", CORPUS[:i] + CORPUS[i + 1:])


CHARS = ["a", "Ç", "1", "٣", "²", "Ⅷ", "_", " ", "\t", "\n", "\r", "\f", "\v", "\x1c", "\x85", "\u2028", "\u00a0", "\ufeff", "\x00", "\u0301", "\u200d", "😀", "'", '"', "\\", "{", "}", "#", ".", "\ud800", "@", "$", "½", "µ", "ª", "ﬁ"]


def chars(n, contexts):
    def gen():
        for pre, post in contexts:
            for k in range(1, n + 1):
                for t in itertools.product(CHARS, repeat=k):
                    yield T("characters", pre + "".join(t) + post)
    return gen


BYTES = [b"\xff", b"\xc3", b"\xc3\xa9", b"\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xef\xbb\xbf", b"\xff\xfe", b"\x00", b"\r", b"\r\n", b"\n", b" ", b"'", b"mostra 1", b"#", b"\x1a"]


def octets(n):
    def gen():
        for k in range(n + 1):
            for t in itertools.product(BYTES, repeat=k):
                yield Text("bytes", b"".join(t), None)
        for t in itertools.product(BYTES, repeat=1):
            yield Text("bytes", b"x: int = 1\nmostra '" + t[0] + b"'\nmostra x\n", None)
            yield Text("bytes of a module", {"main.ama": "mostra 1\nusa 'm.ama' => m\n", "m.ama": b"mostra 2\n" + t[0]}, None)
    return gen

# ---- trees of forms, whatever their types

BASE = """usa "mod.ama" => md
registo P
 n: int
 o: P?
 v: [P]
fim
uniao U
 A,
 B(int),
 D(U, P?)
fim
registo G[T]
 h: T?
fim
uniao V[T]
 E,
 F(T),
 H(V[T])
fim
registo E
fim
met P::m(alvo, a: int): P
 retorna alvo
fim
met int::m(alvo): int?
 retorna alvo
fim
met[T] G[T]::m(alvo, x: T): T
 retorna x
fim
met U::m(alvo)
fim
func f(a: int): int
 retorna a
fim
func p(a: P?, v: [int])
fim
func q(): U
 retorna U::B(1)
fim
x: int = 1
r: real = 1.5
t: texto = "ab"
b: bool = falso
i: indef = 1
v: [int] = [int: 1, 2]
w: [[P?]] = [[P?]: [P?: nulo]]
o: int? = nulo
c: P = P(n: 1, o: nulo, v: [P:])
u: U = U::B(2)
gi: G = G(h: nulo)
ve: V = V::E
ui: U? = u
"""
LEAVES = ["1", "1.5", '"a"', "''", "verdadeiro", "nulo", "x", "r", "t", "b", "i", "v", "w", "o", "c", "u", "ui", "gi", "f", "p", "q()", "P", "G", "E()", "U", "U::A", "U::B", "V::E", "md", "md.dobro", "md.zero", "int", "alvo", "tam", "mat", "zero", "Opcao", "[int:]", "vec(int, 2)", "f(1)", "p(c, v)", 'f"{x}"', "c.m", "x.m()"]
FORMS = ["-{}", "nao {}", "+{}", "({})", "{}.n", "{}.o.valor", "{}.valor", "{}.valor_ou({})", "{}.m(1)", "{}.m()", "{}[0]", "{}[0][0]", "{}({})", "{}()", "f({})", "p({}, {})", "{} + {}", "1 + {}", "{} // 2", "{} < {}", "{} == {}", "{} == nulo", "{} e {}", "{} :> int", "{} :> texto", "{} :> P", "{} :> [int]",
         "{} :> int?", "{} :> {}", "P(n: {}, o: {}, v: {})", "G(h: {})", "[int: {}]", "[P?: {}, {}]", "[{}: 1]", "U::B({})", "U::D({}, {})", "{}::A", "{}::B(1)", "V::F({})", "vec(int, {})", "vec({}, 2)", "tam({})", "remova({}, {})", "txt_contem({}, {})", 'f"<{{{}}}>"', "iguala {}\n U::A => 1\n _ => 2\nfim",
         "iguala {}\n y => {}\nfim", "iguala u\n U::B(k) => {}\n _ => {}\nfim", "iguala 1\n 1 => faca\n produz {}\n fim\n _ => {}\nfim", "iguala {}\n nulo => 1\n verdadeiro => 2\nfim"]
PLACES = {"statement": "{}\n", "shown": "mostra {}\n", "declared": "k: int = {}\n", "declared indef": "k: indef = {}\n", "stored": "x = {}\n", "added": "x += {}\n", "target": "{} = 1\n", "target of +=": "{} += 1\n", "chained": "x = {} = 2\n", "condition": "se {} entao\n mostra 1\nfim\n", "loop": "enquanto {} faca\n quebra\nfim\n",
          "limit": "para k de {}..{} inc {} faca\n mostra k\n quebra\nfim\n", "chosen": "escolha {}:\ncaso 1:\n mostra 1\nfim\n", "case": "escolha x:\ncaso {}:\n mostra 1\nfim\n", "matched": "se iguala {} => U::B(k) entao\n mostra k\nfim\n", "result": "func g(): int\n retorna {}\nfim\nmostra g()\n",
          "result of a method": "met P::g(alvo): P?\n retorna {}\nfim\nmostra c.g()\n", "of a generic method": "met[T] G[T]::g(alvo, k: T): T\n retorna {}\nfim\n", "returned": "retorna {}\n", "given": "produz {}\n", "argument": "f({})\n"}
GENERIC_LEAVES = ["alvo", "alvo.h", "k", "l", "alvo.m(k)", "G(h: nulo)", "G(h: k)", "V::F(k)", "V::E", "nulo", "1", "x", "c", "z", "[T: k]", "vec(T, 1)", "vec(G[T], 1)", "alvo.h.valor", "T", "j"]


def fill(form, x):
    return form.replace("{{", "\0").replace("}}", "\1").replace("{}", x).replace("\0", "{").replace("\1", "}")


def L(label, src):
    return C(label, BASE + src)


def forms(places):
    def gen():
        for pl in places:
            for x in LEAVES:
                yield L(f"{pl}: {x!r}", fill(PLACES[pl], x))
                for fm in FORMS:
                    e = fill(fm, x)
                    yield L(f"{pl}: {e!r}", fill(PLACES[pl], e))
    return gen


def forms2(places, leaves, outer):
    def gen():
        for pl in places:
            for x in leaves:
                for fm in FORMS:
                    for gm in outer:
                        e = fill(gm, fill(fm, x))
                        yield L(f"{pl}: {e!r}", fill(PLACES[pl], e))
    return gen


GENERIC = "met[T] G[T]::g(alvo, k: T, l: T?, j: G[T], z: V[T]){}\n{}fim\n"


def generic_forms(all_of_them):
    def gen():
        kinds = ("", ": T", ": T?", ": G[T]", ": [T]", ": int", ": V[T]")
        for x in GENERIC_LEAVES:
            for e in [x] + [fill(fm, x) for fm in FORMS]:
                for k in kinds if all_of_them else kinds[1:3]:
                    yield L(f"generic result {e!r}", fill(GENERIC.replace("{}", k, 1), f" retorna {e}\n" if k else f" {e}\n"))
                for st in (f" mostra {e}\n", f" alvo.h = {e}\n", f" {e} = k\n", f" d: T = {e}\n", f" d: G[T] = {e}\n", f" d: indef = {e}\n", f" se {e} == nulo entao\n fim\n", f" d: T\n d = {e}\n mostra d\n", f" se iguala {e} => V::F(a) entao\n mostra a\n fim\n")[:None if all_of_them else 2]:
                    yield L(f"generic {st!r}", fill(GENERIC.replace("{}", "", 1), st))
    return gen


TY0 = ["int", "texto", "indef", "vazio", "T", "P", "U", "G", "V", "E", "Opcao", "md", "md.Z", "md.x", "f", "x", "N", "S"]
TYF = ["{}", "[{}]", "{}?", "G[{}]", "V[{}]", "P[{}]", "Opcao[{}]", "G[{}, int]", "md.Z[{}]", "md.W[{}]", "[{}?]", "[[{}]]", "N[{}]", "int[{}]", "S[int, {}]"]
TYPLACES = {"variable": "k: {}\n", "variable with a value": "k: {} = nulo\n", "shown": "k: {}\nmostra k\n", "parameter": "func k(a: {})\nfim\n", "result": "func k(): {}\nfim\n", "native": "func nativa k(a: {}): {}\n", "field": "registo K\n a: {}\nfim\n", "field of a generic": "registo K[T]\n a: {}\n c: T\nfim\n", "itself": "registo N\n a: {}\nfim\nk: N\n", "itself generic": "registo N[T]\n a: {}\nfim\nk: N[int]\nmostra k\n",
            "variant": "uniao K\n A({}),\n B\nfim\nk: K = K::B\n", "variant of a generic": "uniao K[T]\n A({}),\n B\nfim\nk: K = K::B\nse iguala k => K::A(a) entao\n mostra a\nfim\n", "its own variant": "uniao N\n A({}),\n B\nfim\nk: N = N::B\nj: int = iguala k\n N::A(a) => 1\n N::B => 2\nfim\n", "target": "met {}::k(alvo)\n mostra alvo\nfim\n", "generic target": "met[T] {}::k(alvo, a: T): T\n retorna a\nfim\n", "target with two": "met[T, S] {}::k(alvo, a: S): T\nfim\n",
            "elements": "mostra [{}:]\n", "sized": "mostra vec({}, 1)\n", "converted": "mostra nulo :> {}\n", "converted value": "mostra i :> {}\n", "compared": "k: {}\nmostra k == k\nmostra k == nulo\n", "stored": "k: {}\nj: {}\nk = j\nl: {}? = k\nm: indef = k\n", "used": "k: {}\nmostra k.h\n", "used fields": "k: {}\nk.h = 1\nk.h = k.h\n", "called": "k: {}\nk.m(1)\n", "unwrapped": "k: {}\nmostra k.valor_ou(1)\n",
            "matched": "k: {}\nse iguala k => V::F(a) entao\n mostra a\nfim\n", "matched any": "k: {}\nj: int = iguala k\n V::E => 1\n V::F(_) => 2\n V::H(V::E) => 3\n _ => 4\nfim\n", "given": "func k(a: {}): {}\n retorna a\nfim\nj: {}\nmostra k(j)\n", "in a function": "func k()\n a: {}\n registo S\n  z: {}\n fim\n d: S\nfim\nk()\n", "passed": "func k(a: G[int])\nfim\nj: {}\nk(j)\n"}
TYMOD = {"mod.ama": "func dobro(n: int): int\n  retorna n * 2\nfim\nfunc soma(a: int, b: int): int\n  retorna a + b\nfim\nzero: int = 0\nx: int = 1\nregisto Z\n z: int\nfim\nregisto W[T]\n w: T\nfim\n"}


def types(places, deep):
    def gen():
        for pl in places:
            for t0 in TY0:
                for f1 in TYF:
                    for f2 in TYF if deep else ["{}"]:
                        t = fill(f2, fill(f1, t0))
                        yield Text(f"type {pl}: {t}", dict(TYMOD, **{"main.ama": BASE + fill(TYPLACES[pl], t)}), None)
    return gen


ITEMS = ["a: int = 1", "a: int", "a: texto = a", "a = 1", "mostra a", "a, b: real", "a: P = P(n: 1, o: nulo, v: [P:])", "a: U = U::A", "a: [int] = [int: 1]", "a: indef = nulo", "a: int? = nulo", "func a()\nfim", "func a(): int\n retorna 1\nfim", "func a(a: int): int\n retorna a\nfim", "func a(b: int, b: int)\nfim", "func a()\n a()\nfim", "func a()\n a: int = 1\n func b(): int\n  retorna a\n fim\n mostra b()\nfim", "a()",
         "a(1)", "mostra a()", "registo a\n n: int\nfim", "registo a[T]\n n: T\nfim", "registo a\n a: a?\nfim", "registo a\n a: a\nfim", "registo a\n n: int\n n: int\nfim", "registo a\nfim", "registo a[T, T]\n n: T\nfim", "registo a[a]\n n: a\nfim", "registo a[int]\n n: int\nfim", "b: a = a(n: 1)", "b: a = a()", "b: a", "b: a[int]", "b: a?", "b: [a]", "uniao a\n A,\n B(int)\nfim", "uniao a\n a\nfim", "uniao a\n A,\n A\nfim",
         "uniao a\n a(a)\nfim", "uniao a\nfim", "uniao a[T]\n A,\n B(T)\nfim", "b: a = a::A", "b: a = a::B(1)", "mostra a::A", "se iguala a => a::A entao\n mostra 1\nfim", "se iguala a => P::B(c) entao\n mostra c\nfim", "met a::a(alvo)\n mostra alvo\nfim", "met a::m(alvo): a\n retorna alvo\nfim", "met a::A(alvo)\nfim", "met a::n(alvo)\nfim", "met[T] a[T]::g(alvo): T\n retorna alvo.n\nfim", "met[T] a::g(alvo): T\nfim", "met int::a(alvo): int\n retorna alvo\nfim",
         "met U::a(alvo): U\n retorna alvo\nfim", "met P?::a(alvo)\nfim", "met Opcao::a(alvo)\nfim", "met[T] Opcao[T]::a(alvo): T\n retorna alvo.valor\nfim", "met [int]::a(alvo)\nfim", "met U::a(alvo, alvo: int)\nfim", "mostra x.a()", "mostra u.a()", "mostra o.a()", "mostra c.a()", "mostra a.a()", "mostra a.a", "a.a = 1", "a[0] = 1", "a += 1", "se verdadeiro entao\n a: texto = 'k'\n mostra a\nfim", "para a de 0..2 faca\n mostra a\nfim", "para a de a..2 faca\n a = 5\nfim",
         "enquanto verdadeiro faca\n a: int = 1\n quebra\nfim", "escolha a:\ncaso 1:\n a: int = 3\n mostra a\nsenao:\n mostra 2\nfim", "a: int = iguala u\n U::B(a) => a\n _ => 3\nfim", "quebra", "continua", "retorna", "retorna 1", "produz 1", "alvo", "mostra alvo", "mostra alvo.n", "@a\nfunc z()\nfim", "@a(1)\nregisto Z\nfim", "@embutido\nregisto a[T]\n v: T\nfim", "@embutido\nfunc nativa a(): int", "func nativa a(): int", "func nativa tam(a: int)",
         "func mostra_a()\n mostra a\nfim", "func g()\n a = 2\nfim\ng()", "func g(): a\nfim", "func g(z: a)\nfim", "usa 'mod.ama' => a", "usa 'mod.ama' => [a]", "usa 'mod.ama'", "mostra a.dobro(2)", "b: a.Z", "classe a\nfim", "int: int = 1", "registo int\n a: int\nfim", "uniao int\n a\nfim", "func int()\nfim", "md: int = 1", "tam: int = 2", "func tam(): int\n retorna 1\nfim", "registo Opcao\n valor: int\nfim", "Opcao: int = 1", "valor: int = 1", "b: Opcao[int] = 1", "f = f", "P = P", "md = md", "mostra md",
         "registo P2\n o: P2?\nfim\nb: P2\nmostra b.o", "se iguala a => a entao\n mostra a\nfim", "mostra (a :> a)", "mostra [a: a]", "mostra vec(a, 1)", "mostra f'{a}'"]
BLOCKS = {"": "{}\n{}\n", "function": "func zz()\n{}\n{}\nfim\nzz()\n", "method": "met U::zz(alvo): int\n{}\n{}\nretorna 1\nfim\nmostra u.zz()\n", "branch": "se verdadeiro entao\n{}\n{}\nfim\n", "loop": "para zz de 0..2 faca\n{}\n{}\nfim\n", "arm": "zz: int = iguala u\n U::B(yy) => faca\n{}\n{}\nproduz 1\nfim\n _ => 2\nfim\n", "outer and inner": "{}\nse verdadeiro entao\n{}\nfim\n", "outer and function": "{}\nfunc zz()\n{}\nfim\nzz()\n",
          "function and after": "func zz()\n{}\nfim\n{}\nzz()\n"}


def items(blocks, n=2):
    def gen():
        for bl in blocks:
            for a in ITEMS:
                for b in ITEMS:
                    src = BLOCKS[bl].replace("{}", a, 1).replace("{}", b, 1)
                    yield Text(f"items {bl}", dict(TYMOD, **{"main.ama": BASE + src}), None)
                    if n == 3 and bl == "":
                        for c in ITEMS:
                            yield Text("three items", dict(TYMOD, **{"main.ama": BASE + src + c + "\n"}), None)
    return gen


PATHNAMES = ["q", "r", "x", "f", "Z", "V", "int", "zz", "p", "h"]
PATHPLACES = {"type": "k: {}\n", "optional": "k: {}? = nulo\n", "vector": "k: [{}]\n", "result": "func k(): {}\nfim\n", "parameter": "func k(a: {})\nfim\n", "field": "registo K\n a: {}\nfim\n", "variant": "uniao K\n A({})\nfim\n", "argument": "k: Opcao[{}]\n",
              "generic": "k: {}[int]\n", "target": "met {}::k(alvo)\n mostra alvo\nfim\n", "elements": "mostra [{}: 1]\n", "sized": "mostra vec({}, 1)\n", "converted": "mostra 1 :> {}\n", "shown": "mostra {}\n", "statement": "{}\n", "called": "mostra {}(1)\n",
              "called with two": "{}(1, 2)\n", "stored": "{} = 1\n", "added": "{} += 1\n", "new": "mostra {}(z: 1)\n", "made": "mostra {}::A(1)\n", "matched": "se iguala 1 => {}::A(k) entao\n mostra k\nfim\n", "matched name": "mostra iguala 1\n {} => 1\n _ => 2\nfim\n",
              "element": "mostra {}[0]\n", "declared": "{}: int = 1\n", "unwrapped": "mostra {}.valor\n", "in a text": "mostra f'{{}}'\n"}
PATHMODS = {"a.ama": "usa 'b.ama' => r\nx: int = 1\nfunc f(n: int): int\n retorna n\nfim\nregisto Z\n z: int\n h: int\nfim\nuniao V\n A(int),\n B\nfim\np: Z = Z(z: 1, h: 2)\n",
            "b.ama": "x: real = 1.5\nfunc f(n: real): real\n retorna n\nfim\nregisto Z\n z: real\n p: int\nfim\nuniao V\n A(real)\nfim\np: Z = Z(z: 1.0, p: 1)\n"}


def dotted(n, uses):
    """Every path of up to n names, wherever a type or a value may be."""
    def gen():
        for u in uses:
            for k in range(1, n + 1):
                for ns in itertools.product(PATHNAMES, repeat=k):
                    if k > 1 and ns[0] not in ("q", "r", "x", "zz", "p", "Z"):
                        continue
                    for pl, src in PATHPLACES.items():
                        yield Text(f"path {pl}: {'.'.join(ns)}", dict(PATHMODS, **{"main.ama": f"usa 'a.ama'{u}\n" + src.replace("{}", ".".join(ns), 1)}), None)
    return gen


def spaces(tier):
    q = tier == "quick"
    cs = list(CONTEXTS)
    yield Space("one token", f"each of {len(ALL)} tokens, in {len(cs)} contexts", tokens(1, ALL, cs), judge_total, 100)
    if q:
        yield Space("two tokens", f"every pair of {len(FEW)} tokens, in {len(cs)} contexts", tokens(2, FEW, cs), judge_total, 200)
    else:
        yield Space("two tokens", f"every pair of {len(ALL)} tokens, in {len(cs)} contexts", tokens(2, ALL, cs), judge_total, 200)
        yield Space("two tokens together", f"every pair of {len(ALL)} tokens without a space, in {len(cs)} contexts", tokens(2, ALL, cs, ("",)), judge_total, 200)
    yield Space("three tokens", f"every sequence of 3 of {len(TINY if q else SOME)} tokens", tokens(3, TINY if q else SOME, ["statement"]), judge_total, 200)
    if not q:
        yield Space("three tokens in contexts", f"every sequence of 3 of {len(TINY)} tokens, in {len(cs)} contexts", tokens(3, TINY, cs), judge_total, 200)
    al = ["fim", "\n", "(", ")", ":", "=", "x", "1", "=>", "int", "P", "se", ".", "[", "nulo"] if q else SOME
    yield Space("edits of tokens", f"a program with every construct, with each token removed, repeated, exchanged with the next, replaced by and preceded by {len(al)} tokens", edits(al), judge_total, 60)
    yield Space("edits of lines", "the same program without some lines, with two lines exchanged, cut at each character, without each character", lines, judge_total, 60)
    places = [("", ""), ("x: texto = 'a", "'\n"), ("# ", "\nmostra 1\n"), ("mostra f'", "'\n"), ("x", ": int = 1\n"), ("mostra 1", "\n")]
    yield Space("characters", f"every string of up to 2 of {len(CHARS)} characters, in {len(places)} places", chars(2, places), judge_total, 200)
    if not q:
        yield Space("more characters", f"every string of 3 of {len(CHARS)} characters, in 2 places", chars(3, places[:2]), judge_total, 200)
    yield Space("bytes", f"every file of up to {2 if q else 3} of {len(BYTES)} sequences of bytes, in UTF-8 or not", octets(2 if q else 3), judge_total, 100)

    pl = ["shown", "stored", "declared indef", "target of +=", "chosen", "matched"] if q else list(PLACES)
    yield Space("forms", f"each of {len(LEAVES)} values in each of {len(FORMS)} forms, in {len(pl)} places, whatever its type", forms(pl), judge_total, 100)
    pl = ["shown"] if q else ["shown", "target", "declared indef", "statement", "matched"]
    few = ("1", "verdadeiro", "nulo", "x", "v", "o", "c", "u", "P", "U::A", "f", "md") if q else LEAVES
    outer = tuple(f for f in FORMS if "{}" in f and f.count("{}") == 1)[::2] if q else FORMS
    yield Space("forms of forms", f"each of {len(few)} values in each of {len(FORMS)} forms in each of {len(outer)} forms, in {len(pl)} places", forms2(pl, few, outer), judge_total, 100)
    yield Space("forms of generic types", f"each of {len(GENERIC_LEAVES)} values in a generic method, in {len(FORMS)} forms, with {2 if q else 7} types of results and in {2 if q else 9} statements", generic_forms(not q), judge_total, 100)
    yield Space("types", f"each of {len(TY0)} names with {len(TYF)} forms of types, in {len(TYPLACES)} places" + ("" if q else ", two forms"), types(list(TYPLACES), not q), judge_total, 100)
    yield Space("paths", f"every path of up to {3 if q else 4} of {len(PATHNAMES)} names (of modules, of modules of modules, of what they declare, of nothing) in {len(PATHPLACES)} places", dotted(3 if q else 4, (" => q",) if q else (" => q", "", " => [x, Z, p, f]")), judge_total, 100)
    bs = [""] if q else list(BLOCKS)
    yield Space("pairs of statements", f"every pair of {len(ITEMS)} declarations and uses, in {len(bs)} arrangements" + ("" if q else "; every triple"), items(bs, 2 if q else 3), judge_total, 100)
