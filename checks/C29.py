"""C29: the memory that a program needs does not grow with the statements that it has run."""
import os

from mc.harness import Space, digest

PROP = "C29"
LEVEL = "exploration"
ROUNDS = 250_000
LIMIT_KB = 3_000  # a value of the stack takes 16 bytes or more
RULE = (f"every statement of the stated forms, in every stated place of a loop of {ROUNDS} iterations, and every way of leaving blocks early in it, is run: the program must complete with the "
        f"expected output, and its peak of resident memory be at most {LIMIT_KB} KB above that of a program that does nothing; two cases are distinct when their sources differ")

PRELUDE = """registo P
  n: int
  o: P?
fim
uniao U
  A,
  B(int)
fim
func um(): int
  retorna 1
fim
func dois(a: int, b: int): real
  retorna a + b * 2.0
fim
func nada(a: int)
fim
func sai(a: int)
  se a > 0 entao
    retorna
  fim
  nada(a)
fim
func txt(): texto
  retorna 'abc'
fim
func op(): int?
  retorna 2
fim
func lista(): [int]
  retorna [int: 1, 2]
fim
func reg(): P
  retorna P(n: 1, o: nulo)
fim
func un(): U
  retorna U::B(3)
fim
met P::m(alvo, k: int): int
  alvo.n = k
  retorna k
fim
met P::v(alvo)
  alvo.n = 1
fim
met int::dobro(alvo): int
  retorna alvo * 2
fim
x: int = 1
t: texto = 'a'
v: [int] = [int: 1, 2, 3]
p: P = P(n: 1, o: nulo)
o: int? = 3
u: U = U::B(4)
"""
# statements; each leaves the state as it finds it
FORMS = [
    "um()", "dois(1, 2)", "nada(1)", "sai(1)", "sai(0)", "txt()", "op()", "lista()", "reg()", "un()", "p.m(2)", "p.v()", "x.dobro()", "um().dobro()", "reg().m(1)", "reg().v()", "op().valor", "o.valor_ou(1)", "tam(v)", "txt_contem(t, 'b')",
    "1", "x", "x + 1", "-x", "nao verdadeiro", "'a'", "t[0]", "v[1]", "v", "p", "p.n", "p.o", "nulo", "o", "o.valor", "u", "U::A", "U::B(2)", "P(n: 1, o: nulo)", "[int: 1, 2]", "vec(int, 3)", "x :> real", "f'{x}'", "(x)", "x == 1", "x < 2", "(x < 2) e falso", "U::B(um())",
    "x = 1", "x = um()", "x += 0", "x -= 0", "x *= 1", "x = x = 1", "p.n = 1", "p.n += 0", "v[0] = 1", "v[0] += 0", "v[0] = p.n = 1", "t = 'b'", "o = nulo; o = 3", "p.o = nulo", "u = U::B(4)", "v = [int: 1, 2, 3]", "p = P(n: 1, o: nulo)", "o = op()", "p.o = P(n: 2, o: nulo)",
    "y: int = 1", "y: real = um()", "y: [int] = lista()", "y, z: int", "y: indef = 1", "y: int? = nulo", "y: int = 1; z: real = y",
    "se x == 1 entao nada(1); senao um(); fim", "se x == 2 entao nada(1); senaose x == 3 entao um(); fim", "se x == 1 entao um(); fim", "enquanto falso faca um(); fim", "para k de 0..2 faca um(); fim", "para k de 0..2 faca quebra; fim", "para k de 0..2 faca se k == 0 entao continua; fim; fim".replace("; fim; fim", "; fim fim"),
    "escolha x: caso 1: um(); senao: nada(1); fim", "escolha x: caso 2: um(); fim", "escolha t: caso 'a': nada(2); fim", "enquanto verdadeiro faca y: int = um(); quebra; fim",
    "iguala u\n U::A => 1\n U::B(n) => n\nfim", "iguala u\n U::A => 'a'\n q => faca\n produz 'b'\n fim\nfim", "iguala x\n 1 => faca\n um()\n fim\n k => faca\n nada(1)\n fim\nfim", "iguala u\n U::B(n) => faca\n y: int = n\n produz y\n fim\n k => 2\nfim",
    "x = iguala u\n U::A => 2\n U::B(n) => 1\nfim", "se iguala u => U::B(n) entao\n um()\nfim", "se iguala u => U::A entao\n um()\nsenao\n nada(1)\nfim", "nada(iguala x\n 1 => 2\n k => 3\nfim)", "para k de 0..(iguala x\n 1 => 2\n z => 3\nfim) faca um(); fim",
    "anexa(v, 4); remova(v, 3)", "remova(v, 2); anexa(v, 3)", "x = remova(v, 2); anexa(v, 3)", "escreva('')",
]
LOOPS = {
    "enquanto": "i: int = 0\nenquanto i < {n} faca\n i += 1\n {}\nfim\n",
    "para": "para i de 0..{n} faca\n {}\nfim\n",
    "inner loop": "para i de 0..{n2} faca\n para j de 0..1000 faca\n  {}\n fim\nfim\n",
    "loop of short loops": "para i de 0..{n4} faca\n para j de 0..4 faca\n  {}\n fim\nfim\n",
}
PLACES = {
    "entry": "{loop}",
    "function": "func g(a: int): int\n{loop} retorna a\nfim\nmostra g(0)\n",
    "method": "met P::g(alvo, a: int): int\n{loop} retorna a\nfim\nmostra p.g(0)\n",
    "block": "se x == 1 entao\n{loop}fim\n",
    "arm": "iguala u\n U::A => faca\n mostra 1\n fim\n U::B(aa) => faca\n{loop} fim\nfim\n",
    "case": "escolha x:\n caso 1:\n{loop}fim\n",
}
# around the statement, in the loop
INSIDE = {
    "": "{}", "se": "se x == 1 entao\n {}\n fim", "senao": "se x == 2 entao\n nada(1)\n senao\n {}\n fim", "escolha": "escolha x:\n caso 1:\n {}\n fim", "then continua": "{}\n continua", "continua in se": "se x == 1 entao\n {}\n continua\n fim\n mostra 9",
    "arm": "iguala u\n U::B(kk) => faca\n {}\n fim\n zz => faca\n mostra 9\n fim\n fim", "se iguala": "se iguala u => U::B(kk) entao\n {}\n fim", "arm then continua": "iguala u\n U::B(kk) => faca\n {}\n continua\n fim\n zz => faca\n mostra 9\n fim\n fim", "value": "y9: int = iguala u\n U::B(kk) => faca\n {}\n produz 1\n fim\n zz => 2\n fim",
    "loop left": "enquanto verdadeiro faca\n {}\n quebra\n fim", "loop left from an arm": "enquanto verdadeiro faca\n iguala u\n U::B(kk) => faca\n {}\n quebra\n fim\n zz => faca\n mostra 9\n fim\n fim\n fim", "case then continua": "escolha x:\n caso 1:\n {}\n continua\n fim",
}
# a call of a function that does the statement and leaves from inside of blocks
LEAVES = {
    "": "{}\n", "retorna": "{}\n retorna\n", "from se": "se x == 1 entao\n {}\n retorna\n fim\n", "from loops": "para i1 de 0..3 faca\n para i2 de 0..3 faca\n {}\n retorna\n fim\n fim\n", "from enquanto": "enquanto verdadeiro faca\n {}\n se x == 1 entao\n retorna\n fim\n fim\n",
    "from an arm": "iguala u\n U::B(kk) => faca\n {}\n retorna\n fim\n zz => faca\n nada(1)\n fim\n fim\n", "from a case": "escolha x:\n caso 1:\n {}\n retorna\n fim\n", "from se iguala": "se iguala u => U::B(kk) entao\n {}\n retorna\n fim\n",
    "from a case in a loop": "para i1 de 0..3 faca\n escolha x:\n caso 1:\n {}\n retorna\n fim\n fim\n",
}

# an expression is left when some of its operands have a value
ABANDONED = {
    "operand": "x = 0 + (iguala u\n U::B(kk) => faca\n {leave}\n produz 1\n fim\n zz => 1\n fim)", "argument": "dois(1, iguala u\n U::B(kk) => faca\n {leave}\n produz 1\n fim\n zz => 1\n fim)", "element": "v = [int: 1, iguala u\n U::B(kk) => faca\n {leave}\n produz 1\n fim\n zz => 1\n fim]",
    "initial value": "p = P(n: iguala u\n U::B(kk) => faca\n {leave}\n produz 1\n fim\n zz => 1\n fim, o: nulo)", "index": "v[iguala u\n U::B(kk) => faca\n {leave}\n produz 1\n fim\n zz => 1\n fim] = 1", "field": "p.n = iguala u\n U::B(kk) => faca\n {leave}\n produz 1\n fim\n zz => 1\n fim",
}


class Loop:
    __slots__ = ("label", "src", "out")

    def __init__(self, label, src, out=""):
        self.label, self.src, self.out = label, src, out


def peak(worker, src):
    """One run; its result and its peak of resident memory."""
    pid_usage = {}
    wait = os.waitpid

    def waitpid(pid, flags):
        pid, st, usage = os.wait4(pid, flags)
        pid_usage["kb"] = usage.ru_maxrss
        return pid, st

    os.waitpid = waitpid
    try:
        res = worker.run({"files": {"main.ama": src}, "timeout": 60})
    finally:
        os.waitpid = wait
    return res, pid_usage["kb"]


def judge(worker, cases):
    outs = []
    base = min(peak(worker, PRELUDE)[1] for _ in range(3))
    for c in cases:
        why = None
        for _ in range(2):  # a violation is confirmed
            res, kb = peak(worker, c.src)
            why = None
            if res.status != "exit" or res.code != 0 or res.err:
                why = f"ended by {res.status} {res.code}"
            elif res.out != c.out:
                why = "wrong standard output"
            elif kb - base > LIMIT_KB:
                why = f"the peak of memory is {(kb - base) // 1000} MB above that of a program without the loop"
            if why is None:
                break
        o = {"key": digest(c.src), "cls": "completed", "bad": None, "obs": digest(res.out, res.err), "label": c.label, "sample": c.src}
        if why:
            o["bad"] = {"what": why, "label": c.label, "files": {"main.ama": c.src}, "entry": "main.ama", "stdin": None, "more": {}, "expected": {"stdout": c.out, "memory": f"{LIMIT_KB} KB"},
                        "got": {"status": res.status, "code": res.code, "stdout": res.out[:2000], "stderr": res.err[-2000:], "memory": f"{kb - base} KB"}}
        outs.append(o)
    return outs


def fill(loop, body):
    return loop.replace("{n}", str(ROUNDS)).replace("{n2}", str(ROUNDS // 1000)).replace("{n4}", str(ROUNDS // 4)).replace("{}", body)


def program(form, inside, loop, place):
    body = fill(LOOPS[loop], INSIDE[inside].replace('{}', form))
    return Loop(f"{form!r} {inside} in {loop} in {place}", PRELUDE + PLACES[place].replace("{loop}", body), "0\n" if place in ("function", "method") else "")


def called(form, leave, loop):
    src = PRELUDE + "func h(a: int)\n " + LEAVES[leave].replace("{}", form) + "fim\n" + fill(LOOPS[loop], 'h(1)')
    return Loop(f"{form!r} left {leave} in {loop}", src)


def spaces(tier):
    q = tier == "quick"

    def forms():
        for f in FORMS:
            for loop, place in ([("enquanto", "entry"), ("inner loop", "function")] if q else [(a, b) for a in LOOPS for b in PLACES]):
                yield program(f, "", loop, place)

    def blocks():
        some = ["um()", "x", "nada(1)", "y: int = 1", "iguala u\n U::A => 1\n U::B(n) => n\nfim"] if q else FORMS
        for f in some:
            for i in INSIDE:
                if i:
                    for loop, place in [("para", "entry"), ("enquanto", "function")] if q else [("para", "entry"), ("enquanto", "function"), ("inner loop", "arm"), ("loop of short loops", "case")]:
                        yield program(f, i, loop, place)

    def leaves():
        for f in (["um()", "nada(1)", "y: int = 1"] if q else FORMS):
            for l in LEAVES:
                for loop in ["enquanto"] if q else LOOPS:
                    yield called(f, l, loop)

    def places():
        for loop in LOOPS:
            for place in PLACES:
                yield program("x += 0", "", loop, place)

    def abandoned():
        for name, f in ABANDONED.items():
            f = f.replace("{leave}", "se x == 1 entao\n continua\n fim")
            yield program(f, "", "para", "entry")

    yield Space("abandoned expressions", f"an expression with a value in progress is left from {len(ABANDONED)} places", abandoned, judge, 2)
    yield Space("statements", f"{len(FORMS)} statements in {'2' if q else len(LOOPS) * len(PLACES)} loops", forms, judge, 4)
    yield Space("loops", f"{len(LOOPS)} loops in {len(PLACES)} places", places, judge, 4)
    yield Space("blocks", f"statements in {len(INSIDE) - 1} blocks of a loop", blocks, judge, 4)
    yield Space("leaving", f"functions left in {len(LEAVES)} ways, in a loop", leaves, judge, 4)
