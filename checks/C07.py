"""C07: the order in which statements run."""
import itertools

from mc import gen as g
from mc.harness import Case, Packed, Space, judge_packed, judge_programs
from mc.trees import Num, build, forests

PROP = "C07"
LEVEL = "exploration"
RULE = ("every nesting of the stated statements up to the stated size; each statement that runs shows a number of its own, and the "
        "sequence of numbers, or the rejection, is compared with the model; two cases are distinct when their sources differ")

T = g.V("t")
TICK = g.put("t", g.I(1), "+=")


def S(n):
    return (("mostra", n()),)


def Q(n):
    return (("quebra",),)


def C(n):
    return (("continua",),)


def R(n):
    return (g.ret(n()),)


def guarded(st, k=2):
    # every second (or third) time it is reached
    return lambda n: (TICK, ("se", g.B("==", g.B("%", T, g.I(k)), g.I(0)), (("mostra", n()),) + st(n), (), None))


ODD = g.B("==", g.B("%", T, g.I(2)), g.I(1))
PARA = ("para", 1, lambda n, b: (lambda k: (("para", f"i{k}", g.I(0), g.I(3), None, (("mostra", g.B("+", g.V(f"i{k}"), g.I(k * 100))),) + b),))(n.next()))
ENQ = ("enquanto", 1, lambda n, b: (lambda k: (g.let(f"c{k}", "int", g.I(0)), ("enquanto", g.B("<", g.V(f"c{k}"), g.I(3)), (g.put(f"c{k}", g.I(1), "+="), ("mostra", g.B("+", g.V(f"c{k}"), g.I(k * 100)))) + b)))(n.next()))
SE = ("se", 1, lambda n, b: (("se", g.TRUE, b, (), None),))
SENAO = ("senao", 2, lambda n, b, c: (TICK, ("se", ODD, b, (), c)))
ESCOLHA = ("escolha", 2, lambda n, b, c: (TICK, ("escolha", g.B("%", T, g.I(2)), ((g.I(1), b),), c)))
IGUALA = ("iguala", 2, lambda n, b, c: (TICK, ("expr", ("match", g.B("%", T, g.I(2)), ((("pint", 1), ("block", b, None)), (("pvar", "_"), ("block", c, None)))))))
SEIG = ("se iguala", 2, lambda n, b, c: (TICK, ("seiguala", ("variant", "U", "A", (T,)), ("pcon", "U", "A", (("pvar", f"q"),)), b, c)))
ELIF = ("senaose", 3, lambda n, a, b, c: (TICK, ("se", g.B("==", g.B("%", T, g.I(3)), g.I(1)), a, ((g.B("==", g.B("%", T, g.I(3)), g.I(2)), b),), c)))
UNI = (("uniao", "U", (("A", ("int",)), ("B", ()))),)


def nests(sizes, leaves, blocks, globals_=True):
    def run():
        for n in sizes:
            for f in forests(n, leaves, blocks):
                body = build(f, Num())
                yield Packed("function", UNI, (g.func("f", (), "int", g.let("t", "int", g.I(0)), *body, ("mostra", g.V("t")), g.ret(g.I(-1))), ("mostra", g.call("f"))))
                if globals_:
                    yield Packed("entry", (), UNI + (g.let("t", "int", g.I(0)),) + body + (("mostra", g.V("t")),))
    return run


def ranges():
    """Every start, end and step of a 'para'."""
    for a in range(-2, 4):
        for b in range(-2, 4):
            for c in (None, -3, -2, -1, 0, 1, 2, 3):
                inc = None if c is None else g.I(c)
                stop = ("se", g.B(">", g.V("k"), g.I(9)), (("quebra",),), (), None)
                loop = ("para", "i", g.I(a), g.I(b), inc, (("mostra", g.V("i")), g.put("k", g.I(1), "+="), stop))
                yield Packed("para", (), (g.func("f", (), None, g.let("k", "int", g.I(0)), loop, ("mostra", g.V("k"))), g.do(g.call("f"))))
                yield Packed("para", (), (g.let("k", "int", g.I(0)), loop, ("mostra", g.V("k"))))
                # the bounds are variables that the body changes
                v = lambda x, k: g.let(x, "int", g.I(k))
                loop2 = ("para", "i", g.V("a"), g.V("b"), None if c is None else g.V("c"), (("mostra", g.V("i")), g.put("a", g.I(1), "+="), g.put("b", g.I(1), "-="), g.put("k", g.I(1), "+="), stop))
                yield Packed("para", (), (g.func("f", (), None, g.let("k", "int", g.I(0)), v("a", a), v("b", b), v("c", c or 0), loop2, ("mostra", g.V("k"))), g.do(g.call("f"))))
    # the body changes the control variable
    for d in (-1, 1, 2, 5):
        loop = ("para", "i", g.I(0), g.I(6), None, (("mostra", g.V("i")), g.put("i", g.I(d), "+="), ("mostra", g.V("i")), g.put("k", g.I(1), "+="), ("se", g.B(">", g.V("k"), g.I(9)), (("quebra",),), (), None)))
        yield Packed("para", (), (g.func("f", (), None, g.let("k", "int", g.I(0)), loop), g.do(g.call("f"))))
        yield Packed("para", (), (g.let("k", "int", g.I(0)), loop))
    # the bounds at the ends of the range of integers
    for a, b, c in ((2**63 - 3, 2**63 - 1, None), (2**63 - 3, 2**63 - 1, 5), (-(2**63) + 1, -(2**63) + 3, None), (-(2**63) + 3, -(2**63) + 1, -1), (0, 2**63 - 1, 2**62), (2**63 - 2, -(2**63) + 1, None)):
        yield Packed("para", (), (("para", "i", g.I(a), g.I(b), None if c is None else g.I(c), (("mostra", g.V("i")),)), ("mostra", g.I(1))))


SAY = (
    g.func("v", (("k", "int"),), "bool", ("mostra", g.V("k")), g.ret(g.TRUE)),
    g.func("f", (("k", "int"),), "bool", ("mostra", g.V("k")), g.ret(g.FALSE)),
    g.func("n", (("k", "int"), ("r", "int")), "int", ("mostra", g.V("k")), g.ret(g.V("r"))),
)


def tf(b, k):
    return g.call("v" if b else "f", g.I(k))


def conditions():
    """Conditions that show that they are evaluated."""
    for n in range(0, 5):
        for bits in itertools.product((False, True), repeat=n + 1):
            for els in (None, (("mostra", g.I(99)),), ()):
                elifs = tuple((tf(b, 10 + i), (("mostra", g.I(20 + i)),)) for i, b in enumerate(bits[1:]))
                yield Packed("se", SAY, (("se", tf(bits[0], 1), g.show(g.I(5)), elifs, els), ("mostra", g.I(7))))
    # every formula of up to 4 operands, in every grouping
    def formulas(k, n):
        if n == 1:
            for b in (False, True):
                yield tf(b, k)
                yield ("un", "nao", tf(b, k))
            return
        for i in range(1, n):
            for l in formulas(k, i):
                for r in formulas(k + i, n - i):
                    for op in ("e", "ou"):
                        yield ("bin", op, l, r)
    for n in (1, 2, 3):
        for e in formulas(1, n):
            yield Packed("logic", SAY, (("mostra", e),))
            yield Packed("logic", SAY, (("se", e, g.show(g.I(50)), (), g.show(g.I(60))),))
    for n in range(4):
        for vals in itertools.product((1, 2), repeat=n):
            for tv in (1, 2, 3):
                for els in (None, (("mostra", g.I(99)),)):
                    cs = tuple((g.call("n", g.I(10 + i), g.I(x)), (("mostra", g.I(20 + i)),)) for i, x in enumerate(vals))
                    yield Packed("escolha", SAY, (("escolha", g.call("n", g.I(1), g.I(tv)), cs, els), ("mostra", g.I(7))))
    for k in range(4):
        yield Packed("enquanto", SAY, (g.let("c", "int", g.I(0)), ("enquanto", g.B("<", g.call("n", g.I(70), g.V("c")), g.I(k)), (g.put("c", g.I(1), "+="),)), ("mostra", g.V("c"))) if False else
                     (g.func("h", (), None, g.let("c", "int", g.I(0)), ("enquanto", g.B("<", g.call("n", g.I(70), g.V("c")), g.I(k)), (g.put("c", g.I(1), "+="),)), ("mostra", g.V("c"))), g.do(g.call("h"))))
        yield Packed("para", SAY, (("para", "i", g.call("n", g.I(1), g.I(0)), g.call("n", g.I(2), g.I(k)), g.call("n", g.I(3), g.I(1)), (("mostra", g.V("i")),)),))
        yield Packed("para", SAY, (("para", "i", g.call("n", g.I(1), g.I(k)), g.call("n", g.I(2), g.I(0)), None, (("mostra", g.V("i")),)),))


def long():
    """Loops and blocks whose code is longer than the short jumps."""
    for n in (1, 50, 200, 1000, 5000):
        body = tuple(g.put("x", g.I(1), "+=") for _ in range(n))
        for w in (
            (("se", g.TRUE, body, (), body),),
            (("se", g.FALSE, body, (), body + (("mostra", g.V("x")),)),),
            (("para", "i", g.I(0), g.I(3), None, (("se", g.B("==", g.V("i"), g.I(1)), (("continua",),), (), None),) + body),),
            (("enquanto", g.TRUE, body + (("se", g.B(">", g.V("x"), g.I(2 * n)), (("quebra",),), (), None),)),),
            (("escolha", g.I(2), ((g.I(1), body), (g.I(2), (("mostra", g.V("x")),))), body),),
        ):
            yield Case(f"{n} statements", (g.let("x", "int", g.I(0)),) + w + (("mostra", g.V("x")),), step_limit=2000000)
            yield Case(f"{n} statements", (g.func("f", (), None, g.let("x", "int", g.I(0)), *w, ("mostra", g.V("x"))), g.do(g.call("f"))), step_limit=2000000)
    # loops that run many times
    for n in (255, 256, 1000, 65536, 100000):
        yield Case(f"{n} times", (g.let("x", "int", g.I(0)), ("para", "i", g.I(0), g.I(n), None, (g.put("x", g.V("i"), "+="),)), ("mostra", g.V("x"))), step_limit=2000000)
        yield Case(f"{n} times", (g.func("f", (), "int", g.let("x", "int", g.I(0)), ("enquanto", g.TRUE, (g.put("x", g.I(1), "+="), ("se", g.B("==", g.V("x"), g.I(n)), (g.ret(g.V("x")),), (), None))), g.ret(g.I(0))), ("mostra", g.call("f"))), step_limit=2000000)


def many(sizes):
    """Many cases, branches and loops in loops."""
    def run():
        for n in sizes:
            xs = [(i * 7) % n for i in range(n)]
            picks = sorted({0, 1, n // 2, n - 2, n - 1, n, -1})
            name = lambda i: "c" * (i % 3) + str(i)
            for els in (None, (("mostra", g.I(-5)),)):
                f = f"e{n}_{els is None}"
                cases = tuple((g.I(x), (("mostra", g.I(1000 + i)),)) for i, x in enumerate(xs))
                yield Packed("cases", (), (g.func(f, (("k", "int"),), None, ("escolha", g.V("k"), cases + cases[:3], els), ("mostra", g.V("k"))),) + tuple(g.do(g.call(f, g.I(k))) for k in picks))
                cases = tuple((g.T(name(x)), (("mostra", g.I(1000 + i)),)) for i, x in enumerate(xs))
                yield Packed("cases of texts", (), (g.func(f, (("k", "texto"),), None, ("escolha", g.V("k"), cases + cases[:3], els), ("mostra", g.V("k"))),) + tuple(g.do(g.call(f, g.T(name(k)))) for k in picks))
                branches = tuple((g.B("==", g.V("k"), g.I(x)), (("mostra", g.I(1000 + i)),)) for i, x in enumerate(xs))
                yield Packed("branches", (), (g.func(f, (("k", "int"),), None, ("se", branches[0][0], branches[0][1], branches[1:], els), ("mostra", g.V("k"))),) + tuple(g.do(g.call(f, g.I(k))) for k in picks))
                branches = tuple((g.B("<=", g.V("k"), g.I(i)), (("mostra", g.I(1000 + i)),)) for i in range(n))
                yield Packed("branches", (), (g.func(f, (("k", "int"),), None, ("se", branches[0][0], branches[0][1], branches[1:], els), ("mostra", g.V("k"))),) + tuple(g.do(g.call(f, g.I(k))) for k in picks))
            d = min(n, 24)
            T = g.V("t")
            for loop in ("para", "enquanto", "para enquanto", "enquanto se", "para escolha", "para se iguala"):
                for leave in ("quebra", "continua"):
                    for at in sorted({0, 1, d // 2, d - 2, d - 1}):
                        body = ()
                        for i in range(d - 1, -1, -1):
                            kind = loop.split()[min(i % 2, len(loop.split()) - 1)] if not loop.startswith("para se") else ("para", "se iguala")[i % 2]
                            mark = (("mostra", g.I(i)), g.put("t", g.I(1), "+="))
                            jump = (("se", g.B("==", g.B("%", T, g.I(3)), g.I(0)), ((leave,),), (), None),) if i == at else ()
                            inner = mark + body + jump + (("mostra", g.I(500 + i)),)
                            if kind == "para":
                                body = (("para", f"i{i}", g.I(0), g.I(2 if i % 6 == 0 else 1), None, inner), ("mostra", g.I(100 + i)))
                            elif kind == "enquanto":
                                c = f"c{i}"
                                body = (g.let(c, "int", g.I(0)), ("enquanto", g.B("<", g.V(c), g.I(2 if i % 6 == 3 else 1)), (g.put(c, g.I(1), "+="),) + inner), ("mostra", g.I(100 + i)))
                            elif kind == "se":
                                body = (("se", g.TRUE, inner, (), None), ("mostra", g.I(100 + i)))
                            elif kind == "escolha":
                                body = (("escolha", g.I(i), ((g.I(-1), ()), (g.I(i), inner)), None), ("mostra", g.I(100 + i)))
                            else:
                                body = (("seiguala", ("variant", "U", "A", (g.I(i),)), ("pcon", "U", "A", (("pvar", f"q{i}"),)), inner + (("mostra", g.V(f"q{i}")),), None), ("mostra", g.I(100 + i)))
                        f = f"n{n}"
                        if d == n:
                            yield Packed("deep", UNI, (g.func(f, (), "int", g.let("t", "int", g.I(0)), *body, g.ret(T)), ("mostra", g.call(f))))
    return run


def spaces(tier):
    q = tier == "quick"
    L = (S, Q, C, R, guarded(Q), guarded(C), guarded(R), guarded(Q, 3), guarded(R, 3))
    B = (PARA, ENQ, SE, SENAO, ESCOLHA, IGUALA, SEIG, ELIF)
    yield Space("every statement", "nests of 9 statements and 8 blocks of up to 2 nodes" if q else "nests of 9 statements and 8 blocks of up to 3 nodes", nests((1, 2) if q else (1, 2, 3), L, B), judge_packed, 200)
    if q:
        yield Space("loops and choices", "nests of 3 nodes of 9 statements and 4 blocks, in a function", nests((3,), L[1:], (PARA, ENQ, SENAO), False), judge_packed, 200)
    yield Space("loops", f"nests of {4 if q else '4 and 5'} nodes of 3 statements and 3 blocks, in a function", nests((4,) if q else (4, 5), (S, guarded(Q), guarded(C)), (PARA, ENQ, SE), False), judge_packed, 200)
    yield Space("loops in loops", "nests of 4 nodes of 2 statements and 4 blocks, in the entry code", nests((3,) if q else (3, 4), (guarded(Q), guarded(C)), (PARA, ENQ, ESCOLHA, IGUALA)), judge_packed, 200)
    yield Space("ranges", "every start, end and step from -2 to 3, constants and variables that the body changes", ranges, judge_packed, 100)
    yield Space("conditions", "chains of up to 5 conditions, formulas of up to 3 operands, 'escolha' with up to 3 cases", conditions, judge_packed, 150)
    yield Space("long code", "blocks of up to 5000 statements, loops of up to 100000 iterations", long, judge_programs, 1)
    yield Space("many", "'escolha' and 'se' with 6 to 60 (300) cases, of ints and texts; loops and blocks 6 to 20 levels deep, left from 5 of them", many((6, 9, 17, 20, 33, 60) if q else (5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 24, 31, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 300)), judge_packed, 10)
