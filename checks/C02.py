"""C02: how expressions are grouped (precedence, associativity, postfix)."""
import itertools

from mc import gen as g
from mc.harness import Packed, Space, judge_packed
from mc.model import PREC, binop_ty

PROP = "C02"
LEVEL = "exploration"
RULE = ("every tree of operators of the stated sizes is printed with the fewest parentheses that the grammar needs and run; the "
        "value must be that of the tree; two cases are distinct when their sources differ")
ASSUMPTIONS = ["operands are chosen so that different groupings usually give different values"]

PRELUDE = (
    ("registo", "P", (("i", "int"), ("v", ("vec", "int")), ("b", "bool"))),
    ("met", "P", "m", (("x", "int"),), "int", (g.ret(g.B("-", g.get(("alvo",), "i"), g.V("x"))),)),
    g.func("f", (("x", "int"),), "int", g.ret(g.B("*", g.V("x"), g.I(3)))),
    g.func("q", (), "P", g.ret(("new", "P", (("i", g.I(6)), ("v", g.vec("int", g.I(9), g.I(4))), ("b", g.TRUE))))),
    g.let("p", "P", g.call("q")),
    g.let("w", ("vec", ("vec", "int")), g.vec(("vec", "int"), g.vec("int", g.I(8), g.I(5)), g.vec("int", g.I(2)))),
    g.let("o", ("opt", "int"), g.I(4)),
)

INT = [g.I(7), g.I(2), g.I(3), g.I(5), g.I(11)]


def trees(n, i=0):
    """Every binary tree with n operators; leaves are numbered."""
    if n == 0:
        yield ("leaf", i), i + 1
        return
    for k in range(n):
        for l, j in trees(k, i):
            for r, m in trees(n - 1 - k, j):
                yield ("node", l, r), m


def typed(shape, ops, kinds):
    """The tree with the operators and the kinds of leaves, or None when it
    has no type."""
    it = iter(ops)

    def go(s):
        if s[0] == "leaf":
            k = kinds[s[1]]
            return (INT[s[1]], "int") if k == "int" else (g.TRUE if k == "T" else g.FALSE, "bool")
        l = go(s[1])
        op = next(it)
        r = go(s[2])
        if l is None or r is None:
            return None
        t = binop_ty(op, l[1], r[1])
        if t is None:
            return None
        return g.B(op, l[0], r[0]), t

    # in-order, so that `ops` is the order of the text
    return go(shape)


def binary(n):
    def run():
        for shape, _ in trees(n):
            for ops in itertools.product(g.BINOPS, repeat=n):
                for kinds in itertools.product(("int", "T", "F"), repeat=n + 1):
                    r = typed(shape, ops, kinds)
                    if r is not None:
                        yield Packed("", (), (("mostra", r[0]),))
    return run


ATOMS_INT = (
    g.I(7), g.V("o1"), g.call("f", g.I(2)), g.get(g.V("p"), "i"), g.idx(g.get(g.V("p"), "v"), 1), g.idx(g.V("w"), 0, 1),
    ("mcall", g.V("p"), "m", (g.I(1),)), ("mcall", g.call("q"), "m", (g.I(2),)), g.get(g.call("q"), "i"),
    g.idx(g.get(g.call("q"), "v"), 0), g.get(g.V("o"), "valor"), ("mcall", g.V("o"), "valor_ou", (g.I(1),)),
    ("cast", g.R("2.5"), "int"), ("cast", g.get(g.V("p"), "i"), "int"), g.call("tam", g.idx(g.V("w"), 0)),
    g.call("f", g.B("-", g.I(1), g.I(2))), g.idx(g.get(g.V("p"), "v"), g.B("-", g.I(3), g.I(2))),
    ("par", g.B("-", g.I(1), g.I(4))),
)
ATOMS_BOOL = (g.TRUE, g.get(g.V("p"), "b"), ("par", g.B("<", g.I(1), g.I(2))), ("cast", g.I(0), "bool"), g.get(g.call("q"), "b"))


def postfix():
    pre = PRELUDE + (g.let("o1", "int", g.I(11)),)
    for a in ATOMS_INT:
        for op in g.ARITH + g.COMPARE + g.EQUAL:
            for b in ATOMS_INT:
                yield Packed("", pre, (("mostra", g.B(op, a, b)),))
                yield Packed("", pre, (("mostra", g.B(op, ("un", "-", a), b)),))
                yield Packed("", pre, (("mostra", g.B(op, a, ("un", "-", b))),))
                if op in g.ARITH:
                    yield Packed("", pre, (("mostra", ("un", "-", g.B(op, a, b))),))
                    yield Packed("", pre, (("mostra", ("cast", ("par", g.B(op, a, b)), "texto")),))
                    yield Packed("", pre, (("mostra", g.B(op, a, ("cast", b, "real"))),))
        for op in g.ARITH:
            yield Packed("", pre, (("mostra", g.B(op, ("cast", a, "real"), g.I(2))),))
        yield Packed("", pre, (("mostra", ("cast", a, "texto")),))
        yield Packed("", pre, (("mostra", ("cast", ("un", "-", a), "texto")),))
        yield Packed("", pre, (("mostra", ("un", "-", ("cast", a, "real"))),))
    for a in ATOMS_BOOL:
        for op in g.LOGIC + g.EQUAL:
            for b in ATOMS_BOOL:
                yield Packed("", pre, (("mostra", g.B(op, a, b)),))
                yield Packed("", pre, (("mostra", g.B(op, ("un", "nao", a), b)),))
                yield Packed("", pre, (("mostra", g.B(op, a, ("un", "nao", b))),))
                yield Packed("", pre, (("mostra", ("un", "nao", g.B(op, a, b))),))
                for op2 in g.COMPARE + g.EQUAL:
                    yield Packed("", pre, (("mostra", g.B(op, a, g.B(op2, g.I(1), g.I(2)))),))
                    yield Packed("", pre, (("mostra", g.B(op, g.B(op2, g.I(1), g.I(2)), b)),))


def grouped(leaves, ops):
    """The tree of a sequence without parentheses."""
    out, stack = [leaves[0]], []

    def reduce():
        op, r, l = stack.pop(), out.pop(), out.pop()
        out.append(g.B(op, l, r))
    for op, leaf in zip(ops, leaves[1:]):
        while stack and PREC[stack[-1]] >= PREC[op]:
            reduce()
        stack.append(op)
        out.append(leaf)
    while stack:
        reduce()
    return out[0]


def long(sizes):
    """Long sequences of operators with one, two or three that take turns."""
    def run():
        small = [g.I(3), g.V("dois"), g.I(1), g.V("um"), g.I(2)]
        truth = [g.TRUE, g.FALSE, g.V("sim"), g.B("<", g.V("um"), g.I(2)), g.B("!=", g.I(1), g.V("um"))]
        pre = (g.let("um", "int", g.I(1)), g.let("dois", "int", g.I(2)), g.let("sim", "bool", g.TRUE))
        for n in sizes:
            for group, leaves, ends in ((("+", "-", "*", "//", "%"), small, (None, "<", "==")), (("+", "-", "/", "*"), small, (None, ">=")), (("e", "ou"), truth, (None,)), (("==", "!=", "e"), truth[:3], (None,))):
                for k in (1, 2, 3):
                    for turn in itertools.product(group, repeat=k):
                        if len(set(turn)) != k:
                            continue
                        ops = [turn[i % k] for i in range(n)]
                        ls = [leaves[(i * 2 + i // 5) % len(leaves)] for i in range(n + 1)]
                        for end in ends:
                            e = grouped(ls + [g.I(2)] * bool(end), ops + [end] * bool(end))
                            yield Packed("sequence", pre, (("mostra", e),))
                        if k < 3:
                            # the same operators, grouped from the right
                            e = ls[-1]
                            for i in range(n - 1, -1, -1):
                                e = g.B(ops[i], ls[i], e)
                            yield Packed("from the right", pre, (("mostra", e),))
    return run


def spaces(tier):
    yield Space("2 operators", "every well-typed tree of 2 binary operators over integer and boolean leaves", binary(2), judge_packed, 200)
    yield Space("3 operators", "every well-typed tree of 3 binary operators over integer and boolean leaves", binary(3), judge_packed, 400)
    yield Space("postfix", "calls, fields, indices, methods, conversions, optionals and unary operators as operands of every operator", postfix, judge_packed, 200)
    yield Space("long", "sequences of 5 to 17 (40) operators, of which up to three take turns", long((5, 8, 17) if tier == "quick" else (4, 5, 6, 7, 8, 9, 12, 16, 17, 25, 33, 40)), judge_packed, 60)
    if tier == "thorough":
        yield Space("4 operators", "every well-typed tree of 4 binary operators over integer and boolean leaves", four, judge_packed, 800)


def four():
    # one operator of each kind and precedence
    ops = ("-", "//", "%", "<", "==", "e", "ou")
    for shape, _ in trees(4):
        for o in itertools.product(ops, repeat=4):
            for kinds in itertools.product(("int", "T", "F"), repeat=5):
                r = typed(shape, o, kinds)
                if r is not None:
                    yield Packed("", (), (("mostra", r[0]),))
