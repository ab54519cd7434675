"""C01: the value and the display of expressions."""
from mc import gen as g
from mc.harness import Packed, Space, judge_packed

PROP = "C01"
LEVEL = "exploration"
RULE = ("every expression of the stated shapes over the stated operands is compiled and run by the real compiler and "
        "VM, and its output, its runtime error (message, line) or its rejection (file, line) is compared with the "
        "reference model; two cases are distinct when their sources differ")

LEAVES = g.INTS + g.REALS + g.TEXTS + g.BOOLS + (g.NULO,)
FEW = g.FEW_INTS + g.FEW_REALS + (g.T("a"),) + g.BOOLS

# operands that reach the compiler by other ways than a literal
FROM = (
    g.func("fi", (), "int", g.ret(g.I(-7))),
    g.func("fr", (), "real", g.ret(g.R("2.5"))),
    g.func("fb", (), "bool", g.ret(g.TRUE)),
    g.func("ft", (), "texto", g.ret(g.T("ab"))),
    ("registo", "P", (("i", "int"), ("r", "real"), ("b", "bool"), ("t", "texto"))),
    g.let("p", "P", ("new", "P", (("i", g.I(3)), ("r", g.I(2)), ("b", g.FALSE), ("t", g.T("x"))))),
    g.let("vi", ("vec", "int"), g.vec("int", g.I(5), g.I(-5))),
    g.let("vr", ("vec", "real"), g.vec("real", g.I(1), g.R("0.5"))),
    g.let("xi", "int", g.I(4)),
    g.let("xr", "real", g.I(4)),
    g.let("xb", "bool", g.TRUE),
    g.let("xt", "texto", g.T("1")),
    g.let("oi", ("opt", "int"), g.I(9)),
    g.let("on", ("opt", "int"), g.NULO),
)
SOURCES = (
    g.call("fi"), g.call("fr"), g.call("fb"), g.call("ft"),
    g.get(g.V("p"), "i"), g.get(g.V("p"), "r"), g.get(g.V("p"), "b"), g.get(g.V("p"), "t"),
    g.idx(g.V("vi"), 1), g.idx(g.V("vr"), 0), g.idx(g.V("xt"), 0),
    g.V("xi"), g.V("xr"), g.V("xb"), g.V("xt"), g.V("oi"), g.V("on"), g.V("p"), g.V("vi"),
    g.get(g.V("oi"), "valor"), g.get(g.V("on"), "valor"),
    ("cast", g.V("xi"), "real"), ("cast", g.V("xr"), "int"), ("fstr", ("v", g.V("xi"))),
    ("match", g.V("xi"), ((("pint", 4), ("expr", g.I(8))), (("pvar", "_"), ("expr", g.I(0))))),
    g.I(2), g.R("0.5"), g.T("ab"), g.TRUE,
)
EMPTY = ()


def one(prelude, e):
    return Packed("", prelude, (("mostra", e),))


def unary():
    for op in ("-", "+", "nao"):
        for a in LEAVES + SOURCES:
            yield one(FROM, ("un", op, a))
            for op2 in ("-", "+", "nao"):
                yield one(FROM, ("un", op, ("par", ("un", op2, a))))
    for a in LEAVES + SOURCES:
        yield one(FROM, a)


def binary():
    for op in g.BINOPS:
        for a in LEAVES:
            for b in LEAVES:
                yield one(EMPTY, g.B(op, a, b))


def sources():
    for op in g.BINOPS:
        for a in SOURCES:
            for b in SOURCES:
                yield one(FROM, g.B(op, a, b))


def depth2(leaves, ops):
    def run():
        for o1 in ops:
            for o2 in ops:
                for a in leaves:
                    for b in leaves:
                        for c in leaves:
                            yield one(EMPTY, g.B(o1, g.B(o2, a, b), c))
                            yield one(EMPTY, g.B(o1, a, ("par", g.B(o2, b, c))))
    return run


def spaces(tier):
    yield Space("unary", "every unary operator, and pair of them, on every operand", unary, judge_packed, 160)
    yield Space("binary", f"every binary operator on every pair of {len(LEAVES)} literals of every type", binary, judge_packed, 160)
    yield Space("sources", f"every binary operator on every pair of {len(SOURCES)} operands that are variables, fields, elements, calls, conversions, optionals", sources, judge_packed, 160)
    few = (g.I(2), g.I(-3), g.R("2.5"), g.TRUE)
    yield Space("depth 2", "every pair of binary operators in both shapes over 4 operands", depth2(few, g.BINOPS), judge_packed, 160)
    if tier == "thorough":
        yield Space("depth 2, more operands", f"every pair of binary operators in both shapes over {len(FEW)} operands", depth2(FEW, g.BINOPS), judge_packed, 160)
