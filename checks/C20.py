"""C20: conversions and promotions."""
import itertools

from checks import positions
from mc import gen as g
from mc.harness import Case, Packed, Space, judge_packed, judge_programs

PROP = "C20"
LEVEL = "exploration"
RULE = ("every conversion of every value of the stated sets to every type, every sequence of conversions up to a length, every text over an alphabet up to a length "
        "converted to a number, and every kind of integer expression in every place where a real (or an indef, or an optional) is expected, compared with the model; "
        "two cases are distinct when their sources differ")
V, I, B, T, R, call, get, put, idx, NULO = g.V, g.I, g.B, g.T, g.R, g.call, g.get, g.put, g.idx, g.NULO


def new(t, **fs):
    return ("new", t, tuple(fs.items()))


TYPES = (("registo", "P", (("n", "int"), ("r", "real"))), ("uniao", "U", (("A", ()), ("C", ("real",)))))
PRIMS = ("int", "real", "bool", "texto", "indef")
VALUES = {
    "int": tuple(I(n) for n in (0, 1, -1, 7, 255, 2**31, 2**53, 2**53 + 1, 2**62 + 1, g.INT_MAX - 1, g.INT_MAX, g.INT_MIN, g.INT_MIN + 1)),
    "real": tuple(R(t) for t in ("0.0", "-0.0", "0.5", "-0.5", "1.5", "-1.5", "2.0", "0.1", "1234567.875", "9007199254740993.0", "9223372036854775807.0", "9223372036854775808.0", "-9223372036854775808.0",
                                 "-9223372036854777856.0", "100000000000000000000.0", "0.000001", "0.0000000001", "123456789012345680.0", "1000000000000000000000000.0", "0.30000000000000004")) + (B("/", R("1.0"), R("0.0")),) + tuple(("cast", T(t), "real") for t in ("inf", "-inf", "nan")),
    "bool": (g.TRUE, g.FALSE),
    "texto": tuple(T(s) for s in ("", "0", "1", "-1", "+1", "--1", "1.0", "-1.5", ".5", "5.", "1e3", "1E-3", " 1", "1 ", "1_000", "0x10", "verdadeiro", "falso", "nulo", "9223372036854775807", "9223372036854775808",
                                  "-9223372036854775808", "-9223372036854775809", "00012", "é", "１", "1\n", "\n1", "1.5\n", "1\t", "\t2.5", "\u00a01", "1\u2003", "inf", "-inf", "NaN", "infinity", "1e309", "1e-400", "abc", "1.5.2", "-", "+", ".", "e", "1e", "٣")),
    "indef": (I(5), R("2.5"), g.TRUE, T("tx"), NULO, g.vec("int", I(1)), new("P", n=I(1), r=I(2)), ("variant", "U", "A", None)),
}
OTHERS = {("vec", "int"): g.vec("int", I(1)), "P": new("P", n=I(1), r=I(2)), "U": ("variant", "U", "A", None), ("opt", "int"): ("cast", I(3), ("opt", "int")), "nulo": NULO}


def boxed(e):
    """A value of type indef: the value in a variable."""
    return e


def casts():
    targets = PRIMS + tuple(("opt", t) for t in PRIMS) + (("vec", "int"), "P", "U", "zz")
    for t, vals in VALUES.items():
        for e in vals:
            for to in targets:
                yield Packed(f"{t} to {to}", TYPES, (g.func("c", (("x", t),), None, ("mostra", ("cast", V("x"), to)), ("mostra", V("x"))), g.do(call("c", e)))) if False else \
                    Packed(f"{t} to {to}", (), TYPES + (g.let("x", t, e), ("mostra", ("cast", V("x"), to)), ("mostra", V("x"))))
                if t != "indef":
                    yield Packed(f"{t} literal to {to}", (), TYPES + (("mostra", ("cast", ("par", e), to)),))
    for t, e in OTHERS.items():
        for to in targets:
            yield Packed(f"{t} to {to}", (), TYPES + (("mostra", ("cast", e, to)), ("mostra", I(1))))


def texts(alphabet, n):
    """Every text up to a length as an integer and as a real."""
    def run():
        for k in range(n + 1):
            for cs in itertools.product(alphabet, repeat=k):
                s = "".join(cs)
                for to in ("int", "real", "bool"):
                    yield Packed(f"{s!r} to {to}", (), (("mostra", ("cast", T(s), to)), ("mostra", I(1))))
    return run


def chains(n):
    start = (I(0), I(7), I(-3), R("0.0"), R("2.5"), R("-3.0"), g.TRUE, g.FALSE, T(""), T("12"), T("1.5"), T("x"))

    def run():
        for e in start:
            for ts in itertools.product(PRIMS, repeat=n):
                x = ("par", e) if e[0] in ("un", "bin") else e
                for t in ts:
                    x = ("cast", x, t)
                yield Packed("chain " + " ".join(ts), (), (("mostra", x), ("mostra", I(1))))
    return run


# kinds of expressions of type int, whose value is 3: (declarations, expression)
F3 = g.func("três", (), "int", g.ret(I(3)))
INTS = {
    "literal": ((), I(3)), "negative": ((), B("-", I(4), I(1))), "unary": ((), ("un", "-", ("par", ("un", "-", I(3))))), "plus": ((), ("un", "+", I(3))), "parentheses": ((), ("par", I(3))),
    "variable": ((g.let("a", "int", I(3)),), V("a")), "call": ((F3,), call("três")), "tam": ((), call("tam", T("abc"))), "cast": ((), ("cast", R("3.7"), "int")), "cast text": ((), ("cast", T("3"), "int")),
    "element": ((g.let("l", ("vec", "int"), g.vec("int", I(3))),), idx(V("l"), 0)), "literal element": ((), idx(g.vec("int", I(1), I(3)), 1)), "field": ((g.let("p", "P", new("P", n=I(3), r=I(0))),), get(V("p"), "n")),
    "initializer": ((), get(new("P", n=I(3), r=I(0)), "n")), "method": ((("met", "int", "mais", (), "int", (g.ret(B("+", ("alvo",), I(1))),)),), ("mcall", I(2), "mais", ())), "valor": ((g.let("o", ("opt", "int"), I(3)),), get(V("o"), "valor")),
    "valor_ou": ((g.let("o", ("opt", "int"), NULO),), ("mcall", V("o"), "valor_ou", (I(3),))), "iguala": ((), ("match", I(1), ((("pint", 1), ("expr", I(3))), (("pvar", "_"), ("expr", I(0)))))),
    "remova": ((g.let("l", ("vec", "int"), g.vec("int", I(3))),), call("remova", V("l"), I(0))), "division": ((), B("//", I(7), I(2))), "remainder": ((), B("%", I(7), I(4))),
    "produz": ((), ("match", I(1), ((("pint", 1), ("block", (g.let("q", "int", I(2)),), B("+", V("q"), I(1)))), (("pvar", "_"), ("expr", I(0)))))),
}


def real_places(e):
    """(declarations, statements that show what the int became)."""
    yield "declaration", (), (g.let("x", "real", e), ("mostra", V("x")))
    yield "assignment", (), (g.let("x", "real", R("0.5")), put("x", e), ("mostra", V("x")))
    for op in ("+=", "-=", "*=", "/="):
        yield "compound " + op, (), (g.let("x", "real", R("7.5")), put("x", e, op), ("mostra", V("x")))
    yield "chained", (), (g.let("x", "real", R("0.5")), g.let("y", "real", R("0.5")), ("assign", V("x"), "=", ("assign", V("y"), "=", e)), ("mostra", V("x")), ("mostra", V("y")))
    yield "argument", (g.func("f", (("x", "real"),), None, ("mostra", V("x"))),), (g.do(call("f", e)),)
    yield "second argument", (g.func("f", (("w", "int"), ("x", "real")), None, ("mostra", V("x")), ("mostra", V("w"))),), (g.do(call("f", e, e)),)
    yield "method argument", (("met", "texto", "f", (("x", "real"),), None, (("mostra", V("x")),)),), (g.do(("mcall", T("a"), "f", (e,))),)
    yield "result", (), None
    yield "field", (), (("mostra", get(new("P", n=I(0), r=e), "r")),)
    yield "stored field", (), (g.let("h", "P", new("P", n=I(0), r=R("0.5"))), put(get(V("h"), "r"), e), ("mostra", get(V("h"), "r")))
    yield "stored field +=", (), (g.let("h", "P", new("P", n=I(0), r=R("0.5"))), put(get(V("h"), "r"), e, "+="), ("mostra", get(V("h"), "r")))
    yield "element", (), (("mostra", g.vec("real", R("0.5"), e, e)),)
    yield "stored element", (), (g.let("v", ("vec", "real"), g.vec("real", R("0.5"))), put(idx(V("v"), 0), e), ("mostra", V("v")))
    yield "stored element *=", (), (g.let("v", ("vec", "real"), g.vec("real", R("0.5"))), put(idx(V("v"), 0), e, "*="), ("mostra", V("v")))
    yield "inner element", (), (("mostra", g.vec(("vec", "real"), g.vec("real", e))),)
    yield "anexa", (), (g.let("v", ("vec", "real"), g.vec("real")), g.do(call("anexa", V("v"), e)), ("mostra", V("v")))
    yield "optional", (), (g.let("x", ("opt", "real"), e), ("mostra", V("x")), ("mostra", get(V("x"), "valor")))
    yield "optional assignment", (), (g.let("x", ("opt", "real"), NULO), put("x", e), ("mostra", V("x")))
    yield "optional argument", (g.func("f", (("x", ("opt", "real")),), None, ("mostra", V("x"))),), (g.do(call("f", e)),)
    yield "default", (), (g.let("x", ("opt", "real"), NULO), ("mostra", ("mcall", V("x"), "valor_ou", (e,))))
    yield "variant", (), (("mostra", ("match", ("variant", "U", "C", (e,)), ((("pcon", "U", "C", (("pvar", "k"),)), ("expr", V("k"))), (("pvar", "_"), ("expr", R("0.5")))))),)
    yield "cast", (), (("mostra", ("cast", e, "real")),)
    yield "indef", (), (g.let("x", "indef", e), ("mostra", V("x")), ("mostra", ("cast", V("x"), "int")))
    yield "indef as real", (), (g.let("x", "indef", e), ("mostra", ("cast", V("x"), "real")))
    yield "real into indef", (), (g.let("y", "real", e), g.let("x", "indef", V("y")), ("mostra", ("cast", V("x"), "real")))
    for op in ("+", "-", "*", "/", "//", "%", "<", ">=", "==", "!="):
        yield f"left of {op}", (), (("mostra", B(op, e, R("2.0"))),)
        yield f"right of {op}", (), (("mostra", B(op, R("7.0"), e)),)
        yield f"both of {op}", (), (("mostra", B(op, e, e)),)
    yield "mixed", (), (("mostra", B("+", B("*", e, R("0.5")), e)),)
    yield "escolha", (), (("escolha", R("3.0"), ((e, (("mostra", T("sim")),)),), (("mostra", T("não")),)),)
    yield "arms", (), (("mostra", ("match", I(1), ((("pint", 1), ("expr", e)), (("pvar", "_"), ("expr", R("0.5")))))),)
    yield "global", (g.let("gx", "real", R("0.5")), g.func("f", (), None, put("gx", I(3)))), (put("gx", e), ("mostra", V("gx")), g.do(call("f")), ("mostra", V("gx")))
    yield "as int", (), (g.let("x", "int", e), ("mostra", V("x")))
    yield "as texto", (), (g.let("x", "texto", e), ("mostra", V("x")))
    yield "as bool", (), (g.let("x", "bool", e), ("mostra", V("x")))
    yield "vector", (), (g.let("x", ("vec", "real"), g.vec("int", e)), ("mostra", V("x")))


def promotions():
    for kn, (decls, e) in INTS.items():
        dglob = tuple(s for s in decls if s[0] in ("func", "met"))
        dloc = tuple(s for s in decls if s[0] not in ("func", "met"))
        for pn, extra, st in real_places(e):
            label = f"{kn} as {pn}"
            if st is None:
                for r in ("real", ("opt", "real"), "indef", "int"):
                    yield Packed(label, (), TYPES + dglob + (g.func("f", (), r, *dloc, g.ret(e)), ("mostra", call("f"))))
                    yield Packed(label, (), TYPES + dglob + (("met", "bool", "f", (), r, dloc + (g.ret(e),)), ("mostra", ("mcall", g.TRUE, "f", ()))))
                continue
            yield Packed(label, (), TYPES + dglob + extra + dloc + st)
            yield Packed(label + " in a function", (), TYPES + dglob + extra + (g.func("main", (), None, *dloc, *st), g.do(call("main"))))


def boxes():
    """A value in an indef keeps its type, however it got there and left."""
    vals = {"int": I(5), "real": R("2.5"), "bool": g.TRUE, "texto": T("ab"), "nulo": NULO, "P": new("P", n=I(4), r=I(1)), "U": ("variant", "U", "A", None), ("vec", "int"): g.vec("int", I(1)), ("opt", "int"): ("cast", I(6), ("opt", "int")),
            "none": V("none"), "some": V("some"), "none of P": V("noneP"), "some real": V("someR"), "indef": V("ind")}
    given = {"none": (g.let("none", ("opt", "int"), NULO),), "some": (g.let("some", ("opt", "int"), I(8)),), "none of P": (g.let("noneP", ("opt", "P"), NULO),), "some real": (g.let("someR", ("opt", "real"), I(8)),),
             "indef": (g.let("none", ("opt", "texto"), NULO), g.let("ind", "indef", V("none")))}
    for t, e in vals.items():
        pre = given.get(t, ())
        ways = (
            ((), (g.let("x", "indef", e),), V("x")),
            ((), (g.let("x", "indef", I(0)), put("x", e)), V("x")),
            ((g.func("f", (("y", "indef"),), "indef", g.ret(V("y"))),), (), call("f", e)),
            ((), (g.let("v", ("vec", "indef"), g.vec("indef", I(0), e, T("z"))),), idx(V("v"), 1)),
            ((), (g.let("v", ("vec", "indef"), g.vec("indef")), g.do(call("anexa", V("v"), e))), idx(V("v"), 0)),
            ((("registo", "H", (("i", "indef"),)),), (g.let("h", "H", new("H", i=e)),), get(V("h"), "i")),
            ((("registo", "H", (("i", "indef"),)),), (g.let("h", "H", new("H", i=I(0))), put(get(V("h"), "i"), e)), get(V("h"), "i")),
            ((), (), ("cast", e, "indef")),
            ((), (g.let("x", ("opt", "indef"), e),), get(V("x"), "valor")),
            ((("uniao", "Z", (("K", ("indef",)),)),), (), ("match", ("variant", "Z", "K", (e,)), ((("pcon", "Z", "K", (("pvar", "k"),)), ("expr", V("k"))),))),
        )
        for d, s, x in ways:
            for to in PRIMS + (("opt", "int"), ("opt", "real"), ("opt", "texto"), "P", "U", ("vec", "int"), ("opt", "P")):
                yield Packed(f"{t} in indef to {to}", (), TYPES + d + pre + s + (("mostra", ("cast", x, to)), ("mostra", I(1))))
            uses = (("mostra", x), ("mostra", ("fstr", ("<", x, ">"))), ("mostra", B("==", x, e)), ("mostra", B("==", x, NULO)), ("mostra", B("!=", x, x)), ("mostra", B("+", x, I(1))), ("mostra", get(x, "n")), ("mostra", idx(x, 0)),
                    ("mostra", call("tam", x)), ("se", x, (), (), None), g.let("k", "int", x), g.do(call("escreva", x)), ("mostra", ("un", "-", x)), ("mostra", ("mcall", x, "m", ())), ("mostra", ("match", x, ((("pvar", "_"), ("expr", I(1))),))),
                    g.let("k", "indef", x), ("mostra", get(("cast", x, "P"), "n")))
            for u in uses:
                yield Packed(f"{t} in indef", (), TYPES + d + pre + s + (u, ("mostra", I(1))))


def conditions():
    """Conversions to bool, and what may be a condition."""
    for e in VALUES["int"][:4] + VALUES["real"][:5] + VALUES["texto"] + (T(" "), T("\n"), T("\t \n"), T("\u00a0")) + VALUES["bool"]:
        c = ("cast", ("par", e), "bool")
        yield Packed("bool", (), (("se", c, (("mostra", T("sim")),), (), (("mostra", T("não")),)), ("mostra", c), ("mostra", ("un", "nao", c)), ("mostra", B("e", c, g.TRUE)), ("mostra", B("ou", c, g.FALSE)), ("mostra", B("==", c, g.TRUE))))
        yield Packed("condition", (), (("se", e, (("mostra", T("sim")),), (), (("mostra", T("não")),)),))


def positions_of(sizes):
    def run():
        pre = (g.let("i_", "int", I(-6)), g.func("fi_", (), "int", g.ret(I(9))))
        ints = (I(4), V("i_"), B("-", call("fi_"), V("i_")))
        default = {"real": R("1.5"), "int": I(3), ("opt", "real"): NULO, "indef": T("z")}
        for n in sizes:
            yield from positions.lists(n, ("real", "int", ("opt", "real"), "indef")[:4 if n < 8 else 2], default, lambda t: ints if n < 8 else ints[:1], pre)
    return run


def spaces(tier):
    q = tier == "quick"
    yield Space("casts", "every value of each type to each type and its optional", casts, judge_packed, 120)
    yield Space("texts", f"every text of up to {3 if q else 4} of {9 if q else 10} symbols as an int, a real and a bool", texts("01-+.e ax\n" if not q else "07-+.e x\n", 3 if q else 4), judge_packed, 120)
    yield Space("chains", f"every sequence of {3 if q else 4} conversions between 5 types, of 12 values", chains(3 if q else 4), judge_packed, 120)
    yield Space("promotions", f"{len(INTS)} kinds of integer expressions in every place where another type is expected", promotions, judge_packed, 120)
    yield Space("positions", "lists of 5 to 17 (40) arguments, fields, elements, arms, each of which is an int, or all of them", positions_of((5, 17) if q else (2, 3, 4, 5, 8, 9, 10, 16, 17, 32, 33, 40)), judge_packed, 30)
    yield Space("boxes", "14 kinds of values (with optionals with and without a value), 10 ways of putting them in an indef, every conversion and use", boxes, judge_packed, 100)
    yield Space("conditions", "conversions to bool", conditions, judge_packed, 30)
