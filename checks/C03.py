"""C03: which programs the compiler accepts (types of every context)."""
import itertools

from checks import positions
from mc import gen as g
from mc.harness import Case, Packed, Space, judge_packed, judge_programs

PROP = "C03"
LEVEL = "exploration"
RULE = ("every context that constrains a type is filled with an expression of every type, for every expected type; acceptance, "
        "the line of the diagnostic, and the behaviour of what is accepted are compared with the model; two cases are "
        "distinct when their sources differ")

P, U = "P", "U"
PRE = (
    ("registo", "P", (("a", "int"),)),
    ("registo", "R2", (("a", "int"),)),
    ("uniao", "U", (("A", ()), ("B", ("int",)))),
    ("uniao", "W", (("A", ()), ("B", ("int",)))),
    g.func("nada", (), None),
    g.let("vi_", "int", g.I(3)),
    g.let("vr_", "real", g.R("2.5")),
    g.let("vb_", "bool", g.TRUE),
    g.let("vt_", "texto", g.T("ab")),
    g.let("vd_", "indef", g.I(5)),
    g.let("vp_", "P", ("new", "P", (("a", g.I(1)),))),
    g.let("vq_", "R2", ("new", "R2", (("a", g.I(2)),))),
    g.let("vu_", "U", ("variant", "U", "B", (g.I(7),))),
    g.let("vw_", "W", ("variant", "W", "A", None)),
    g.let("lvi_", ("vec", "int"), g.vec("int", g.I(1), g.I(2))),
    g.let("lvr_", ("vec", "real"), g.vec("real", g.R("0.5"))),
    g.let("lvv_", ("vec", ("vec", "int")), g.vec(("vec", "int"), g.vec("int", g.I(1)))),
    g.let("lvp_", ("vec", "P"), g.vec("P")),
    g.let("oi_", ("opt", "int"), g.I(4)),
    g.let("or_", ("opt", "real"), g.R("1.5")),
    g.let("op_", ("opt", "P"), g.NULO),
    g.let("ol_", ("opt", ("vec", "int")), g.V("lvi_")),
    g.let("loi_", ("vec", ("opt", "int")), g.vec(("opt", "int"), g.NULO, g.I(1))),
    g.let("ou_", ("opt", "U"), g.V("vu_")),
)
GOT = (
    g.I(1), g.R("1.5"), g.TRUE, g.T("x"), g.NULO, g.call("nada"),
    g.V("vi_"), g.V("vr_"), g.V("vb_"), g.V("vt_"), g.V("vd_"), g.V("vp_"), g.V("vq_"), g.V("vu_"), g.V("vw_"),
    g.V("lvi_"), g.V("lvr_"), g.V("lvv_"), g.V("lvp_"), g.V("oi_"), g.V("or_"), g.V("op_"), g.V("ol_"), g.V("loi_"), g.V("ou_"),
    g.vec("int", g.I(1)), g.vec("real", g.I(1)), ("new", "P", (("a", g.I(1)),)), ("variant", "U", "A", None),
    g.B("+", g.I(1), g.I(2)), g.B("/", g.I(1), g.I(2)), g.B("<", g.I(1), g.I(2)), g.call("tam", g.V("vt_")),
    ("cast", g.V("vi_"), "real"), ("cast", g.V("vr_"), "int"),
)
# a type and an expression of it
WANT = (
    ("int", g.I(8)), ("real", g.R("8.5")), ("bool", g.FALSE), ("texto", g.T("z")), ("indef", g.V("vd_")),
    ("P", g.V("vp_")), ("R2", g.V("vq_")), ("U", g.V("vu_")),
    (("vec", "int"), g.V("lvi_")), (("vec", "real"), g.V("lvr_")), (("vec", ("vec", "int")), g.V("lvv_")), (("vec", "P"), g.V("lvp_")),
    (("opt", "int"), g.V("oi_")), (("opt", "real"), g.V("or_")), (("opt", "P"), g.V("op_")), (("opt", ("vec", "int")), g.V("ol_")),
    (("vec", ("opt", "int")), g.V("loi_")), (("opt", "indef"), g.NULO), (("opt", "U"), g.V("ou_")), (("opt", "texto"), g.NULO),
    ("vazio", None), ("nulo", None),
)


def over(e):
    """The expression as a value that takes several lines."""
    return ("par", ("match", g.V("vi_"), ((("pint", 3), ("expr", e)), (("pvar", "_"), ("expr", e)))))


def by_type(got=GOT, want=WANT):
    """Contexts with an expected type."""
    for t, ok in want:
        for e in got:
            yield Packed("declaration", PRE, (("decl", ("x",), t, e),) + use("x", t))
            if ok is None:
                continue
            yield Packed("assignment", PRE, (("decl", ("x",), t, ok), g.put("x", e)) + use("x", t))
            yield Packed("argument", PRE, (g.func("f", (("a", "int"), ("x", t)), None, *use("x", t)), g.do(g.call("f", g.I(1), e))))
            yield Packed("result", PRE, (g.func("f", (), t, g.ret(e)), g.do(g.call("f"))))
            yield Packed("element", PRE, (("decl", ("l",), ("vec", t), ("list", t, (ok, e))),) + use(g.idx(g.V("l"), 1), t))
            yield Packed("field", PRE, (("registo", "G", (("f", t), ("k", "int"))), ("decl", ("x",), "G", ("new", "G", (("k", g.I(1)), ("f", e))))) + use(g.get(g.V("x"), "f"), t))
            yield Packed("field assignment", PRE, (("registo", "G", (("f", t),)), ("decl", ("x",), "G", ("new", "G", (("f", ok),))), g.put(g.get(g.V("x"), "f"), e)) + use(g.get(g.V("x"), "f"), t))
            yield Packed("element assignment", PRE, (("decl", ("l",), ("vec", t), ("list", t, (ok,))), g.put(g.idx(g.V("l"), 0), e)) + use(g.idx(g.V("l"), 0), t))
            yield Packed("variant", PRE, (("uniao", "G", (("N", ()), ("V", ("int", t)))), ("decl", ("x",), "G", ("variant", "G", "V", (g.I(1), e))),
                         ("expr", ("match", g.V("x"), ((("pcon", "G", "V", (("pvar", "_"), ("pvar", "y"))), ("block", use("y", t), None)), (("pvar", "_"), ("block", (), None)))))))
            yield Packed("anexa", PRE, (("decl", ("l",), ("vec", t), ("list", t, ())), g.do(g.call("anexa", g.V("l"), e))) + use(g.idx(g.V("l"), 0), t))
            yield Packed("method argument", PRE, (("met", "P", "m", (("x", t),), None, use("x", t)), g.do(("mcall", g.V("vp_"), "m", (e,)))))
            yield Packed("valor_ou", PRE, (("decl", ("x",), ("opt", t), g.NULO), ("mostra", ("mcall", g.V("x"), "valor_ou", (e,)))))
            yield Packed("optional", PRE, (("decl", ("x",), ("opt", t), e),) + use("x", t))
            yield Packed("cast", PRE, (("mostra", ("cast", e, t)),))


def use(x, t):
    e = g.V(x) if isinstance(x, str) else x
    out = (("mostra", e),)
    if t in ("int", "real"):
        out += (("mostra", g.B("/", e, g.I(2))),)
    return out


def fixed(got=GOT, want=WANT):
    """Contexts that accept some types only."""
    for e in got:
        yield Packed("condition", PRE, (("se", e, g.show(g.I(1)), (), g.show(g.I(2))),))
        yield Packed("condition", PRE, (("se", g.FALSE, (), ((e, g.show(g.I(1))),), None),))
        yield Packed("while", PRE, (("enquanto", e, (("quebra",),)), ("mostra", g.I(1))))
        for k in range(3):
            r = [g.I(0), g.I(2), g.I(1)]
            r[k] = e
            yield Packed("para", PRE, (("para", "i", r[0], r[1], r[2], (("mostra", g.V("i")), ("quebra",))),))
        yield Packed("escolha", PRE, (("escolha", e, ((g.I(1), g.show(g.I(1))),), g.show(g.I(0))),))
        yield Packed("escolha", PRE, (("escolha", e, ((g.T("x"), g.show(g.I(1))),), g.show(g.I(0))),))
        yield Packed("caso", PRE, (("escolha", g.I(1), ((e, g.show(g.I(1))),), g.show(g.I(0))),))
        yield Packed("caso", PRE, (("escolha", g.T("x"), ((e, g.show(g.I(1))),), None),))
        yield Packed("mostra", PRE, (("mostra", e),))
        yield Packed("statement", PRE, (("expr", e),))
        yield Packed("fstr", PRE, (("mostra", ("fstr", ("a", e, "b"), "'")),))
        yield Packed("escreva", PRE, (g.do(g.call("escrevaln", e)),))
        yield Packed("leia", PRE, (("mostra", g.call("txt_contem", g.T("axb"), e)),))
        yield Packed("index", PRE, (("mostra", ("idx", g.V("lvi_"), e)),))
        yield Packed("index", PRE, (("mostra", ("idx", g.V("vt_"), e)),))
        yield Packed("indexed", PRE, (("mostra", ("idx", e, g.I(0))),))
        yield Packed("indexed", PRE, (g.put(("idx", e, g.I(0)), g.I(1)),) if e[0] in ("var", "call", "list", "txt") else (("mostra", e),))
        yield Packed("vec", PRE, (("mostra", ("vec", "int", (e,))),))
        yield Packed("vec", PRE, (("mostra", ("vec", "texto", (g.I(1), e))),))
        yield Packed("tam", PRE, (("mostra", g.call("tam", e)),))
        yield Packed("remova", PRE, (("mostra", g.call("remova", g.V("lvi_"), e)),))
        yield Packed("remova", PRE, (("mostra", g.call("remova", e, g.I(0))),))
        yield Packed("anexa", PRE, (g.do(g.call("anexa", e, g.I(0))), ("mostra", e)) if e[0] != "list" else (("mostra", e),))
        yield Packed("valor", PRE, (("mostra", g.get(e, "valor")),))
        yield Packed("valor_ou", PRE, (("mostra", ("mcall", e, "valor_ou", (g.I(1),))),))
        yield Packed("field", PRE, (("mostra", g.get(e, "a")),))
        yield Packed("no field", PRE, (("mostra", g.get(e, "zz")),))
        yield Packed("no method", PRE, (("mostra", ("mcall", e, "zz", ())),))
        yield Packed("called", PRE, (("mostra", ("mcall", e, "a", ())),))
        for op in ("-", "+", "nao"):
            yield Packed("unary", PRE, (("mostra", ("un", op, e)),))
        yield Packed("match", PRE, (("mostra", ("match", e, ((("pint", 1), ("expr", g.I(5))), (("pvar", "k"), ("expr", g.I(6)))))),))
        yield Packed("match", PRE, (("mostra", ("match", e, ((("ptxt", "x"), ("expr", g.I(5))), (("pvar", "k"), ("expr", g.V("k")))))),))
        yield Packed("match", PRE, (("mostra", ("match", e, ((("pcon", "U", "B", (("pvar", "n"),)), ("expr", g.V("n"))), (("pvar", "_"), ("expr", g.I(6)))))),))
        yield Packed("match", PRE, (("mostra", ("match", e, ((("pvar", "x"), ("expr", g.V("x"))),))),))
        yield Packed("no value", PRE, (g.func("f", (), None, g.ret(e)), g.do(g.call("f"))))
        yield Packed("vazio result", PRE, (g.func("f", (), "vazio", g.ret(e)), g.do(g.call("f"))))
        # the types of the arms of an 'iguala' agree
        for e2 in got:
            arms = ((("pint", 3), ("expr", e)), (("pvar", "_"), ("expr", e2)))
            yield Packed("arms", PRE, (("expr", ("match", g.V("vi_"), arms)),))
            yield Packed("arms", PRE, (("expr", ("match", g.V("vi_"), ((("pint", 3), ("block", (), e)), (("pvar", "_"), ("block", (("mostra", g.I(1)),), e2))))),))
        for t, ok in want:
            if ok is None:
                continue
            for op in ("+=", "-=", "*=", "/="):
                yield Packed("compound", PRE, (("decl", ("x",), t, ok), g.put("x", e, op), ("mostra", g.V("x"))))
            yield Packed("compound", PRE, (("decl", ("l",), ("vec", t), ("list", t, (ok,))), g.put(g.idx(g.V("l"), 0), e, "+="), ("mostra", g.idx(g.V("l"), 0))))
            yield Packed("chained", PRE, (("decl", ("x",), t, ok), ("decl", ("y",), "int", g.I(0)), ("assign", g.V("x"), "=", ("assign", g.V("y"), "=", e)), ("mostra", g.V("x")), ("mostra", g.V("y"))))


def arity():
    """The number of arguments, of attributes and of values of variants."""
    for n in range(4):
        for k in range(5):
            params = tuple((f"p{i}", "int") for i in range(n))
            args = tuple(g.I(i) for i in range(k))
            yield Packed("function", (), (g.func("f", params, "int", g.ret(g.I(n))), ("mostra", ("call", "f", args))))
            yield Packed("method", (), (("registo", "P", (("a", "int"),)), ("met", "P", "m", params, "int", (g.ret(g.I(n)),)), ("mostra", ("mcall", ("new", "P", (("a", g.I(1)),)), "m", args))))
            for named in ((), tuple(range(k))):
                yield Packed("variant", (), (("uniao", "U", (("V", ("int",) * n), ("N", ()))), ("mostra", ("variant", "U", "V", args))))
            yield Packed("variant without ()", (), (("uniao", "U", (("V", ("int",) * n), ("N", ()))), ("mostra", ("variant", "U", "V", None))))
            yield Packed("pattern", (), (("uniao", "U", (("V", ("int",) * n), ("N", ()))),
                         ("mostra", ("match", ("variant", "U", "N", None), ((("pcon", "U", "V", tuple(("pvar", f"q{i}") for i in range(k))), ("expr", g.I(1))), (("pvar", "_"), ("expr", g.I(2))))))))
            # attributes: every choice of names of k attributes
            import itertools
            if n and k <= 3:
                for names in itertools.product([f"p{i}" for i in range(n)] + ["zz"], repeat=k):
                    yield Packed("attributes", (), (("registo", "P", params), ("decl", ("x",), "P", ("new", "P", tuple((m, g.I(i)) for i, m in enumerate(names))))) + tuple(("mostra", g.get(g.V("x"), p)) for p, _ in params))
    for f, ks in (("tam", 3), ("anexa", 4), ("remova", 4), ("leia", 3), ("leia_int", 3), ("escreva", 3), ("txt_contem", 4)):
        for k in range(ks):
            for base in (g.vec("int", g.I(1)), g.T("a"), g.I(0)):
                yield Packed("builtin", (), (("expr", ("call", f, (base, g.I(0), g.I(0))[:k])),))


# where the line of the diagnostic is: the offending statement is at every
# place of every nesting of blocks
BAD = (
    ("mostra", g.B("+", g.I(1), g.T("a"))), g.let("q", "int", g.T("a")), g.put("z", g.T("a")), ("mostra", g.V("nao_existe")),
    g.do(g.call("tam", g.I(1))), ("se", g.I(1), (), (), None), ("enquanto", g.I(1), ()), ("quebra",), ("retorna", g.T("a")),
    ("para", "i", g.R("0.5"), g.I(1), None, ()), ("escolha", g.TRUE, (), None), g.put(g.idx(g.V("v"), 0), g.T("a")),
    ("mostra", ("idx", g.V("v"), g.T("a"))), ("mostra", ("un", "nao", g.I(1))), ("mostra", ("cast", g.V("v"), "int")),
    ("mostra", ("fstr", (g.V("v"),))), ("mostra", ("match", g.V("z"), ((("pint", 1), ("expr", g.I(1))),))),
    g.put(g.V("v"), g.I(1)), g.let("z2", ("vec", "int")), ("mostra", g.get(g.V("z"), "a")), ("mostra", ("new", "P", ())),
    g.do(g.call("g", g.I(1), g.I(2))), ("produz", g.I(1)),
)


def wrap(depth, inner):
    """Every nesting of `depth` blocks around a list of statements."""
    if depth == 0:
        yield inner
        return
    for body in wrap(depth - 1, inner):
        yield (("mostra", g.I(1)), ("se", g.TRUE, body, (), None), ("mostra", g.I(2)))
        yield (("se", g.TRUE, (("mostra", g.I(3)),), ((g.FALSE, body),), (("mostra", g.I(4)),)),)
        yield (("se", g.TRUE, (), (), body),)
        yield (("enquanto", g.FALSE, body),)
        yield (("para", "k", g.I(0), g.I(1), None, body),)
        yield (("escolha", g.I(1), ((g.I(1), body),), None),)
        yield (("escolha", g.I(1), ((g.I(1), (("mostra", g.I(5)),)),), body),)
        yield (("seiguala", g.V("z"), ("pint", 1), body, None),)
        yield (("seiguala", g.V("z"), ("pint", 1), (("mostra", g.I(6)),), body),)
        yield (("expr", ("match", g.V("z"), ((("pint", 1), ("block", body, None)), (("pvar", "_"), ("block", (), None))))),)


def lines(depth):
    def run():
        head = (("registo", "P", (("a", "int"),)), g.func("g", (("a", "int"),), "int", g.ret(g.I(1))))
        for bad in BAD:
            for d in range(depth + 1):
                for body in wrap(d, (("mostra", g.I(0)), bad, ("mostra", g.I(9)))):
                    decls = (g.let("z", "int", g.I(1)), g.let("v", ("vec", "int"), g.vec("int", g.I(1))))
                    yield Packed("global", (), head + decls + body)
                    yield Packed("function", (), head + (g.func("f", (), "int", *decls, *body, g.ret(g.I(1))),))
                    yield Packed("method", (), head + (("met", "P", "m", (), None, decls + body),))
    return run


# ---- types with arguments, in functions that only pass their parameters on
def app(n, *a):
    return ("app", n, a)


GEN = (("registo", "G", (("g", ("opt", "T")),), ("T",)), ("registo", "D", (("a", ("opt", "A")), ("b", ("vec", "B"))), ("A", "B")), ("registo", "P", (("a", "int"),)), ("uniao", "U", (("A", ()), ("B", ("int",)))))
BASE = ("int", "real", "texto", "bool", "indef", "P", "U", "G", "D", app("G", "int"), app("G", "real"), app("G", "texto"), app("G", "indef"), app("G", "P"), app("G", "G"), app("G", app("G", "int")), app("G", ("vec", "int")), app("G", ("opt", "int")), app("D", "int", "int"), app("D", "int", "real"), app("D", "real", "int"), app("D", "P", app("G", "int")))
SOME = ("int", "P", "G", app("G", "int"), app("G", "real"), app("D", "int", "real"), app("D", "real", "int"))
GTYPES = BASE + tuple(("opt", t) for t in SOME) + tuple(("vec", t) for t in SOME) + (("vec", ("opt", app("G", "int"))), ("opt", ("vec", app("G", "int"))), app("G", ("opt", app("G", "int"))))


def generic_pairs():
    a = g.V("a")
    one = ("mostra", g.I(1))
    for x in GTYPES:
        # the parameter is never given: such a function only has to be accepted or rejected
        yield Packed("generic: equal", GEN, (g.func("f", (("a", x), ("b", x)), None, ("se", g.B("==", a, g.V("b")), (), (), None)), one))
        yield Packed("generic: nulo", GEN, (g.func("h", (("b", x),), None), g.func("f", (), None, g.do(g.call("h", g.NULO))), one))
        yield Packed("generic: int", GEN, (g.func("h", (("b", x),), None), g.func("f", (), None, g.do(g.call("h", g.I(1)))), one))
        yield Packed("generic: other values", GEN, (g.func("h", (("b", x),), None), g.func("f", (("v", ("vec", "int")), ("t", "texto"), ("r", "real"), ("o", ("opt", "int"))), None, g.do(g.call("h", g.V("v")))), one))
        yield Packed("generic: indexed", GEN, (g.func("f", (("a", x),), None, ("mostra", g.idx(a, 0))), one))
        yield Packed("generic: size", GEN, (g.func("f", (("a", x),), None, ("mostra", g.call("tam", a))), one))
        for y in GTYPES:
            yield Packed("generic: argument", GEN, (g.func("h", (("b", y),), None), g.func("f", (("a", x),), None, g.do(g.call("h", a))), one))
            yield Packed("generic: result", GEN, (g.func("f", (("a", x),), y, g.ret(a)), one))
            yield Packed("generic: declared", GEN, (g.func("f", (("a", x),), None, g.let("b", y, a)), one))
            yield Packed("generic: stored", GEN, (g.func("f", (("a", x), ("b", y)), None, g.put("b", a)), one))
            yield Packed("generic: element", GEN, (g.func("f", (("a", x),), None, g.let("b", ("vec", y), g.vec(y, a))), one))
            yield Packed("generic: field", GEN, (("registo", "R", (("r", y),)), g.func("f", (("a", x), ("b", "R")), None, g.put(g.get(g.V("b"), "r"), a)), one))
            yield Packed("generic: compared", GEN, (g.func("f", (("a", x), ("b", y)), None, ("mostra", g.B("==", a, g.V("b")))), one))
            yield Packed("generic: appended", GEN, (g.func("f", (("a", x), ("b", ("vec", y))), None, g.do(g.call("anexa", g.V("b"), a))), one))


def positions_of(sizes):
    def run():
        types = ("int", "texto", "real", ("opt", "int"), "P", ("vec", "int"))
        ok = dict(WANT)
        tries = (g.I(1), g.R("1.5"), g.T("x"), g.NULO, g.V("vp_"), g.V("lvi_"), g.V("vd_"))
        for n in sizes:
            yield from positions.lists(n, types if n < 9 else types[:3], {t: ok[t] for t in types}, lambda t: tries if n < 9 else tries[:4], PRE)
    return run


def same_names(wide):
    """Types of the same name, of different modules and blocks, alone and in other types."""
    V, a, b = g.V, g.V("a"), g.V("b")
    opt, vec = lambda t: ("opt", t), lambda t: ("vec", t)
    qa, qb = lambda t: ("path", "qa", t), lambda t: ("path", "qb", t)
    wraps = (lambda t: t, opt, vec, lambda t: opt(vec(t)), lambda t: vec(opt(t)), lambda t: vec(vec(t)))
    decls = {
        "P": ((("registo", "P", (("n", "int"),)),), (("registo", "P", (("n", "texto"),)),), (("registo", "P", (("n", "int"), ("m", "int"))),)),
        "U": ((("uniao", "U", (("A", ("int",)), ("B", ()))),), (("uniao", "U", (("B", ()), ("A", ("texto",)))),), (("uniao", "U", (("A", ("int",)), ("B", ()))),)),
    }

    def places(x, y):
        yield "argument", (g.func("h", (("b", y),), None), g.func("f", (("a", x),), None, g.do(g.call("h", a))))
        yield "method", (("met", "int", "h", (("b", y),), "int", (g.ret(g.I(1)),)), g.func("f", (("a", x),), None, g.do(("mcall", g.I(1), "h", (a,)))))
        yield "result", (g.func("f", (("a", x),), y, g.ret(a)),)
        yield "declared", (g.func("f", (("a", x),), None, g.let("c", y, a)),)
        yield "stored", (g.func("f", (("a", x), ("b", y)), None, g.put("b", a)),)
        yield "element", (g.func("f", (("a", x),), None, g.let("c", vec(y), g.vec(y, a))),)
        yield "field", (("registo", "R", (("r", y),)), g.func("f", (("a", x), ("b", "R")), None, g.put(g.get(b, "r"), a)))
        yield "attribute", (("registo", "R", (("r", y),)), g.func("f", (("a", x),), "R", g.ret(("new", "R", (("r", a),)))))
        yield "compared", (g.func("f", (("a", x), ("b", y)), None, ("mostra", g.B("==", a, b))),)
        yield "appended", (g.func("f", (("a", x), ("b", vec(y))), None, g.do(g.call("anexa", b, a))),)
        yield "variant", (("uniao", "W", (("K", (y,)), ("L", ()))), g.func("f", (("a", x),), "W", g.ret(("variant", "W", "K", (a,)))))
        yield "arms", (g.func("f", (("a", x), ("b", y), ("k", "int")), None, ("expr", ("match", V("k"), ((("pint", 1), ("expr", a)), (("pvar", "_"), ("expr", b)))))),)
        if not isinstance(y, str) and y[0] == "opt":
            yield "valor_ou", (g.func("f", (("a", x), ("b", y)), None, g.do(("mcall", b, "valor_ou", (a,)))),)

    one = ("mostra", g.I(1))

    def run():
        for t, (da, db, dm) in decls.items():
            for uses, names in (
                ((("usa", "a.ama", "alias", "qa"), ("usa", "b.ama", "alias", "qb")), (qa(t), qb(t), t)),
                ((("usa", "a.ama", "items", (t,)), ("usa", "b.ama", "alias", "qb")), (t, qb(t))),
                ((("usa", "a.ama", "alias", "qb"), ("usa", "b.ama", "global", None)), (qb(t), t)),
                ((("usa", "a.ama", "alias", "qa"), ("usa", "a.ama", "alias", "qb")), (qa(t), qb(t))),
            ):
                own = dm if len(names) == 3 else ()
                for x, y in itertools.product(names, repeat=2):
                    for i, j in itertools.product(range(len(wraps)), repeat=2):
                        if not wide and i != j and (i, j) not in ((0, 1), (1, 0), (2, 3), (0, 2)):
                            continue
                        for name, st in places(wraps[i](x), wraps[j](y)):
                            yield Case(f"same name: {name}", {"a.ama": da, "b.ama": db, "main.ama": uses + own + st + (one,)})
            # a type of a block that hides the one outside
            for i, j in itertools.product(range(len(wraps)), repeat=2):
                for outer in ((dm, t), ((("usa", "a.ama", "alias", "qa"),), qa(t))):
                    X, Y = wraps[i](outer[1]), wraps[j](t)
                    for name, st in (("declared", (g.let("c", Y, V("x")),)), ("stored", (g.let("c", vec(Y), g.vec(Y)), g.do(g.call("anexa", V("c"), V("x"))))), ("element", (g.let("c", vec(Y), g.vec(Y, V("x"))),)), ("size", (g.let("c", vec(Y), g.vec(Y)), ("mostra", g.call("tam", V("c")))))):
                        yield Case(f"hidden: {name}", {"a.ama": da, "main.ama": outer[0] + (g.func("f", (("x", X),), None, ("se", g.TRUE, db + st, (), None)), one)})
                        yield Case(f"not hidden: {name}", {"a.ama": da, "main.ama": outer[0] + (g.func("f", (("x", X),), None, ("se", g.TRUE, db + (one,), (), None), *(st if outer[1] == t else (one,))), one)})
    return run


def spaces(tier):
    yield Space("expected types", f"{len(WANT)} expected types, {len(GOT)} expressions, 14 contexts", by_type, judge_packed, 100)
    yield Space("constrained contexts", f"{len(GOT)} expressions in conditions, ranges, indices, calls, operators, patterns, arms, assignments", fixed, judge_packed, 100)
    yield Space("numbers of arguments", "functions, methods, variants, patterns and attributes with 0-3 parameters and 0-4 arguments; builtins", arity, judge_packed, 100)
    d = 1 if tier == "quick" else 2
    yield Space("lines", f"{len(BAD)} errors in every nesting of up to {d} blocks, in global code, functions and methods", lines(d), judge_packed, 100)
    got = [over(e) for e in (GOT if tier != "quick" else (g.I(1), g.R("1.5"), g.T("x"), g.NULO, g.V("vb_"), g.V("vp_"), g.V("vu_"), g.V("lvi_"), g.V("oi_"), g.V("vd_")))]
    want = WANT if tier != "quick" else [w for w in WANT if w[0] in ("int", "real", "texto", "P", "U", ("vec", "int"), ("opt", "int"))]
    yield Space("several lines", f"{len(got)} expressions that take several lines, in the contexts of {len(want)} expected types, and in the constrained ones", lambda: (c for f in (by_type, fixed) for c in f(got, want)), judge_packed, 60)
    yield Space("positions", "lists of 4 to 9 (20) arguments, fields, elements, arms, each of which has another type", positions_of((4, 9) if tier == "quick" else (3, 4, 5, 8, 9, 12, 16, 17, 20)), judge_packed, 40)
    yield Space("types of the same name", "records and unions of the same name, of three modules and of a block, alone and in 5 types, in 13 places", same_names(tier != "quick"), judge_programs, 80)
    yield Space("types with arguments", f"every pair of {len(GTYPES)} types made from generic types, in 8 places; each of them in 6", generic_pairs, judge_packed, 100)
