"""C15: optional values: nulo or a value, and no way around the difference."""
import itertools

from checks import positions
from mc import gen as g
from mc.harness import Case, Packed, Space, histories, judge_packed, judge_programs
from mc.modular import modular

PROP = "C15"
LEVEL = "model_checking"
RULE = ("every history of operations on optional variables, fields and elements up to a depth, and every way of making an optional of each type with "
        "every use of it, are run on the real compiler and VM and compared with the model; a state is everything that is shown, a transition a "
        "pair of states and an operation; two cases are distinct when their sources differ")
V, I, R, B, T, call, get, put, idx, NULO = g.V, g.I, g.R, g.B, g.T, g.call, g.get, g.put, g.idx, g.NULO


def opt(t):
    return ("opt", t)


def valor(e):
    return get(e, "valor")


def ou(e, d):
    return ("mcall", e, "valor_ou", (d,))


def new(t, **fs):
    return ("new", t, tuple(fs.items()))


TYPES = (("registo", "P", (("n", "int"),)), ("uniao", "U", (("A", ()), ("C", ("int",)))),
         ("met", "P", "dobro", (), "int", (g.ret(B("*", get(("alvo",), "n"), I(2))),)))
VALS = {
    "int": (I(5), I(0)), "real": (g.R("2.5"), I(3)), "bool": (g.FALSE, g.TRUE), "texto": (T("ab"), T("")), ("vec", "int"): (g.vec("int", I(1), I(2)), g.vec("int")),
    "P": (new("P", n=I(4)),), "U": (("variant", "U", "C", (I(9),)), ("variant", "U", "A", None)), "indef": (I(7), T("z")),
}
MADE = {"int": I(8), "real": g.R("1.5"), "bool": g.TRUE, "texto": T("d"), ("vec", "int"): g.vec("int", I(9)), "P": new("P", n=I(70)), "U": ("variant", "U", "C", (I(33),)), "indef": g.FALSE}


def makings(t, e):
    """Ways of having the optional value of type t made from e in `o`."""
    o = opt(t)
    yield "declared", (), (g.let("o", o, e),), V("o")
    yield "assigned", (), (g.let("o", o, NULO), put("o", e)), V("o")
    yield "over a value", (), (g.let("o", o, MADE[t]), put("o", e)), V("o")
    yield "copied", (), (g.let("q", o, e), g.let("o", o, V("q")), put("q", MADE[t])), V("o")
    yield "result", (g.func("r", (), o, g.ret(e)),), (), call("r")
    yield "through a parameter", (g.func("r", (("x", o),), o, g.ret(V("x"))),), (), call("r", e)
    yield "field", (("registo", "F", (("o", o), ("z", "int"))),), (g.let("f", "F", new("F", o=e, z=I(1))),), get(V("f"), "o")
    yield "stored field", (("registo", "F", (("o", o), ("z", "int"))),), (g.let("f", "F", new("F", o=NULO, z=I(1))), put(get(V("f"), "o"), e)), get(V("f"), "o")
    yield "element", (), (g.let("v", ("vec", o), g.vec(o, NULO, e, MADE[t])),), idx(V("v"), 1)
    yield "stored element", (), (g.let("v", ("vec", o), g.vec(o, NULO, MADE[t])), put(idx(V("v"), 1), e)), idx(V("v"), 1)
    yield "appended", (), (g.let("v", ("vec", o), g.vec(o)), g.do(call("anexa", V("v"), e))), idx(V("v"), 0)
    yield "cast", (), (), ("cast", e, o)
    yield "cast from indef", (), (g.let("w", "indef", ("cast", e, o) if e == NULO else e),), ("cast", V("w"), o)
    # (in a variable: what follows its 'fim' would be on another line)
    yield "iguala", (), (g.let("o", o, ("match", I(1), ((("pint", 1), ("expr", ("cast", e, o))), (("pvar", "_"), ("expr", ("cast", NULO, o)))))),), V("o")
    yield "method", (("met", "int", "faz", (), o, (g.ret(e),)),), (), ("mcall", ("par", I(1)), "faz", ())


def usings(t, o):
    d = MADE[t]
    yield "valor", (("mostra", valor(o)),)
    yield "valor twice", (("mostra", valor(o)), ("mostra", valor(o)))
    yield "valor_ou", (("mostra", ou(o, d)),)
    yield "is nulo", (("mostra", B("==", o, NULO)), ("mostra", B("!=", o, NULO)), ("mostra", B("==", NULO, o)))
    yield "shown", (("mostra", o), ("mostra", ("fstr", ("<", o, ">"))))
    yield "equal", (("mostra", B("==", o, o)), ("mostra", B("!=", o, o)))
    yield "equal to a value", (("mostra", B("==", o, d)),)
    yield "equal to an optional", (g.let("k", opt(t), d), ("mostra", B("==", o, V("k"))))
    yield "guarded", (("se", B("!=", o, NULO), (("mostra", valor(o)),), (), (("mostra", T("nada")),)),)
    yield "stored", (g.let("k", t, valor(o)), ("mostra", V("k")), ("mostra", B("==", o, NULO)))
    yield "default stored", (g.let("k", t, ou(o, d)), ("mostra", V("k")))
    yield "argument", (g.func("p", (("x", t),), None, ("mostra", V("x"))), g.do(call("p", valor(o))), g.do(call("p", ou(o, d))))
    yield "optional argument", (g.func("p", (("x", opt(t)),), None, ("mostra", B("==", V("x"), NULO)), ("mostra", ou(V("x"), d))), g.do(call("p", o)))
    yield "without valor", (g.let("k", t, o), ("mostra", I(1)))
    yield "to indef", (g.let("k", "indef", o), ("mostra", V("k")), ("mostra", B("==", V("k"), NULO)))
    yield "cast back", (("mostra", ("cast", o, t)),)
    yield "chosen", (("mostra", ou(("cast", NULO, opt(t)), valor(o))),)
    yield "assigned valor", (put(valor(o), d), ("mostra", I(1)))
    yield "other member", (("mostra", get(o, "n")),)
    yield "other method", (("mostra", ("mcall", o, "dobro", ())),)
    yield "wrong default", (("mostra", ou(o, T("q") if t != "texto" else I(1))),)
    yield "no default", (("mostra", ("mcall", o, "valor_ou", ())),)
    yield "two defaults", (("mostra", ("mcall", o, "valor_ou", (d, d))),)
    if t == "P":
        yield "field", (put(get(valor(o), "n"), I(6)), ("mostra", get(valor(o), "n")))
        yield "field +=", (put(get(valor(o), "n"), I(6), "+="), ("mostra", ("mcall", valor(o), "dobro", ())))
        yield "method", (("mostra", ("mcall", ou(o, d), "dobro", ())),)
    if t == ("vec", "int"):
        yield "element", (("mostra", idx(valor(o), 0)), g.do(call("anexa", valor(o), I(3))), ("mostra", valor(o)))
        yield "size", (("mostra", call("tam", ou(o, d))),)
    if t in ("int", "real"):
        for op in ("+", "-", "*", "/", "<"):
            yield f"operand {op}", (("mostra", B(op, valor(o), d)), ("mostra", B(op, d, ou(o, d))))
            yield f"optional operand {op}", (("mostra", B(op, o, d)),)
        yield "negated", (("mostra", ("un", "-", valor(o))),)
        yield "as index", (("mostra", idx(g.vec("int", I(1), I(2), I(3), I(4), I(5), I(6)), valor(o))),)
        yield "limit", (("para", "i", I(0), valor(o), None, (("mostra", V("i")),)),)
    if t == "U":
        yield "iguala", (("mostra", ("match", valor(o), ((("pcon", "U", "C", (("pvar", "k"),)), ("expr", V("k"))), (("pvar", "_"), ("expr", I(-1)))))),)
    if t == "bool":
        yield "condition", (("se", valor(o), (("mostra", I(1)),), (), (("mostra", I(0)),)), ("se", ou(o, d), (("mostra", I(1)),), (), None))
        yield "logic", (("mostra", B("e", valor(o), d)),)
        yield "optional condition", (("se", o, (), (), None),)
    yield "tail", (g.func("r9", (("x", opt(t)),), t, ("se", B("==", V("x"), NULO), (g.ret(d),), (), None), g.ret(valor(V("x")))), ("mostra", call("r9", o)))


def uses(where):
    def run():
        for t, vals in VALS.items():
            for e in vals + (NULO,):
                for ml, decls, setup, o in makings(t, e):
                    for ul, st in usings(t, o):
                        fs = tuple(s for s in st if s[0] == "func")
                        rest = tuple(s for s in st if s[0] != "func")
                        label = f"{t} {ml} {ul} {'nulo' if e == NULO else ''}"
                        if where == "entry":
                            yield Packed(label, (), TYPES + decls + fs + setup + rest + (("mostra", T("end")),))
                        else:
                            yield Packed(label, (), TYPES + decls + fs + (g.func("main", (("w0", "int"),), None, g.let("w1", "int", I(6)), *setup, *rest, ("mostra", B("-", V("w0"), V("w1")))), g.do(call("main", I(2))), ("mostra", T("end"))))
    return run


def ops(a, b, t, v):
    return (
        ("a=nulo", (put(a, NULO),)), ("a=b", (put(a, b),)), ("b=a", (put(b, a),)), ("a=v", (put(a, v[0]),)), ("b=w", (put(b, v[1]),)),
        ("a=b.valor", (put(a, valor(b)),)), ("x=a.valor", (put("x", valor(a)),)), ("x=b.ou(x)", (put("x", ou(b, V("x"))),)), ("a=b.ou(a.ou(w))", (put(a, ou(b, ou(a, v[1]))),)),
        ("a=x", (put(a, V("x")),)), ("a=f(b)", (put(a, call("f", b)),)), ("se a", (("se", B("==", a, NULO), (put(a, v[1]),), (), (put(a, NULO),)),)),
    )


def history(t, v, form, depth):
    """a and b as variables, as fields of two records, as elements of a vector."""
    def run():
        o = opt(t)
        pre = TYPES + (("registo", "F", (("a", o), ("b", o))), g.func("f", (("y", o),), o, ("se", B("==", V("y"), NULO), (g.ret(v[0]),), (), None), put("y", v[1]), g.ret(V("y"))))
        a, b, setup = {
            "variables": (V("a"), V("b"), (g.let("a", o, NULO), g.let("b", o, v[0]))),
            "fields": (get(V("r"), "a"), get(V("s"), "a"), (g.let("r", "F", new("F", a=NULO, b=v[0])), g.let("s", "F", new("F", a=v[0], b=NULO)))),
            "elements": (idx(V("l"), 0), idx(V("l"), 1), (g.let("l", ("vec", o), g.vec(o, NULO, v[0], NULO)),)),
        }[form]
        show = (("mostra", B("==", a, NULO)), ("mostra", ou(a, v[2])), ("mostra", B("==", b, NULO)), ("mostra", ou(b, v[2])), ("mostra", V("x")))
        if t == "P":
            show = (("mostra", B("==", a, NULO)), ("mostra", get(ou(a, v[2]), "n")), ("mostra", B("==", b, NULO)), ("mostra", get(ou(b, v[2]), "n")), ("mostra", get(V("x"), "n")))
        more = () if t != "P" else (("a.n=8", (put(get(valor(a), "n"), I(8)),)), ("x.n=3", (put(get(V("x"), "n"), I(3)),)))
        yield from histories(pre, setup + (g.let("x", t, v[2]),), ops(a, b, t, v) + more, show, depth)
    return run


def equality(wide):
    """Optionals of values of every kind, compared with each other and with copies of themselves."""
    x = V("x_")
    inf = B("*", x, x)
    nan = B("-", inf, inf)
    small = B("/", R("0.0"), ("un", "-", R("1.0")))
    con = lambda u, c, *a: ("variant", u, c, a or None)
    types = {
        "int": (I(0), I(1), I(2**53), I(2**53 + 1)), "real": (R("0.0"), small, R("1.5"), inf, ("un", "-", inf), nan), "texto": (T(""), T("a"), T("A"), T("\u00e9"), T("e\u0301")), "bool": (g.TRUE, g.FALSE),
        "K": (con("K", "A"), con("K", "B", I(1)), con("K", "B", I(2)), con("K", "R", R("1.5")), con("K", "R", nan), con("K", "R", inf), con("K", "R", small), con("K", "R", R("0.0")), con("K", "T", T("a"), R("1.5")), con("K", "T", T("a"), nan), con("K", "T", T("b"), nan)),
        "L": (con("L", "N"), con("L", "M", con("K", "R", nan), con("K", "A")), con("L", "M", con("K", "B", I(1)), con("K", "A")), con("L", "M", con("K", "A"), con("K", "B", I(1))), con("L", "M", con("K", "A"), con("K", "R", nan)),
              con("L", "D", con("L", "N")), con("L", "D", con("L", "D", con("L", "N"))), con("L", "D", con("L", "M", con("K", "A"), con("K", "R", nan)))),
        "P": (new("P", n=I(1)), new("P", n=I(2))),
    }
    pre = TYPES + (("uniao", "K", (("A", ()), ("B", ("int",)), ("R", ("real",)), ("T", ("texto", "real")))), ("uniao", "L", (("N", ()), ("M", ("K", "K")), ("D", ("L",)))),
                   g.let("x_", "real", R("1" + "0" * 200 + ".0")))

    def run():
        for t, vals in types.items():
            o = opt(t)
            a, b = V("a"), V("b")
            see = lambda a, b: g.show(*(B(p, y, z) for y, z in ((a, b), (b, a), (a, a), (b, b)) for p in ("==", "!=")))
            for v, w in itertools.product(vals, vals + (NULO,)):
                yield Packed(f"{t}: two values", pre, (g.let("a", o, v), g.let("b", o, w), *see(a, b)))
                if wide or v == w:
                    yield Packed(f"{t}: with a value", pre, (g.let("a", o, v), *g.show(B("==", a, w), B("==", w, a), B("!=", a, w))))
                    yield Packed(f"{t}: elements", pre, (g.let("a", ("vec", o), g.vec(o, v, w, v)), *see(idx(a, 0), idx(a, 1)), *see(idx(a, 0), idx(a, 2))))
                    yield Packed(f"{t}: parameters", pre, (g.func("f", (("a", o), ("b", o)), "bool", g.ret(B("==", a, b))), g.let("c", o, v), *g.show(call("f", v, w), call("f", w, v), call("f", V("c"), V("c")), call("f", V("c"), w))))
            for v in vals + (NULO,):
                for how, e in (("copy", a), ("valor", valor(a)), ("valor_ou", ou(a, vals[0])), ("call", call("f", a)), ("field", get(V("h"), "o")), ("element", idx(V("l"), 0))):
                    yield Packed(f"{t}: {how}", pre, (("registo", "H", (("o", o),)), g.func("f", (("y", o),), o, g.ret(V("y"))), g.let("a", o, v), g.let("h", "H", new("H", o=a)), g.let("l", ("vec", o), g.vec(o, a)),
                                                      g.let("b", o, e), *see(a, b), put("a", vals[-1]), *see(a, b), put("b", a), *see(a, b)))
                if t != "P" and v != NULO:
                    # what is in a variant is compared, however it got there
                    yield Packed(f"{t}: shared", pre, (("uniao", "W", (("S", (t,)), ("Z", (t, t)))), g.let("a", t, v), g.let("b", opt("W"), con("W", "S", a)), g.let("c", opt("W"), con("W", "S", a)), g.let("d", opt("W"), V("b")), g.let("z", opt("W"), con("W", "Z", a, a)),
                                                       *see(V("b"), V("c")), *see(V("b"), V("d")), *see(V("z"), V("c"))))
    return run


def logic():
    """Conditions that test an optional and use its value: both operands of
    'e' and 'ou' are evaluated."""
    conds = (B("==", V("o"), NULO), B("!=", V("o"), NULO), B(">", valor(V("o")), I(3)), B("==", ou(V("o"), I(0)), I(5)), B("==", V("o"), I(5)))
    for e in (I(5), I(1), NULO):
        for a, b in itertools.product(conds, repeat=2):
            for op in ("e", "ou"):
                yield Packed("condition", (), (g.let("o", opt("int"), e), ("se", B(op, a, b), (("mostra", T("sim")),), (), (("mostra", T("não")),)), ("mostra", B(op, a, b))))
        for a in conds:
            yield Packed("loop", (), (g.let("o", opt("int"), e), g.let("k", "int", I(0)), ("enquanto", B("e", B("<", V("k"), I(3)), B("!=", V("o"), NULO)), (put("k", I(1), "+="), ("mostra", a), ("se", a, (put("o", NULO),), (), (put("o", B("+", V("k"), I(3))),)))), ("mostra", V("o"))))


def evaluated_once():
    """The target and the default are evaluated exactly once, in order."""
    tr = (g.func("t", (("k", opt("int")),), opt("int"), ("mostra", T("target")), g.ret(V("k"))), g.func("d", (("k", "int"),), "int", ("mostra", T("default")), g.ret(V("k"))))
    for e in (I(4), NULO):
        for x in (ou(call("t", e), call("d", I(7))), B("+", ou(call("t", e), call("d", I(7))), call("d", I(1))), ou(call("t", ou(call("t", e), call("d", I(3)))), call("d", I(2))), B("==", call("t", e), NULO), valor(call("t", e)),
                  B("-", valor(call("t", I(9))), ou(call("t", e), call("d", valor(call("t", I(6))))))):
            yield Packed("once", (), tr + (("mostra", x), ("mostra", T("end"))))
            yield Packed("once", (), tr + (g.func("l", (), None, g.let("q", "int", I(3)), ("mostra", x), ("mostra", V("q"))), g.do(call("l"))))


def declarations():
    """Which types have an optional, and what nulo can be stored in."""
    for t in list(VALS) + ["zz", "vazio", ("vec", "P"), ("vec", ("opt", "int")), ("opt", "int")]:
        for st in ((("decl", ("o",), opt(t), None), ("mostra", I(1))), (g.let("o", opt(t), NULO), ("mostra", B("==", V("o"), NULO))), (g.let("o", t, NULO), ("mostra", I(1))), (g.func("f", (), t, g.ret(NULO)), ("mostra", I(1))),
                   (g.func("f", (("x", t),), None), g.do(call("f", NULO)), ("mostra", I(1))), (g.let("v", ("vec", t), g.vec(t, NULO)), ("mostra", I(1))), (g.let("v", ("vec", opt(t)), ("vec", opt(t), (I(3),))), ("mostra", V("v")))):
            yield Case(f"{t}", TYPES + st)
    # values of every type where an optional of every type is expected
    some = [(u, e) for u, es in VALS.items() for e in es] + [(opt(u), ("cast", es[0], opt(u))) for u, es in VALS.items()]
    for t, (u, e) in itertools.product(VALS, some):
        o = opt(t)
        for st in ((g.let("o", o, e),), (g.let("o", o, NULO), put("o", e)), (g.func("f", (), o, g.ret(e)), g.let("o", o, call("f"))), (g.func("f", (("o", o),), None, ("mostra", V("o"))), g.let("o", o, NULO), g.do(call("f", e))),
                   (g.let("v", ("vec", o), g.vec(o, NULO, e)), g.let("o", o, idx(V("v"), 1))), (g.let("v", ("vec", o), g.vec(o, NULO)), put(idx(V("v"), 0), e), g.let("o", o, idx(V("v"), 0))),
                   (("registo", "F", (("o", o),)), g.let("f", "F", new("F", o=e)), g.let("o", o, get(V("f"), "o"))), (("registo", "F", (("o", o),)), g.let("f", "F", new("F", o=NULO)), put(get(V("f"), "o"), e), g.let("o", o, get(V("f"), "o"))),
                   (g.let("o", o, NULO), ("mostra", ou(V("o"), e))), (g.let("o", o, NULO), ("mostra", B("==", V("o"), e)))):
            yield Case(f"{u} as {t}?", TYPES + st + (("mostra", V("o")), ("mostra", B("==", V("o"), NULO))))
    for st in ((("mostra", NULO),), (("mostra", B("==", NULO, NULO)),), (("mostra", B("+", NULO, I(1))),), (g.do(NULO),), (("se", NULO, (), (), None),), (("mostra", valor(NULO)),), (("mostra", ou(NULO, I(1))),), (("mostra", ("fstr", (NULO,))),),
               (g.let("x", "indef", NULO), ("mostra", V("x"))), (g.do(call("escreva", NULO)),), (("mostra", ("un", "-", NULO)),), (("mostra", g.vec("int", NULO)),), (("mostra", ("match", NULO, ((("pvar", "x"), ("expr", I(1))),))),)):
        yield Case("nulo", st)


def positions_of(sizes):
    def run():
        pre = TYPES + (g.let("o_", opt("int"), I(6)), g.let("n_", opt("int"), NULO), g.let("p_", opt("P"), new("P", n=I(1))))
        default = {opt("int"): I(3), "int": I(8), opt("texto"): T("a"), opt("P"): NULO}
        tried = {opt("int"): (NULO, V("o_"), V("n_"), T("x")), "int": (NULO, V("o_"), valor(V("o_")), ou(V("n_"), I(7))), opt("texto"): (NULO, V("n_"), T("")), opt("P"): (V("p_"), new("P", n=I(4)))}
        for n in sizes:
            yield from positions.lists(n, (opt("int"), "int", opt("texto"), opt("P"))[:4 if n < 8 else 2], default, lambda t: tried[t][:4 if n < 8 else 2], pre)
    return run


def spaces(tier):
    q = tier == "quick"
    n = 3 if q else 4
    iv, rv, tv, pv = (I(5), I(6), I(-1)), (g.R("1.5"), I(2), g.R("0.0")), (T("v"), T("w"), T("")), (new("P", n=I(1)), new("P", n=I(2)), new("P", n=I(9)))
    yield Space("histories of int?", f"every sequence of {n} of 12 operations on two optional variables", history("int", iv, "variables", n), judge_packed, 200)
    yield Space("histories of fields", f"every sequence of {2 if q else 3} of 12 operations on optional fields of two records", history("texto", tv, "fields", 2 if q else 3), judge_packed, 200)
    yield Space("histories of elements", f"every sequence of {2 if q else 3} of 12 operations on optional elements", history("real", rv, "elements", 2 if q else 3), judge_packed, 200)
    yield Space("histories of P?", f"every sequence of {n} of 14 operations on two optional records", history("P", pv, "variables", n), judge_packed, 200)
    if not q:
        yield Space("histories of P? in elements", "every sequence of 3 of 14 operations on optional records in a vector", history("P", pv, "elements", 3), judge_packed, 200)
    yield Space("uses", "8 types, values and nulo, 15 ways of making an optional, every use of it, in a function", uses("function"), judge_packed, 100)
    if not q:
        yield Space("uses in the entry code", "the same, in the entry code", uses("entry"), judge_packed, 100)
    yield Space("conditions", "every pair of 5 conditions on an optional", logic, judge_packed, 40)
    yield Space("equality", "every pair of 45 values of 7 types (infinities, what is not a number, zeros, variants in variants), and each with its copies made in 6 ways, in 5 places", equality(not q), judge_packed, 60)
    yield Space("order", "targets and defaults with effects", evaluated_once, judge_packed, 20)
    yield Space("declarations", "every type as the type of an optional; nulo in every place", declarations, judge_programs, 20)
    yield Space("positions", "lists of 5 to 12 (33) arguments, fields, elements, arms, each of which is nulo or a value", positions_of((5, 12) if q else (2, 3, 4, 5, 8, 9, 12, 16, 17, 33)), judge_packed, 30)
    hows = ("whole", "global", "alias", "variables") if q else ("whole", "global", "items", "alias", "variables", "types and functions")
    yield Space("modules", f"histories of 2 operations, the conditions, the order and the declarations, divided in modules in {len(hows)} ways", modular((history("int", iv, "variables", 2), history("P", pv, "variables", 2), history("texto", tv, "fields", 2), logic, evaluated_once, declarations), hows), judge_programs, 60)
