"""C09: records are shared by reference; fields keep what is stored in them."""
import itertools

from mc import gen as g
from mc.harness import Case, Packed, Space, histories, judge_packed, judge_programs
from mc.modular import modular

PROP = "C09"
LEVEL = "model_checking"
RULE = ("every sequence of the stated number of operations on records, from each starting state, is replayed on the real compiler and VM "
        "and the whole state is compared with a model of shared objects after every step; a state is what is shown, a transition a pair of "
        "states and an operation")
V, I, B, call, get, put, idx = g.V, g.I, g.B, g.call, g.get, g.put, g.idx


def new(ty, **fs):
    return ("new", ty, tuple(fs.items()))


P = "P"
PRE = (
    ("registo", "P", (("n", "int"), ("t", "texto"))),
    ("registo", "N", (("v", "int"), ("p", ("opt", "N")))),
    ("registo", "D", (("a", "P"), ("b", "P"), ("l", ("vec", "int")))),
    g.func("muda", (("x", "P"), ("k", "int")), None, put(get(V("x"), "n"), V("k"))),
    g.func("troca", (("x", "P"),), "P", put(get(V("x"), "t"), g.T("z")), put("x", new("P", n=I(70), t=g.T("w"))), g.ret(V("x"))),
    g.func("mesmo", (("x", "P"),), "P", g.ret(V("x"))),
)
FLAT = (
    ("a=b", (put("a", V("b")),)),
    ("b=P", (put("b", new("P", n=I(5), t=g.T("n"))),)),
    ("a.n=9", (put(get(V("a"), "n"), I(9)),)),
    ("b.n=a.n", (put(get(V("b"), "n"), get(V("a"), "n")),)),
    ("a.n+=1", (put(get(V("a"), "n"), I(1), "+="),)),
    ("b.n*=2", (put(get(V("b"), "n"), I(2), "*="),)),
    ("b.t='q'", (put(get(V("b"), "t"), g.T("q")),)),
    ("a.t=b.t", (put(get(V("a"), "t"), get(V("b"), "t")),)),
    ("muda(a)", (g.do(call("muda", V("a"), I(3))),)),
    ("b=troca(a)", (put("b", call("troca", V("a"))),)),
    ("a=mesmo(b)", (put("a", call("mesmo", V("b"))),)),
    ("mesmo(a).n=8", (put(get(call("mesmo", V("a")), "n"), I(8)),)),
    ("swap", (g.let("x", P, V("a")), put("a", V("b")), put("b", V("x")))),
)
# 'swap' declares a name: only once for each scope
FLAT = tuple((n, (("se", g.TRUE, s, (), None),) if n == "swap" else s) for n, s in FLAT)
FLAT_SETUPS = (
    (g.let("a", P, new("P", n=I(1), t=g.T("x"))), g.let("b", P, new("P", n=I(2), t=g.T("y")))),
    (g.let("a", P, new("P", n=I(1), t=g.T("x"))), g.let("b", P, V("a"))),
)
FLAT_SHOW = tuple(("mostra", get(V(x), f)) for x in "ab" for f in "nt")

LIST = (
    ("a.p=b", (put(get(V("a"), "p"), V("b")),)),
    ("b.p=a", (put(get(V("b"), "p"), V("a")),)),
    ("a=b", (put("a", V("b")),)),
    ("a.p=nulo", (put(get(V("a"), "p"), g.NULO),)),
    ("b.v=7", (put(get(V("b"), "v"), I(7)),)),
    ("a=N(a)", (put("a", new("N", v=B("+", get(V("a"), "v"), I(10)), p=V("a"))),)),
    ("a.p.v=4", (put(get(get(get(V("a"), "p"), "valor"), "v"), I(4)),)),
    ("a.p.p=b", (put(get(get(get(V("a"), "p"), "valor"), "p"), V("b")),)),
    ("a=a.p", (put("a", get(get(V("a"), "p"), "valor")),)),
    ("a.p.v+=b.v", (put(get(get(get(V("a"), "p"), "valor"), "v"), get(V("b"), "v"), "+="),)),
)
LIST_SETUP = (g.let("a", "N", new("N", v=I(1), p=g.NULO)), g.let("b", "N", new("N", v=I(2), p=V("a"))))
# follow the links up to 3 steps (they may be cyclic)
WALK = (g.func("anda", (("x", "N"),), None,
               g.let("k", "int", I(0)), g.let("c", ("opt", "N"), V("x")),
               ("enquanto", B("e", B("<", V("k"), I(4)), B("!=", V("c"), g.NULO)),
                (g.do(call("escreva", get(get(V("c"), "valor"), "v"))), g.do(call("escreva", g.T(","))), put("c", get(get(V("c"), "valor"), "p")), put("k", I(1), "+="))),
               ("mostra", B("==", V("c"), g.NULO))),)
LIST_SHOW = (g.do(call("anda", V("a"))), g.do(call("anda", V("b"))))

DEEP = (
    ("d.a=p", (put(get(V("d"), "a"), V("p")),)),
    ("d.b=d.a", (put(get(V("d"), "b"), get(V("d"), "a")),)),
    ("p.n=9", (put(get(V("p"), "n"), I(9)),)),
    ("d.a.n=6", (put(get(get(V("d"), "a"), "n"), I(6)),)),
    ("d.b.n+=3", (put(get(get(V("d"), "b"), "n"), I(3), "+="),)),
    ("p=d.b", (put("p", get(V("d"), "b")),)),
    ("anexa d.l", (g.do(call("anexa", get(V("d"), "l"), get(get(V("d"), "a"), "n"))),)),
    ("d.l[0]=p.n", (put(idx(get(V("d"), "l"), 0), get(V("p"), "n")),)),
    ("d.l[0]-=1", (put(idx(get(V("d"), "l"), 0), I(1), "-="),)),
    ("v[0]=d.a", (put(idx(V("v"), 0), get(V("d"), "a")),)),
    ("v[1].n=2", (put(get(idx(V("v"), 1), "n"), I(2)),)),
    ("v[0].n*=5", (put(get(idx(V("v"), 0), "n"), I(5), "*="),)),
    ("d=D", (put("d", new("D", a=V("p"), b=idx(V("v"), 1), l=g.vec("int", I(8)))),)),
    ("muda(d.b)", (g.do(call("muda", get(V("d"), "b"), I(11))),)),
    ("d.a=troca(p)", (put(get(V("d"), "a"), call("troca", V("p"))),)),
)
DEEP_SETUP = (
    g.let("p", P, new("P", n=I(1), t=g.T("x"))), g.let("d", "D", new("D", a=V("p"), b=new("P", n=I(2), t=g.T("y")), l=g.vec("int", I(3)))),
    g.let("v", ("vec", "P"), g.vec("P", V("p"), get(V("d"), "b"))),
)
DEEP_SHOW = tuple(("mostra", get(e, "n")) for e in (V("p"), get(V("d"), "a"), get(V("d"), "b"), idx(V("v"), 0), idx(V("v"), 1))) + (("mostra", get(V("d"), "l")),)

FIELD = {
    "int": (None, I(1), I(2)), "real": (None, I(1), g.R("2.5")), "bool": (None, g.TRUE, g.FALSE), "texto": (None, g.T("a"), g.T("")),
    ("vec", "int"): (None, g.vec("int", I(1)), g.vec("int")), ("opt", "int"): (None, I(4), g.NULO), "Q": (None, new("Q", z=I(3)), new("Q")),
    "U": (None, ("variant", "U", "A", None), ("variant", "U", "B", (I(6),))), "indef": (None, I(1), g.T("k")), ("opt", "Q"): (None, g.NULO, new("Q", z=I(5))),
}
TYPES = (("registo", "Q", (("z", "int"),)), ("uniao", "U", (("A", ()), ("B", ("int",)))))


def fields():
    """Records with 1-3 fields of every type, every subset of them initialised
    in every order; each field is read and then stored."""
    ts = list(FIELD.items())
    for t, vals in ts:
        for v1 in vals:
            for v2 in vals[1:]:
                decl = (("registo", "R", (("f", t),)),)
                inits = (("f", v1),) if v1 is not None else ()
                body = (g.let("r", "R", ("new", "R", inits)), ("mostra", get(V("r"), "f")), put(get(V("r"), "f"), v2), ("mostra", get(V("r"), "f")), ("mostra", V("r")))
                yield Packed("one field", (), TYPES + decl + body)
                yield Packed("one field", (), TYPES + decl + (g.func("h", (), None, *body), g.do(call("h"))))
    names = ("a", "b", "c")
    for n in (1, 2, 3):
        for tys in itertools.product(("int", "texto", "real") if n == 3 else ("int", "texto", "real", ("vec", "int"), ("opt", "int")), repeat=n):
            decl = (("registo", "R", tuple(zip(names, tys))),)
            for k in range(n + 1):
                for chosen in itertools.permutations(range(n), k):
                    inits = tuple((names[i], FIELD[tys[i]][1 + i % 2]) for i in chosen)
                    sh = tuple(("mostra", get(V("r"), names[i])) for i in range(n))
                    st = tuple(x for i in range(n) for x in (put(get(V("r"), names[i]), FIELD[tys[i]][2]),) + sh)
                    yield Packed("fields", (), decl + (g.let("r", "R", ("new", "R", inits)),) + sh + st)
    # what a constructor rejects
    R = ("registo", "R", (("a", "int"), ("b", "texto")))
    for inits in ((("a", I(1)), ("a", I(2))), (("z", I(1)),), (("a", g.T("x")),), (("a", I(1)), ("b", I(2))), (("b", g.T("x")), ("a", g.R("1.5")))):
        yield Packed("bad", (), (R, ("mostra", get(("new", "R", inits), "a"))))
    for f in (("registo", "R", (("a", "int"), ("a", "texto"))), ("registo", "R", (("a", "zz"),)), ("registo", "R", ()), ("registo", "R", (("a", "R"),)), ("registo", "R", (("a", ("opt", "R")),)), ("registo", "R", (("a", ("vec", "R")),))):
        yield Packed("declaration", (), (f, g.show(I(1))[0]))
        yield Packed("declaration", (), (f, g.let("x", "R", ("new", "R", ())), ("mostra", get(V("x"), "a"))))
    for e in (get(V("r"), "zz"), get(get(V("r"), "a"), "b"), ("mcall", V("r"), "a", ()), get(I(1), "a")):
        yield Packed("bad", (), (R, g.let("r", "R", ("new", "R", ())), ("mostra", e)))
        yield Packed("bad", (), (R, g.let("r", "R", ("new", "R", ())), put(e, I(1)) if e[0] == "get" and e[1][0] != "int" else ("mostra", e)))


def many():
    for n in (1, 10, 100, 200, 254, 255):
        fs = tuple((f"f{i}", "int") for i in range(n))
        yield Packed(f"{n} fields", (), (("registo", "R", fs), g.let("r", "R", ("new", "R", tuple((f, I(i)) for i, (f, _) in enumerate(fs)))), g.let("s", "int", I(0))) + tuple(put("s", B("*", get(V("r"), f), I(i + 1)), "+=") for i, (f, _) in enumerate(fs)) + (("mostra", V("s")), put(get(V("r"), f"f{n - 1}"), I(-5)), ("mostra", get(V("r"), f"f{n - 1}")), ("mostra", get(V("r"), "f0"))))


# values of a type that are equal, or look equal, but are not the same: (type, variables, values, what changes the one that is in a place, what shows them all)
def _grow(e):
    return (g.do(call("anexa", e, I(7))),)


def _case(e):
    return (g.do(("match", e, ((("pcon", "U", "A", None), ("block", (), None)), (("pcon", "U", "B", (("pvar", "k"),)), ("block", (), None)), (("pcon", "U", "V", (("pvar", "l"),)), ("block", _grow(V("l")), None))))),)


def _inside(change):
    return lambda e: (("se", B("!=", e, g.NULO), change(get(e, "valor")), (), None),)


_SET = lambda e: (put(get(e, "n"), I(7), "+="),)
_VECS = (g.let("v1", ("vec", "int"), g.vec("int", I(1))), g.let("v2", ("vec", "int"), g.vec("int", I(1))), g.let("v3", ("vec", "int"), g.vec("int")))
_RECS = (g.let("p1", "Q", new("Q", n=I(1))), g.let("p2", "Q", new("Q", n=I(1))))
_UNIS = _VECS[:2] + (g.let("u1", "U", ("variant", "U", "V", (V("v1"),))), g.let("u2", "U", ("variant", "U", "V", (V("v1"),))), g.let("u3", "U", ("variant", "U", "V", (V("v2"),))))
_ALL = lambda *es: tuple(("mostra", e) for e in es)
EQUAL = (
    ("real", (), (g.R("0.0"), g.R("-0.0"), I(0), g.R("1.0"), I(1)), None, ()),
    ("int", (), (I(0), I(1), I(2**32), I(2**53), I(2**53 + 1)), None, ()),
    ("indef", (), (I(0), g.R("0.0"), g.R("-0.0"), g.FALSE, g.T(""), g.T("0"), I(1), g.TRUE, g.R("1.0")), None, ()),
    ("texto", (), (g.T("a"), g.T("A"), g.T("á"), g.T("a\u0301"), g.T(" a"), g.T(""), g.idx(g.T("aa"), 1)), None, ()),
    (("opt", "int"), (), (g.NULO, I(0), I(1)), None, ()),
    (("opt", "bool"), (), (g.NULO, g.FALSE, g.TRUE), None, ()),
    (("opt", "real"), (), (g.NULO, I(0), g.R("0.0"), g.R("-0.0")), None, ()),
    (("vec", "int"), _VECS, (V("v1"), V("v2"), V("v3"), g.vec("int", I(1)), g.vec("int")), _grow, _ALL(V("v1"), V("v2"), V("v3"))),
    (("opt", ("vec", "int")), _VECS, (V("v1"), V("v2"), V("v3"), g.NULO), _inside(_grow), _ALL(V("v1"), V("v2"), V("v3"))),
    ("Q", _RECS, (V("p1"), V("p2"), new("Q", n=I(1))), _SET, _ALL(get(V("p1"), "n"), get(V("p2"), "n"))),
    (("opt", "Q"), _RECS, (V("p1"), V("p2"), g.NULO, new("Q", n=I(1))), _inside(_SET), _ALL(get(V("p1"), "n"), get(V("p2"), "n"))),
    ("U", _UNIS, (V("u1"), V("u2"), V("u3"), ("variant", "U", "A", None), ("variant", "U", "B", (I(0),)), ("variant", "U", "B", (I(1),))), _case, _ALL(V("v1"), V("v2"))),
)
_BASE = (("registo", "Q", (("n", "int"),)), ("uniao", "U", (("A", ()), ("B", ("int",)), ("V", (("vec", "int"),)))))
# places: (declarations of the module, statements that make the place with a value, the place)
_PLACES = {
    "variable": lambda t, x: ((), (g.let("x", t, x),), V("x")),
    "field": lambda t, x: ((("registo", "R", (("a", "int"), ("f", t), ("b", "int"))),), (g.let("x", "R", new("R", a=I(1), f=x, b=I(2))),), get(V("x"), "f")),
    "element": lambda t, x: ((), (g.let("x", ("vec", t), g.vec(t, x, x)),), idx(V("x"), 1)),
    "inner element": lambda t, x: ((), (g.let("x", ("vec", ("vec", t)), g.vec(("vec", t), g.vec(t, x))),), idx(idx(V("x"), 0), 0)),
    "field of an element": lambda t, x: ((("registo", "R", (("f", t),)),), (g.let("x", ("vec", "R"), g.vec("R", new("R", f=x))),), get(idx(V("x"), 0), "f")),
    "field of a field": lambda t, x: ((("registo", "R", (("f", t),)), ("registo", "S", (("r", "R"),))), (g.let("x", "S", new("S", r=new("R", f=x))),), get(get(V("x"), "r"), "f")),
}


def equal_values():
    """Whatever a place holds, what is stored replaces it, also when both are equal."""
    for t, decls, vals, change, show in EQUAL:
        for pn, make in _PLACES.items():
            for x, y in itertools.product(vals, repeat=2):
                for z in (None, x):
                    ds, first, place = make(t, x)
                    body = decls + first
                    for i, v in enumerate((x, y) if z is None else (x, y, z)):
                        if i:
                            body += (put(place, v),)
                        if change:
                            body += change(place) + show
                        if t not in ("Q", "U", ("opt", "Q")):
                            body += (("mostra", place),)
                    label = f"{g_name(t)} in a {pn}"
                    yield Packed(label, (), _BASE + ds + body)
                    yield Packed(label, (), _BASE + ds + (g.func("h", (), None, *body), g.do(call("h"))))


def g_name(t):
    return t if isinstance(t, str) else " ".join(map(g_name, t))


def equality():
    """'==' between records, optionals and 'nulo'."""
    pre = (("registo", "P", (("n", "int"),)), ("registo", "E", (("n", "int"),)), g.let("a", P, new("P", n=I(1))), g.let("b", P, new("P", n=I(1))), g.let("c", P, V("a")), g.let("d", "E", new("E", n=I(1))),
           g.let("o", ("opt", P), V("a")), g.let("n", ("opt", P), g.NULO))
    es = [V(x) for x in "abcdon"] + [g.NULO, new("P", n=I(1)), I(1)]
    for x in es:
        for y in es:
            for op in ("==", "!="):
                yield Packed("equality", pre, (("mostra", B(op, x, y)),))


def spaces(tier):
    d = 3 if tier == "quick" else 4
    for k, st in enumerate(FLAT_SETUPS):
        yield Space(f"histories of records {k}", f"every sequence of {d} of {len(FLAT)} operations", lambda st=st: histories(PRE, st, FLAT, FLAT_SHOW, d), judge_packed, 100)
    yield Space("histories of linked records", f"every sequence of {d} of {len(LIST)} operations", lambda: histories(PRE + WALK, LIST_SETUP, LIST, LIST_SHOW, d), judge_packed, 100)
    yield Space("histories of nested records", f"every sequence of {d} of {len(DEEP)} operations", lambda: histories(PRE, DEEP_SETUP, DEEP, DEEP_SHOW, d), judge_packed, 100)
    yield Space("histories of global records", "every sequence of 2 operations on global variables", lambda: itertools.chain(histories(PRE, FLAT_SETUPS[0], FLAT, FLAT_SHOW, 2, False), histories(PRE, DEEP_SETUP, DEEP, DEEP_SHOW, 2, False)), judge_packed, 100)
    yield Space("fields", "1-3 fields of 10 types, every ordered subset initialised, each one stored", fields, judge_packed, 100)
    yield Space("equality", "'==' and '!=' between records, optionals and nulo", equality, judge_packed, 60)
    yield Space("equal values", f"every ordered pair of values of {len(EQUAL)} types, that are equal or look equal, stored one over the other in {len(_PLACES)} kinds of places", equal_values, judge_packed, 100)
    yield Space("many fields", "1 to 255 fields", many, judge_packed, 1)
    yield Space("modules", "histories of 2 operations of each kind, and the fields, divided in modules in 6 ways", modular((lambda: histories(PRE, FLAT_SETUPS[0], FLAT, FLAT_SHOW, 2, False), lambda: histories(PRE + WALK, LIST_SETUP, LIST, LIST_SHOW, 2, False), lambda: histories(PRE, DEEP_SETUP, DEEP, DEEP_SHOW, 2, False), fields, equality)), judge_programs, 60)
