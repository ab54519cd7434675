"""C23: every operand is evaluated once, from left to right; assignments store once."""
import itertools

from checks import positions
from mc import gen as g
from mc.harness import Case, Packed, Space, Text, judge_packed, judge_programs, judge_texts
from mc.modular import modular

PROP = "C23"
LEVEL = "exploration"
RULE = ("every tree of the stated kinds of expressions and every assignment of the stated targets, operators and values, with operands that show when they are evaluated, is "
        "run on the real compiler and VM and compared with the model; two cases are distinct when their sources differ")
V, I, B, T, R, call, idx, put, get = g.V, g.I, g.B, g.T, g.R, g.call, g.idx, g.put, g.get


def new(ty, *fs):
    return ("new", ty, fs)


def tr(name, t):
    """A function that shows the number of the operand and gives its value."""
    return g.func(name, (("v", t), ("k", "int")), t, ("mostra", V("k")), g.ret(V("v")))


PRE = (
    ("registo", "P", (("a", "int"), ("b", "int"))), ("registo", "D", (("p", "P"), ("l", ("vec", "int")), ("r", "real"), ("o", ("opt", "int")), ("q", ("opt", "P")))),
    ("uniao", "U", (("A", ("int", "int")), ("Z", ()))),
    tr("t", "int"), tr("b", "bool"), tr("s", "texto"), tr("l", ("vec", "int")), tr("o", ("opt", "int")),
    g.func("dois", (("x", "int"), ("y", "int")), "int", g.ret(B("-", V("x"), V("y")))), g.func("int_de", (("x", "bool"),), "int", ("se", V("x"), (g.ret(I(1)),), (), (g.ret(I(0)),))),
    ("met", "int", "com", (("x", "int"),), "int", (g.ret(B("+", B("*", ("alvo",), I(2)), V("x"))),)),
    g.func("junta", (("u", "U"),), "int", g.ret(("match", V("u"), ((("pcon", "U", "A", (("pvar", "x"), ("pvar", "y"))), ("expr", B("-", V("x"), V("y")))), (("pcon", "U", "Z", None), ("expr", I(0))))))),
    g.func("tres", (("x", "int"), ("y", "int"), ("z", "int")), "int", g.ret(B("-", B("*", V("x"), V("y")), V("z")))), g.func("com_mais", (("l", ("vec", "int")), ("x", "int")), ("vec", "int"), g.do(call("anexa", V("l"), V("x"))), g.ret(V("l"))),
    ("met", "int", "dois", (("x", "int"), ("y", "int")), "int", (g.ret(B("-", B("+", ("alvo",), V("x")), V("y"))),)),
    ("decl", ("opn",), ("opt", "int"), g.NULO),
)
# kinds of expressions of type int: (number of operands, constructor)
KINDS = (
    ("-", 2, lambda x, y: ("par", B("-", x, y))), ("*", 2, lambda x, y: ("par", B("*", x, y))), ("<", 2, lambda x, y: call("int_de", B("<", x, y))), ("==", 2, lambda x, y: call("int_de", B("==", x, y))),
    ("e", 2, lambda x, y: call("int_de", B("e", B("<", x, I(2)), B("<", y, I(2))))), ("ou", 2, lambda x, y: call("int_de", B("ou", B("<", x, I(2)), B("<", y, I(2))))),
    ("call", 2, lambda x, y: call("dois", x, y)), ("method", 2, lambda x, y: ("mcall", x, "com", (y,))), ("vector", 2, lambda x, y: ("idx", g.vec("int", x, y), I(1))),
    ("index", 2, lambda x, y: ("idx", g.vec("int", I(3), x), call("int_de", B("!=", y, I(99))))), ("fields", 2, lambda x, y: get(new("P", ("a", x), ("b", y)), "a")), ("fields reversed", 2, lambda x, y: get(new("P", ("b", x), ("a", y)), "a")),
    ("variant", 2, lambda x, y: call("junta", ("variant", "U", "A", (x, y)))), ("valor_ou", 2, lambda x, y: ("mcall", ("cast", x, ("opt", "int")), "valor_ou", (y,))),
    ("f-string", 2, lambda x, y: call("tam", ("fstr", (x, "/", y)))), ("sizes", 2, lambda x, y: call("tam", ("vec", "int", (B("*", B("*", x, I(0)), I(1)), B("*", y, I(0)))))),
    ("match", 2, lambda x, y: ("match", x, ((("pint", 1), ("expr", I(5))), (("pvar", "w"), ("expr", B("+", V("w"), y)))))),
    ("neg", 1, lambda x: ("par", ("un", "-", x))), ("cast", 1, lambda x: ("cast", ("par", ("cast", x, "real")), "int")), ("indef", 1, lambda x: ("cast", ("par", ("cast", x, "indef")), "int")), ("valor", 1, lambda x: get(("par", ("cast", x, ("opt", "int"))), "valor")),
)


MORE = tuple((op, 2, lambda x, y, op=op: ("par", B(op, x, y))) for op in ("+", "//", "%")) + tuple((op, 2, lambda x, y, op=op: call("int_de", B(op, x, y))) for op in (">", "<=", ">=", "!=")) + (
    ("/", 2, lambda x, y: ("cast", ("par", B("/", x, y)), "int")), ("reals", 2, lambda x, y: ("cast", ("par", B("*", ("cast", x, "real"), y)), "int")), ("texts", 2, lambda x, y: call("int_de", B("==", ("cast", x, "texto"), ("cast", y, "texto")))),
    ("logic", 2, lambda x, y: call("int_de", B("==", ("par", B("<", x, I(2))), ("par", B("<", y, I(2)))))), ("nulo", 2, lambda x, y: call("int_de", B("e", B("==", ("cast", x, ("opt", "int")), g.NULO), B("!=", g.NULO, ("cast", y, ("opt", "int")))))),
    ("txt_contem", 2, lambda x, y: call("int_de", call("txt_contem", ("cast", x, "texto"), ("cast", y, "texto")))), ("anexa", 2, lambda x, y: ("idx", call("com_mais", g.vec("int", x), y), I(1))), ("remova", 2, lambda x, y: call("remova", g.vec("int", I(4), x), call("int_de", B("<", y, I(2))))),
    ("elements of a text", 2, lambda x, y: call("tam", ("idx", ("fstr", (x, "a")), call("int_de", B("<", y, I(2)))))), ("module", 2, lambda x, y: call("tam", ("vec", "texto", (B("*", B("+", x, y), I(1)),)))), ("method with two", 2, lambda x, y: ("mcall", I(4), "dois", (x, y))),
    ("nested", 2, lambda x, y: ("match", ("variant", "U", "A", (x, y)), ((("pcon", "U", "A", (("pint", 3), ("pvar", "z"))), ("expr", V("z"))), (("pvar", "z"), ("expr", I(6)))))), ("three", 3, lambda x, y, z: call("tres", x, y, z)), ("three fields", 3, lambda x, y, z: ("idx", g.vec("int", x, y, z), I(2))), ("index of index", 3, lambda x, y, z: ("idx", ("idx", g.vec(("vec", "int"), g.vec("int", I(2), x)), B("*", y, I(0))), B("*", z, I(0)))))


class Leaves:
    """A traced operand, with a different number and value each time."""

    def __init__(self):
        self.n = 0

    def __call__(self):
        self.n += 1
        return call("t", I((3, 1, 4, 2, 5, 9, 6)[self.n % 7]), I(self.n))


def trees(n, kinds):
    """Every tree with n inner nodes, as a function of a source of leaves."""
    if n == 0:
        yield lambda leaf: leaf()
        return
    for _, k, f in kinds:
        for sizes in itertools.product(range(n), repeat=k):
            if sum(sizes) == n - 1:
                for subs in itertools.product(*[tuple(trees(m, kinds)) for m in sizes]):
                    yield lambda leaf, f=f, subs=subs: f(*[s(leaf) for s in subs])


CONTEXTS = (
    lambda e: (("mostra", e),), lambda e: (g.let("x", "int", e), ("mostra", V("x"))), lambda e: (("se", B(">", I(3), e), (("mostra", T("sim")),), (), (("mostra", T("não")),)),),
    lambda e: (("mostra", call("dois", e, call("t", I(1), I(90)))),), lambda e: (("mostra", call("dois", call("t", I(1), I(90)), e)),), lambda e: (g.let("x", "int", I(2)), put("x", e, "+="), ("mostra", V("x"))),
    lambda e: (g.let("v", ("vec", "int"), g.vec("int", I(2))), put(("idx", V("v"), call("t", I(0), I(90))), e, "-="), ("mostra", V("v"))), lambda e: (g.let("y", "real", e), ("mostra", V("y"))), lambda e: (g.let("y", ("opt", "int"), e), ("mostra", V("y"))),
    lambda e: (("escolha", e, ((call("t", I(3), I(91)), (("mostra", T("três")),)), (call("t", I(1), I(92)), (("mostra", T("um")),))), (("mostra", T("outro")),)),), lambda e: (("para", "i", I(0), B("%", e, I(3)), None, (("mostra", V("i")),)),),
    lambda e: (("mostra", ("fstr", ("<", e, ">"))),), lambda e: (g.do(e), ("mostra", T("."))),
)


def expressions(n, kinds, contexts):
    def gen():
        i = 0
        for tree in trees(n, kinds):
            for c in contexts:
                i += 1
                f = f"h{i}"
                # two at a time: what the first leaves behind is seen by the second
                yield Packed("expression", PRE, (g.func(f, (), None, *c(tree(Leaves()))), g.do(call(f))))
    return gen


# targets of type int, with the statement that declares what they are in
STATE = (g.let("x", "int", I(2)), g.let("y", "int", I(3)), g.let("p", "P", new("P", ("a", I(4)), ("b", I(5)))), g.let("v", ("vec", "int"), g.vec("int", I(6), I(7), I(8))), g.let("m", ("vec", ("vec", "int")), g.vec(("vec", "int"), g.vec("int", I(9), I(10)), V("v"))),
         g.let("ps", ("vec", "P"), g.vec("P", V("p"), new("P", ("a", I(11)), ("b", I(12))))), g.let("d", "D", new("D", ("p", V("p")), ("l", V("v")), ("r", R("1.5")), ("o", I(13)), ("q", V("p")))))
SHOW = (("mostra", ("fstr", (V("x"), " ", V("y"), " ", get(V("p"), "a"), " ", get(V("p"), "b"), " ", get(idx(V("ps"), 1), "a"), " ", get(get(V("d"), "p"), "a"), " ", get(V("d"), "r")))), ("mostra", V("v")), ("mostra", V("m")), ("mostra", get(V("d"), "l")), ("mostra", get(V("d"), "o")))
HELP = (
    g.func("tp", (("v", "P"), ("k", "int")), "P", ("mostra", V("k")), g.ret(V("v"))), g.func("tm", (("v", ("vec", ("vec", "int"))), ("k", "int")), ("vec", ("vec", "int")), ("mostra", V("k")), g.ret(V("v"))),
    g.func("td", (("v", "D"), ("k", "int")), "D", ("mostra", V("k")), g.ret(V("v"))), g.func("tps", (("v", ("vec", "P")), ("k", "int")), ("vec", "P"), ("mostra", V("k")), g.ret(V("v"))),
    # values that change what the targets refer to
    g.func("muda", (("v", ("vec", "int")), ("p", "P")), "int", put(idx(V("v"), 0), I(50)), put(idx(V("v"), 1), I(60), "+="), put(get(V("p"), "a"), I(70)), put(get(V("p"), "b"), I(80), "-="), g.ret(I(1))),
    g.func("tira", (("v", ("vec", "int")),), "int", g.ret(call("remova", V("v"), I(0)))), g.func("junta_a", (("v", ("vec", "int")),), "int", g.do(call("anexa", V("v"), I(100))), g.ret(call("tam", V("v")))),
)


def t(n):
    return lambda k: call("t", I(n), k())


TARGETS = (
    ("x", lambda k: V("x")), ("y", lambda k: V("y")), ("p.a", lambda k: get(V("p"), "a")), ("tp(p).b", lambda k: get(call("tp", V("p"), k()), "b")), ("v[0]", lambda k: idx(V("v"), 0)), ("v[t]", lambda k: ("idx", V("v"), call("t", I(1), k()))),
    ("l(v)[t]", lambda k: ("idx", call("l", V("v"), k()), call("t", I(0), k()))), ("tm(m)[t][t]", lambda k: ("idx", ("idx", call("tm", V("m"), k()), call("t", I(1), k())), call("t", I(0), k()))), ("m[0][x]", lambda k: ("idx", idx(V("m"), 0), B("%", V("x"), I(2)))),
    ("ps[t].a", lambda k: get(("idx", call("tps", V("ps"), k()), call("t", I(0), k())), "a")), ("td(d).p.a", lambda k: get(get(call("td", V("d"), k()), "p"), "a")), ("d.l[t]", lambda k: ("idx", get(V("d"), "l"), call("t", I(1), k()))), ("v[v[0]-6]", lambda k: ("idx", V("v"), B("-", idx(V("v"), 0), I(6)))),
    ("d.q.valor.a", lambda k: get(get(get(V("d"), "q"), "valor"), "a")), ("v[9]", lambda k: ("idx", V("v"), call("t", I(9), k()))), ("m[-1][0]", lambda k: idx(V("m"), I(-1), 0)),
    ("d.r", lambda k: get(call("td", V("d"), k()), "r")), ("d.o", lambda k: get(V("d"), "o")),
)
VALUES = (
    ("t", lambda k: call("t", I(5), k())), ("0", lambda k: I(0)), ("x", lambda k: V("x")), ("muda", lambda k: call("muda", V("v"), V("p"))), ("tira", lambda k: call("tira", V("v"))), ("junta", lambda k: call("junta_a", V("v"))), ("t - t", lambda k: B("-", call("t", I(1), k()), call("t", I(3), k()))),
    ("v[0]", lambda k: idx(V("v"), 0)), ("p.a + v[t]", lambda k: B("+", get(V("p"), "a"), ("idx", V("v"), call("t", I(2), k())))), ("1 // 0", lambda k: B("//", call("t", I(1), k()), call("t", I(0), k()))), ("v[7]", lambda k: idx(V("v"), 7)),
)
OPS = ("=", "+=", "-=", "*=", "/=")


class K:
    def __init__(self):
        self.n = 0

    def __call__(self):
        self.n += 1
        return I(self.n)


def assignments(depth, targets, values, where):
    """Every chain of `depth` targets, with every value; the last operator of
    a chain of one may be compound."""
    pre = PRE + HELP

    def gen():
        n = 0
        for ts in itertools.product(targets, repeat=depth):
            for vn, v in values:
                for op in OPS if depth == 1 else ("=",):
                    for w in where:
                        k = K()
                        tgts = [f(k) for _, f in ts]
                        e = v(k)
                        for x in reversed(tgts):
                            e = ("assign", x, op, e)
                        n += 1
                        lab = f"{' = '.join(a for a, _ in ts)} {op} {vn}"
                        if w == "function":
                            f = f"a{n}"
                            yield Packed(lab, pre, (g.func(f, (), None, *(STATE + (e,) + SHOW)), g.do(call(f))))
                        elif w == "main":
                            yield Packed(lab, (), pre + STATE + (e,) + SHOW)
                        else:  # in a loop, twice, after another statement
                            f = f"a{n}"
                            yield Packed(lab, pre, (g.func(f, (), None, *(STATE + (("para", "i", I(0), I(2), None, (e,) + SHOW),))), g.do(call(f))))
    return gen


# global variables that an operand reads, and another one changes
SHARED = (
    g.let("gi", "int", I(0)), g.let("gj", "int", I(1)), g.let("gv", ("vec", "int"), g.vec("int", I(6), I(7), I(8))), g.let("gm", ("vec", ("vec", "int")), g.vec(("vec", "int"), g.vec("int", I(9), I(10)), V("gv"))),
    g.let("gp", "P", new("P", ("a", I(4)), ("b", I(5)))), g.let("gps", ("vec", "P"), g.vec("P", V("gp"), new("P", ("a", I(11)), ("b", I(12))))), g.let("go", ("opt", "int"), I(13)),
    g.let("gd", "D", new("D", ("p", V("gp")), ("l", V("gv")), ("r", R("1.5")), ("o", I(13)), ("q", V("gp")))),
    g.func("repoe", (), None, put("gi", I(0)), put("gj", I(1)), put("gv", g.vec("int", I(6), I(7), I(8))), put("gm", g.vec(("vec", "int"), g.vec("int", I(9), I(10)), V("gv"))), put("gp", new("P", ("a", I(4)), ("b", I(5)))),
           put("gps", g.vec("P", V("gp"), new("P", ("a", I(11)), ("b", I(12))))), put("go", I(13)), put("gd", new("D", ("p", V("gp")), ("l", V("gv")), ("r", R("1.5")), ("o", I(13)), ("q", V("gp"))))),
    g.func("diz", (), None, ("mostra", ("fstr", (V("gi"), " ", V("gj"), " ", get(V("gp"), "a"), " ", get(V("gp"), "b"), " ", get(idx(V("gps"), 0), "a"), " ", get(idx(V("gps"), 1), "a"), " ", get(get(V("gd"), "p"), "a")))), ("mostra", V("go")), ("mostra", V("gv")), ("mostra", V("gm")), ("mostra", get(V("gd"), "l"))),
    g.func("mi", (), "int", put("gi", B("-", I(1), V("gi"))), put("gj", B("-", I(1), V("gj"))), g.ret(V("gj"))),
    g.func("mv", (), "int", put("gv", g.vec("int", I(60), I(70), I(80))), put("gm", g.vec(("vec", "int"), V("gv"), g.vec("int", I(1), I(2)))), g.ret(I(1))),
    g.func("mp", (), "int", put("gp", new("P", ("a", I(40)), ("b", I(50)))), put("gps", g.vec("P", new("P", ("a", I(41)), ("b", I(51))), V("gp"))), put("gd", new("D", ("p", new("P", ("a", I(42)), ("b", I(52)))), ("l", g.vec("int", I(61), I(71))), ("r", R("2.5")), ("o", g.NULO), ("q", g.NULO))), g.ret(I(1))),
    g.func("me", (), "int", put(idx(V("gv"), 0), I(50)), put(idx(V("gv"), 1), I(60), "+="), put(get(V("gp"), "a"), I(70)), put(get(V("gp"), "b"), I(80), "-="), put(idx(V("gm"), 0), g.vec("int", I(3), I(2))), put("go", I(14)), g.ret(I(1))),
    g.func("mr", (), "int", put("go", g.NULO), g.do(call("anexa", V("gv"), I(100))), g.ret(call("remova", V("gv"), I(0)))),
)
CHANGES = tuple(call(f) for f in ("mi", "mv", "mp", "me", "mr"))
READS = (V("gi"), V("gj"), idx(V("gv"), 0), ("idx", V("gv"), V("gi")), ("idx", V("gv"), B("-", I(1), V("gj"))), get(V("gp"), "a"), ("idx", ("idx", V("gm"), V("gj")), V("gi")), get(("idx", V("gps"), V("gi")), "a"), call("tam", V("gv")), ("mcall", V("go"), "valor_ou", (I(5),)), ("idx", get(V("gd"), "l"), V("gi")), ("match", V("gi"), ((("pint", 0), ("expr", V("gj"))), (("pvar", "w"), ("expr", B("+", V("w"), I(3)))))))
PLACES = (V("gi"), V("gj"), idx(V("gv"), 0), ("idx", V("gv"), V("gi")), ("idx", V("gv"), V("gj")), ("idx", V("gv"), B("-", I(1), V("gj"))), ("idx", ("idx", V("gm"), V("gj")), V("gi")), get(V("gp"), "a"), get(("idx", V("gps"), V("gi")), "a"), get(get(V("gd"), "p"), "a"), ("idx", get(V("gd"), "l"), V("gj")), ("idx", V("gv"), call("mi")), ("idx", ("idx", V("gm"), V("gi")), call("mi")), ("idx", ("idx", V("gm"), call("mi")), V("gi")))


def shared(deep):
    """Operands that read variables which others change."""
    pre = PRE + SHARED
    before, after = g.do(call("repoe")), g.do(call("diz"))

    def case(label, *st):
        return Packed(label, pre, (before,) + st + (after,))

    def gen():
        kinds = [(n, f) for n, k, f in KINDS + MORE if k == 2]
        for (n, f), x, c in itertools.product(kinds, READS, CHANGES):
            yield case(n, ("mostra", f(x, c)))
            yield case(n, ("mostra", f(c, x)))
            if deep:
                for y in READS[:8]:
                    yield case(n, ("mostra", f(x, B("+", c, y))))
                    yield case(n, ("mostra", f(B("-", x, c), y)))
        for n, k, f in MORE:
            if k == 3:
                for x, y in itertools.product(READS[:8], repeat=2):
                    for c in CHANGES:
                        yield case(n, ("mostra", f(x, c, y)))
                        yield case(n, ("mostra", f(c, x, y)))
        i = 0
        for ctx, x, c in itertools.product(CONTEXTS, READS, CHANGES):
            for e in (B("-", x, c), B("-", c, x)):
                i += 1
                yield case("context", ("se", g.TRUE, ctx(e), (), None))
        # the value that an 'escolha' compares is the one from before its cases
        cases = lambda ks: tuple((I(k), (("mostra", I(k)),)) for k in ks)
        for x, c in itertools.product(READS, CHANGES):
            for first in (B("+", c, I(1000)), B("-", c, x), c, x):
                yield case("cases", ("escolha", x, ((first, (("mostra", T("first")),)),) + cases(range(-2, 22)), (("mostra", T("other")),)))
                yield case("cases", ("escolha", x, ((first, (("mostra", T("first")),)), (B("-", c, I(1000)), (("mostra", T("second")),)), (x, (("mostra", T("same")),))) + cases(range(21, -3, -1)), (("mostra", T("other")),)))
        for p, c, op in itertools.product(PLACES, CHANGES, OPS):
            values = (c, B("-", c, p), B("-", p, c)) + tuple(B("+", c, x) for x in (READS if deep else READS[:4]))
            for v in values:
                i += 1
                yield case(f"{op} {i}", ("assign", p, op, v))
                if deep or v is c:
                    f = f"lg{i}"
                    # the variables that hold what the target is reached through are local
                    yield Packed(f"{op} in a function", pre, (before, g.func(f, (("gv", ("vec", "int")), ("gi", "int")), None, ("assign", p, op, v), ("mostra", V("gi")), ("mostra", V("gv"))), g.do(call(f, V("gv"), V("gi"))), after))
        for p, q in itertools.product(PLACES, repeat=2):
            for v in CHANGES + (READS[:4] if deep else ()):
                yield case("chain", ("assign", p, "=", ("assign", q, "=", v)))
                yield case("chain", ("assign", p, "=", ("assign", q, "=", B("+", v, p))))
    return gen


def order_of_errors():
    """Two operands that fail: the first one of them ends the program."""
    bad = (B("//", I(1), I(0)), idx(g.vec("int"), 5), ("cast", ("par", ("cast", T("a"), "indef")), "int"), get(V("opn"), "valor"), call("t", I(1), I(77)), call("remova", g.vec("int"), I(1)))
    for _, k, f in KINDS + MORE:
        if k == 2:
            for x in bad:
                for y in bad:
                    yield Case("two errors", PRE + (("mostra", f(x, y)),))
    for _, tg in TARGETS:
        for e in bad:
            for op in OPS:
                yield Case("error of the value", PRE + HELP + STATE + (("assign", tg(K()), op, e),) + SHOW)


def types():
    """Chains over targets of different types: each one stores the value as its own type."""
    decl = {"int": I(1), "real": R("1.5"), "indef": T("z"), ("opt", "int"): g.NULO, ("opt", "real"): g.NULO, "texto": T("k"), "bool": g.FALSE, ("opt", "texto"): g.NULO}
    vals = (I(7), R("2.5"), T("w"), g.TRUE, g.NULO, ("cast", I(3), ("opt", "int")), ("cast", I(3), "indef"), call("t", I(4), I(1)))
    kinds = ("local", "field", "element")
    for a, b in itertools.product(decl, repeat=2):
        for ka, kb in itertools.product(kinds, repeat=2):
            for e in vals:
                body = (("registo", "A", (("f", a),)), ("registo", "C", (("f", b),)), g.let("a1", a, decl[a]), g.let("b1", b, decl[b]), g.let("ra", "A", new("A", ("f", decl[a]))), g.let("rb", "C", new("C", ("f", decl[b]))), g.let("va", ("vec", a), g.vec(a, decl[a])), g.let("vb", ("vec", b), g.vec(b, decl[b])))
                ta = {"local": V("a1"), "field": get(V("ra"), "f"), "element": idx(V("va"), 0)}[ka]
                tb = {"local": V("b1"), "field": get(V("rb"), "f"), "element": idx(V("vb"), 0)}[kb]
                yield Packed("types of chains", (), PRE[3:4] + body + (put(ta, ("assign", tb, "=", e)),) + (("mostra", ta), ("mostra", tb)))


def compound_types():
    """Every compound operator on every pair of types of target and value."""
    decl = {"int": I(7), "real": R("1.5"), "indef": I(2), ("opt", "int"): I(3), "texto": T("k"), "bool": g.FALSE, ("vec", "int"): g.vec("int", I(1)), "P": new("P", ("a", I(1)), ("b", I(2)))}
    for a, ea in decl.items():
        for b, eb in decl.items():
            for op in OPS:
                for kind in ("local", "field", "element", "global"):
                    body = (g.let("v", b, eb),)
                    if kind in ("local", "global"):
                        tg, body = V("a1"), body + (g.let("a1", a, ea),)
                    elif kind == "field":
                        tg, body = get(V("ra"), "f"), (("registo", "A", (("f", a),)),) + body + (g.let("ra", "A", new("A", ("f", ea))),)
                    else:
                        tg, body = idx(V("va"), 0), body + (g.let("va", ("vec", a), g.vec(a, ea)),)
                    body += (put(tg, V("v"), op), ("mostra", tg))
                    if kind == "local":
                        body = (g.func("f", (), None, *body), g.do(call("f")))
                    yield Packed("types of compound", (), PRE[:1] + body)


OPERATORS = "+ - * / // % < > <= >= == != e ou".split()


def forms():
    """Assignments are statements: where else they are written they are rejected; what can not be stored in is rejected."""
    head = "func f(a: int): int\n retorna a\nfim\nregisto P\n n: int\nfim\nuniao U\n A,\n B(int)\nfim\nx: int = 1\ny: int = 2\nb: bool = falso\nv: [int] = [int: 4, 5]\np: P = P(n: 3)\nmostra 0\n"
    line = head.count("\n") + 1
    show = '\nmostra f"{x} {y} {b} {v[0]} {v[1]} {p.n}"\n'

    def ok(s, out):
        return Text("accepted", head + s + show, ("run", "0\n" + out + "\n", None))

    def no(s):
        return Text("rejected", head + s + show, ("reject", "main.ama", line))
    for a in ("x = 3", "x += 3", "v[0] = 3", "p.n = 3", "x = y = 3", "v[0] *= 2", "p.n -= 1"):
        for c in ("mostra {}", "mostra f({})", "f({})", "y = ({})", "z: int = {}", "mostra v[{}]", "se {} entao\nfim", "mostra [int: {}]", "mostra P(n: {})", "({})", "mostra 1 + ({})", "mostra ({}) + 1", "retorna {}", "enquanto {} faca\nfim", "para i de {}..3 faca\nfim", "para i de 0..{} faca\nfim", "para i de 0..3 inc {} faca\nfim", "mostra U::B({})", "mostra iguala {} => y\nfim", "x = 1 + {}", "x += {}", "v[0] -= {}", "p.n /= {}", "escolha {}:\ncaso 1:\nfim", "mostra - {}", "mostra f'{{{}}}'", "vec(int, {})", "({}).n", "mostra ({}) :> int"):
            # 'x = 1 + y = 3' and 'x += y = 3': the target is not a place
            yield no(c.format(a))
    for tgt in ("1", "'a'", "verdadeiro", "nulo", "f(1)", "1 + x", "x + 1", "-x", "nao b", "x == y", "b e b", "[int: 1]", "P(n: 1)", "U::A", "U::B(1)", "x :> int", "f'a'", "v[0] + 1", "(x + y)", "vec(int, 1)", "tam(v)", "x.y()", "(f)(1)", "f", "P", "U", "p.n :> int", "tam", "v", "P.n", "U::A.x", "f.x", "'abc'[0]", "f(1)[0]", "v[0][0]", "x.n", "p.m", "v.n", "w", "w[0]", "w.n", "alvo", "v['a']", "v[1.5]", "v[verdadeiro]"):
        for op in ("=", "+=", "-=", "*=", "/="):
            yield no(f"{tgt} {op} 1")
            yield no(f"x = {tgt} {op} 1")
            yield no(f"{tgt} {op} {tgt} {op} 1")
    for op in ("//=", "%=", "**=", "==", "=>", ":=", "=+", "= =", "+ =", "++", "--", "+=+", "&=", "|="):
        if op in ("==",):
            yield ok(f"x {op} 5", "1 2 falso 4 5 3")
        elif op in ("=+", "++", "--", "+=+"):
            # a unary sign follows the operator
            yield ok(f"x {op} 5", {"=+": "5", "+=+": "6"}.get(op, "1") + " 2 falso 4 5 3")
        else:
            yield no(f"x {op} 5")
            yield no(f"v[0] {op} 5")
            yield no(f"p.n {op} 5")
    for s, o in (("(x) = 3", "3 2 falso 4 5 3"), ("((x)) += 3", "4 2 falso 4 5 3"), ("(v)[1] = 3", "1 2 falso 4 3 3"), ("(v[1]) = 3", "1 2 falso 4 3 3"), ("(p).n = 9", "1 2 falso 4 5 9"), ("(p.n) += 9", "1 2 falso 4 5 12"), ("b = x == y", "1 2 falso 4 5 3"), ("b = x != y", "1 2 verdadeiro 4 5 3"),
                 ("b = nao b ou b", "1 2 verdadeiro 4 5 3"), ("x = y = v[0] = p.n = 8", "8 8 falso 8 5 8"), ("x=-1", "-1 2 falso 4 5 3"), ("x-=-1", "2 2 falso 4 5 3"), ("x= -1; y= -x", "-1 1 falso 4 5 3"), ("b = x < y", "1 2 verdadeiro 4 5 3"), ("v[x] = x = 0", "0 2 falso 4 0 3"), ("x = v[x] = 0", "0 2 falso 4 0 3")):
        yield ok(s, o)


def long_lists(sizes):
    """Many operands in one expression."""
    def run():
        each = lambda e, i: call("t", e, I(i))
        only = ("call", "method", "record", "record reversed", "variant", "vector", "vectors", "arms", "anexa", "stores")
        bad = B("//", I(1), I(0))
        for n in sizes:
            fails = (lambda t: (bad,)) if n < 20 else (lambda t: ())
            yield from positions.lists(n, ("int",), {"int": I(2)}, fails, PRE, only, each)
            for fail in ((None,) + tuple(range(n)) if n < 20 else (None, 0, n // 2, n - 1)):
                es = [call("t", bad if i == fail else I(i % 3 + 1), I(i)) for i in range(n)]
                for op in ("+", "-", "*", "//", "%"):
                    e = es[0]
                    for x in es[1:]:
                        e = B(op, e, x)
                    yield Packed("operands", PRE, (("mostra", e),))
                    e = es[-1]
                    for x in es[-2::-1]:
                        e = B("+" if op in ("//", "%") else op, x, ("par", e))
                    yield Packed("operands from the right", PRE, (("mostra", e),))
                yield Packed("f-string", PRE, (("mostra", ("fstr", tuple(y for x in es for y in (x, "/")))),))
                bools = [B("<", x, I(2)) for x in es]
                for ops in (("e",), ("ou",), ("e", "ou")):
                    e = bools[0]
                    for i, x in enumerate(bools[1:]):
                        e = ("par", B(ops[i % len(ops)], e, x))
                    yield Packed("conditions", PRE, (("mostra", e),))
                # a chain of targets, and a nest of calls
                e = ("assign", V("x"), "=", es[0])
                for i in range(1, min(n, 40)):
                    e = ("assign", ("idx", call("l", V("v"), I(100 + i)), call("t", I(i % 3), es[i] if i == fail else I(i))), "=", e)
                yield Packed("chain", (), PRE + (g.let("x", "int", I(0)), g.let("v", ("vec", "int"), g.vec("int", I(1), I(2), I(3))), e, ("mostra", V("x")), ("mostra", V("v"))))
                e = es[0]
                for x in es[1:40]:
                    e = call("dois", x, e)
                yield Packed("calls", PRE, (("mostra", e),))
                e = es[0]
                for x in es[1:40]:
                    e = ("mcall", e if e[0] != "int" else ("par", e), "com", (x,))
                yield Packed("methods", PRE, (("mostra", e),))
                arms = tuple((x, (("mostra", I(1000 + i)),)) for i, x in enumerate(es))
                yield Packed("cases", PRE, (("escolha", call("t", I(3), I(500)), arms, (("mostra", I(5000)),)),))
                yield Packed("branches", PRE, (("se", B("==", es[0], I(3)), (("mostra", I(1)),), tuple((B("==", x, I(3)), (("mostra", I(2)),)) for x in es[1:]), (("mostra", I(3)),)),))
    return run


def spaces(tier):
    q = tier == "quick"
    every = KINDS + MORE
    yield Space("expressions", f"every tree of up to 1 of {len(every)} kinds of expressions, in {len(CONTEXTS)} contexts", lambda: itertools.chain(expressions(0, every, CONTEXTS)(), expressions(1, every, CONTEXTS)()), judge_packed, 100)
    yield Space("trees of expressions", f"every tree of 2 of {len(every)} kinds, in {1 if q else len(CONTEXTS)} contexts", expressions(2, every, CONTEXTS[:1] if q else CONTEXTS), judge_packed, 400)
    ks = tuple(k for k in KINDS if k[0] in (("-", "call", "index", "fields reversed", "match", "method") if q else ("-", "call", "method", "index", "vector", "fields reversed", "variant", "match", "valor_ou", "e")))
    yield Space("deeper trees", f"every tree of 3 of {len(ks)} kinds", expressions(3, ks, CONTEXTS[:1]), judge_packed, 400)
    yield Space("assignments", f"{len(TARGETS)} targets, {len(OPS)} operators, {len(VALUES)} values, in functions, loops and entry code", assignments(1, TARGETS, VALUES, ("function", "loop", "main")), judge_packed, 100)
    yield Space("chains", f"every pair of {len(TARGETS)} targets, {len(VALUES)} values", assignments(2, TARGETS, VALUES, ("function",)), judge_packed, 200)
    few = tuple(x for x in TARGETS if x[0] in ("x", "tp(p).b", "l(v)[t]", "v[v[0]-6]", "m[0][x]", "ps[t].a"))
    yield Space("chains of 3", f"every triple of {len(few)} targets", assignments(3, few, VALUES[:5] if q else VALUES, ("function",)), judge_packed, 200)
    yield Space("variables that change", f"every kind of expression and target with {len(READS)} operands that read variables and {len(CHANGES)} that change them", shared(not q), judge_packed, 150)
    yield Space("long lists", "lists of 3 to 33 (255) operands with effects: arguments, fields, elements, operands, targets; each of them fails", long_lists((3, 5, 9, 17, 33) if q else (3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254)), judge_packed, 10)
    yield Space("order of errors", "every pair of failing operands in every kind of expression and target", order_of_errors, judge_programs, 40)
    yield Space("types of chains", "pairs of 8 types in 3 kinds of targets, 8 values", types, judge_packed, 100)
    yield Space("types of compound assignments", "pairs of 8 types, 5 operators, 4 kinds of targets", compound_types, judge_packed, 100)
    yield Space("forms", "assignments where they are not allowed, and of what is not a place", forms, judge_texts, 60)
    yield Space("modules", "the expressions of up to 1 node, the assignments in functions and entry code, divided in modules in 5 ways", modular((expressions(0, every, CONTEXTS), expressions(1, every, CONTEXTS[:1] if q else CONTEXTS), assignments(1, TARGETS, VALUES[:4] if q else VALUES, ("main",))), ("whole", "global", "items", "alias", "variables")), judge_programs, 60)
