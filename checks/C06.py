"""C06: names, scopes and the storage of variables."""
import itertools

from mc import gen as g
from mc.trees import Num, build, forests
from mc.harness import Case, Packed, Space, Text, judge_packed, judge_programs, judge_texts

PROP = "C06"
LEVEL = "exploration"
RULE = ("every tree of the stated statements up to the stated size, in the entry code and as the body of a function: acceptance "
        "(and the line of a rejection) and everything that is shown are compared with a model with lexical scopes; two "
        "cases are distinct when their sources differ")


def decl(x):
    return lambda n: (("decl", (x,), "int", n()),)


def bare(x):
    return lambda n: (("decl", (x,), "int", None),)


def assign(x):
    return lambda n: (g.put(x, n()),)


def add(x, y):
    return lambda n: (g.put(x, g.B("+", g.B("*", g.V(y), g.I(10)), n())),)


def show(x):
    return lambda n: (("mostra", g.V(x)),)


SE = ("se", 1, lambda n, b: (("se", g.TRUE, b, (), None),))
SENAO = ("senao", 2, lambda n, b, c: (("se", g.FALSE, b, (), c),))
PARA = {v: ("para " + v, 1, lambda n, b, v=v: (("para", v, g.I(0), g.I(2), None, b),)) for v in "xy"}
ESCOLHA = ("escolha", 2, lambda n, b, c: (("escolha", g.I(1), ((g.I(1), b),), c),))
IGUALA = ("iguala", 2, lambda n, b, c: (("expr", ("match", ("variant", "U", "A", (n(),)), ((("pcon", "U", "A", (("pvar", "x"),)), ("block", b, None)), (("pvar", "_"), ("block", c, None))))),))
IGUALA1 = ("iguala", 1, lambda n, b: (("expr", ("match", ("variant", "U", "A", (n(),)), ((("pcon", "U", "A", (("pvar", "x"),)), ("block", b, None)), (("pvar", "_"), ("block", (), None))))),))
SEIG = ("se iguala", 2, lambda n, b, c: (("seiguala", ("variant", "U", "A", (n(),)), ("pcon", "U", "A", (("pvar", "y"),)), b, c),))
ENQ = ("enquanto", 1, lambda n, b: (("enquanto", g.TRUE, b + (("quebra",),)),))
UNI = (("uniao", "U", (("A", ("int",)), ("B", ()))),)
TAIL = g.show(g.I(99))


def both(forest, pre=()):
    body = build(forest, Num())
    yield Packed("local", pre, (g.func("f", (), None, *body, *TAIL), g.do(g.call("f"))))
    yield Packed("global", (), pre + body + TAIL)


def trees_of(n, leaves, blocks, pre=()):
    def run():
        for k in range(1, n + 1):
            for f in forests(k, leaves, blocks):
                # a program where nothing is declared says nothing new
                yield from both(f, pre)
    return run


def with_param(n, leaves, blocks):
    def run():
        for k in range(1, n + 1):
            for f in forests(k, leaves, blocks):
                body = build(f, Num())
                yield Packed("params", (), (g.let("y", "int", g.I(70)), g.func("f", (("x", "int"),), None, *body, *g.show(g.V("x"), g.V("y"))), g.do(g.call("f", g.I(50))), g.do(g.call("f", g.I(60))), ("mostra", g.V("y"))))
    return run


KINDS = {
    "var": (g.let("n", "int", g.I(3)),),
    "texto": (g.let("n", "texto", g.T("abc")),),
    "vec": (g.let("n", ("vec", "int"), g.vec("int", g.I(4), g.I(5))),),
    "bare": (("decl", ("n",), "real", None),),
    "many": (("decl", ("m", "n"), "int", g.I(6)),),
    "func": (g.func("n", (("a", "int"),), "int", g.ret(g.B("+", g.V("a"), g.I(1)))),),
    "proc": (g.func("n", (), None, ("mostra", g.I(8))),),
    "registo": (("registo", "n", (("a", "int"),)),),
    "uniao": (("uniao", "n", (("a", ()), ("b", ("int",)))),),
    "alias": (("usa", "m.ama", "alias", "n"),),
    "item": (("usa", "m2.ama", "items", ("n",)),),
    "global": (("usa", "m2.ama", "global", None),),
    "record": (("registo", "Q", (("a", "int"),)), g.let("n", "Q", ("new", "Q", (("a", g.I(1)),)))),
    "para": None,
    "pattern": None,
    "param": None,
    "none": (),
}
USES = {
    "read": (("mostra", g.V("n")),),
    "assign": (g.put("n", g.I(7)),),
    "add": (g.put("n", g.I(7), "+="),),
    "call": (("mostra", g.call("n", g.I(7))),),
    "call0": (g.do(g.call("n")),),
    "stmt": (g.do(g.V("n")),),
    "type": (("decl", ("z",), "n", None),),
    "vectype": (g.let("z", ("vec", "n"), g.vec("n")), ("mostra", g.V("z"))),
    "new": (("mostra", g.get(("new", "n", (("a", g.I(2)),)), "a")),),
    "variant": (("decl", ("z",), "n", ("variant", "n", "a", None)),),
    "pattern": (("expr", ("match", ("variant", "n", "b", (g.I(2),)), ((("pcon", "n", "b", (("pvar", "q"),)), ("expr", g.V("q"))), (("pvar", "_"), ("expr", g.I(0)))))),),
    "index": (("mostra", g.idx(g.V("n"), 1)),),
    "field": (("mostra", g.get(g.V("n"), "a")),),
    "mcall": (("mostra", ("mcall", g.V("n"), "a", (g.I(1),))),),
    "decl": (g.let("n", "int", g.I(9)), ("mostra", g.V("n"))),
    "func": (g.func("n", (), None, ("mostra", g.I(1))),),
    "registo": (("registo", "n", (("z", "int"),)),),
    "uniao": (("uniao", "n", (("z", ()),)),),
    "method": (("met", "n", "mm", (), None, (("mostra", g.I(5)),)),),
    "cast": (("mostra", ("cast", g.I(1), "n")),),
    "para": (("para", "n", g.I(0), g.I(2), None, (("mostra", g.V("n")),)),),
    "fstr": (("mostra", ("fstr", ("<", g.V("n"), ">"))),),
    "alias": (("usa", "m.ama", "alias", "n"),),
    "self": (g.let("k", "int", g.I(1)), g.put("k", g.V("n")), ("mostra", g.V("k"))),
}
MODS = {"m.ama": (g.func("a", (("q", "int"),), "int", g.ret(g.V("q"))),), "m2.ama": (g.let("n", "int", g.I(33)),)}


def kinds():
    """Every kind of declaration of a name with every kind of use of it, from
    the same scope, an inner block, a function, before, after, and out of
    scope."""
    for kn, kd in KINDS.items():
        for un, us in USES.items():
            label = f"{kn} used as {un}"
            if kd is None:
                if kn == "para":
                    forms = [(("para", "n", g.I(0), g.I(2), None, us),), (("para", "n", g.I(0), g.I(2), None, g.show(g.V("n"))),) + us]
                elif kn == "param":
                    forms = [(g.func("f", (("n", "int"),), None, *us), g.do(g.call("f", g.I(2)))), (g.func("f", (("n", "int"),), None), g.do(g.call("f", g.I(2)))) + us]
                else:
                    m = lambda b: ("expr", ("match", ("variant", "U", "A", (g.I(2),)), ((("pcon", "U", "A", (("pvar", "n"),)), ("block", b, None)), (("pvar", "_"), ("block", (), None)))))
                    forms = [UNI + (m(us),), UNI + (m(()),) + us]
            else:
                forms = [
                    kd + us,
                    us + kd,
                    kd + (("se", g.TRUE, us, (), None),),
                    kd + (g.func("f", (), None, *us), g.do(g.call("f"))),
                    (g.func("f", (), None, *us),) + kd + (g.do(g.call("f")),),
                    (("se", g.TRUE, kd, (), None),) + us,
                    (("se", g.TRUE, kd + us, (), None),),
                    (g.func("f", (), None, *kd, *us), g.do(g.call("f"))),
                    (g.func("f", (), None, ("se", g.TRUE, kd, (), None), *us), g.do(g.call("f"))),
                    (g.func("f", (), None, *kd), g.do(g.call("f"))) + us,
                    kd + kd + us,
                ]
            for i, f in enumerate(forms):
                files = dict(MODS)
                files["main.ama"] = f + TAIL
                yield Case(f"{label} ({i})", files)


NAMES = ("int", "real", "texto", "bool", "indef", "tam", "vec", "anexa", "remova", "escreva", "leia", "txt_contem",
         "x", "_x", "x1", "é", "ção", "X", "Opcao", "valor", "tipo", "mat", "Mostra", "mostra1", "_", "entaoo", "fim_")
RESERVED = ("mostra", "e", "ou", "nao", "verdadeiro", "falso", "caso", "retorna", "produz", "se", "senao", "senaose", "escolha", "entao", "enquanto",
            "para", "faca", "de", "continua", "quebra", "usa", "como", "alvo", "registo", "iguala", "inc", "fim", "func", "met", "nulo", "vazio", "nativa", "uniao")
FORMS = ("{n}: int = 1", "func {n}()\nfim", "func f({n}: int)\nfim", "registo {n}\n  a: int\nfim", "registo R\n  {n}: int\nfim", "uniao {n}\n  A\nfim", "uniao R\n  {n}\nfim",
         "para {n} de 0..2 faca\nfim", "func f()\n  {n}: int = 1\nfim", "met int::{n}(alvo)\nfim", "usa \"m.ama\" => {n}", "usa \"m.ama\" => [{n}]")


def reserved():
    """A reserved word is not a name."""
    for n in RESERVED:
        for f in FORMS:
            if n == "alvo" and f.startswith("func f("):
                continue
            yield Text(n, {"main.ama": f.format(n=n) + "\n", "m.ama": "x: int = 1\n"}, ("reject",))


def names():
    """Each name as a variable, a parameter, a function, a record, a field, a method."""
    for n in NAMES:
        yield Case(n, (g.let(n, "int", g.I(1)), ("mostra", g.V(n)), g.put(n, g.I(2)), ("mostra", g.V(n))))
        yield Case(n, (g.func("f", (), None, g.let(n, "int", g.I(1)), ("mostra", g.V(n)), g.put(n, g.I(2)), ("mostra", g.V(n))), g.do(g.call("f"))))
        yield Case(n, (g.func("f", ((n, "int"),), None, ("mostra", g.V(n))), g.do(g.call("f", g.I(4)))))
        yield Case(n, (g.func(n, (), None, ("mostra", g.I(5))), g.do(g.call(n))))
        yield Case(n, (("registo", n, (("a", "int"),)), ("mostra", g.get(("new", n, (("a", g.I(2)),)), "a"))))
        yield Case(n, (("registo", "R", ((n, "int"),)), ("mostra", g.get(("new", "R", ((n, g.I(2)),)), n))))
        yield Case(n, (("uniao", n, (("A", ()),)), ("decl", ("v",), n, ("variant", n, "A", None)), g.show(g.I(1))[0]))
        yield Case(n, (("para", n, g.I(0), g.I(2), None, (("mostra", g.V(n)),)),))


PAIRS = (("n", "N"), ("nA", "na"), ("a", "á"), ("á", "à"), ("a1", "a01"), ("a1", "a2"), ("a_", "a"), ("_a", "a"), ("_a", "__a"), ("a_b", "ab"), ("a1b", "ab1"), ("a_1", "a1"), ("é", "É"), ("c", "ç"), ("lista", "listas"), ("a" * 40 + "x", "a" * 40 + "y"), ("l", "I"), ("o", "O"),
         ("x", "_x_"), ("x", "_r0_0_"), ("x", "_l0_"), ("x0", "x_0"), ("main", "Main"), ("e1", "E1"))


def renamed(node, names):
    """A tree with other names."""
    if isinstance(node, tuple):
        return tuple(renamed(x, names) for x in node)
    return names.get(node, node) if isinstance(node, str) else node


def alike(n, blocks):
    """Two names that are almost the same are two names."""
    def run():
        trees = [f for k in range(2, n + 1) for f in forests(k, LEAVES2, blocks)]
        # those in which both names are declared
        bodies = [b for b in (build(f, Num()) for f in trees) if all(any(w in repr(b) for w in (f"('decl', ('{x}',)", f"('para', '{x}'")) for x in "xy")]
        for x, y in PAIRS:
            names = {"x": x, "y": y}
            for b in bodies:
                body = renamed(b, names)
                yield Packed(f"{x} {y}", (), (g.func("f", (), None, *body, *TAIL), g.do(g.call("f"))))
                yield Packed(f"{x} {y}", (), body + TAIL)
                yield Packed(f"{x} {y}", (), (g.func("f", ((x, "int"), (y, "int")), None, ("se", g.TRUE, body, (), None), *g.show(g.V(x), g.V(y))), g.do(g.call("f", g.I(50), g.I(60))), g.do(g.call("f", g.I(70), g.I(80)))))
            for x, y in ((x, y), (y, x)):
                vx, vy, q = g.V(x), g.V(y), g.V("q")
                new = lambda t, *fs: ("new", t, fs)
                for st in (
                    (g.let(x, "int", g.I(1)), g.func("f", ((y, "int"),), "int", g.put(x, vy, "+="), g.put(y, g.I(9)), g.ret(g.B("+", vx, vy))), *g.show(g.call("f", g.I(5)), vx, g.call("f", g.I(6)), vx)),
                    (g.func(x, (("a", "int"),), "int", g.ret(g.B("+", g.V("a"), g.I(1)))), g.func(y, (("a", "int"),), "int", g.ret(g.B("*", g.V("a"), g.I(10)))), *g.show(g.call(x, g.I(2)), g.call(y, g.I(2)), g.call(x, g.call(y, g.I(3))))),
                    (g.func(x, (), "int", g.ret(g.I(4))), g.let(y, "int", g.I(5)), *g.show(g.call(x), vy)),
                    (("registo", "Q", ((x, "int"), (y, "int"))), g.let("q", "Q", new("Q", (x, g.I(1)), (y, g.I(2)))), *g.show(g.get(q, x), g.get(q, y)), g.put(g.get(q, x), g.I(7)), *g.show(g.get(q, x), g.get(q, y)), g.put(g.get(q, y), g.get(q, x), "+="), *g.show(g.get(q, x), g.get(q, y)), g.let("z", "Q", new("Q", (y, g.I(1)), (x, g.I(2)))), *g.show(g.get(g.V("z"), x), g.get(g.V("z"), y))),
                    (("registo", "Q", ((x, "int"),)), ("mostra", g.get(new("Q", (y, g.I(1))), x))), (("registo", "Q", ((x, "int"),)), ("mostra", g.get(new("Q", (x, g.I(1))), y))),
                    (("registo", x, (("a", "int"),)), ("registo", y, (("b", "texto"),)), *g.show(g.get(new(x, ("a", g.I(1))), "a"), g.get(new(y, ("b", g.T("s"))), "b"))),
                    (("registo", x, (("a", "int"),)), ("registo", y, (("a", "int"),)), g.let("q", x, new(y, ("a", g.I(1)))), ("mostra", g.I(1))),
                    (("uniao", "W", ((x, ("int",)), (y, ("int",)), ("Z", ()))), g.func("f", (("w", "W"),), "int", g.ret(("match", g.V("w"), ((("pcon", "W", y, (("pvar", "k"),)), ("expr", g.V("k"))), (("pcon", "W", x, (("pvar", "k"),)), ("expr", g.B("*", g.V("k"), g.I(100)))), (("pvar", "_"), ("expr", g.I(-1))))))),
                     *(("mostra", g.call("f", v)) for v in (("variant", "W", x, (g.I(1),)), ("variant", "W", y, (g.I(2),)), ("variant", "W", "Z", None)))),
                    (("uniao", "W", ((x, ("int",)), ("Z", ()))), g.let("w", "W", ("variant", "W", y, (g.I(1),))), ("mostra", g.I(1))),
                    (("met", "int", x, (), "int", (g.ret(g.B("+", ("alvo",), g.I(1))),)), ("met", "int", y, (), "int", (g.ret(g.B("*", ("alvo",), g.I(10))),)), *g.show(("mcall", g.I(3), x, ()), ("mcall", g.I(3), y, ()))),
                    (("uniao", "W", (("M", ("int", "int")),)), ("expr", ("match", ("variant", "W", "M", (g.I(3), g.I(4))), ((("pcon", "W", "M", (("pvar", x), ("pvar", y))), ("block", g.show(vx, vy), None)),)))),
                    (("para", x, g.I(0), g.I(2), None, (("para", y, g.I(5), g.I(7), None, g.show(vx, vy)),)),),
                    (g.let(x, "int", g.I(1)), *g.show(vy)), (g.func("f", ((x, "int"),), None, g.put(y, g.I(1))), ("mostra", g.I(1))), (g.func(x, (), None), g.do(g.call(y))),
                    (("usa", "m.ama", "items", (x, y)), *g.show(vx, vy)), (("usa", "m.ama", "items", (x,)), *g.show(vx, vy)), (("usa", "m.ama", "alias", x), ("usa", "m.ama", "alias", y), *g.show(g.get(vx, x), g.get(vy, y))), (("usa", "m.ama", "items", (x,)), g.let(y, "int", g.I(3)), *g.show(vx, vy)),
                ):
                    yield Case(f"{x} {y}", {"main.ama": st, **({"m.ama": (g.let(x, "int", g.I(11)), g.let(y, "int", g.I(22)))} if st[0][0] == "usa" else {})})
    return run


def judge_alike(worker, cases):
    packed, whole = [c for c in cases if isinstance(c, Packed)], [c for c in cases if not isinstance(c, Packed)]
    return list(judge_packed(worker, packed) if packed else ()) + list(judge_programs(worker, whole) if whole else ())


def many():
    """Functions and blocks with many variables: each keeps its own value."""
    for n in (1, 2, 3, 8, 50, 254, 255, 256, 257, 300):
        ds = tuple(g.let(f"v{i}", "int", g.I(i)) for i in range(n))
        sh = tuple(("mostra", g.V(f"v{i}")) for i in sorted({0, 1, n // 2, n - 2, n - 1, min(n - 1, 127), min(n - 1, 128), min(n - 1, 254), min(n - 1, 255)}) if 0 <= i < n)
        ch = tuple(g.put(f"v{i}", g.B("+", g.V(f"v{i}"), g.I(1))) for i in range(n))
        yield Case(f"{n} locals", (g.func("f", (), None, *ds, *sh, *ch, *sh), g.do(g.call("f"))))
        yield Case(f"{n} globals", ds + sh + ch + sh)
        yield Case(f"{n} globals from a function", ds + (g.func("f", (), None, *ch), g.do(g.call("f"))) + sh)
        blocks = tuple(("se", g.TRUE, (g.let(f"w{i}", "int", g.I(i)), ("mostra", g.V(f"w{i}"))), (), None) for i in range(n))
        yield Case(f"{n} blocks", (g.func("f", (), None, g.let("a", "int", g.I(7)), *blocks, ("mostra", g.V("a"))), g.do(g.call("f"))))
        yield Case(f"{n} blocks", (g.let("a", "int", g.I(7)),) + blocks + (("mostra", g.V("a")),))
        # the variables of blocks of the entry code, with temporaries, and functions before, between and after
        mix = ("mostra", g.vec("int", g.V("v0"), g.B("+", g.V(f"v{n - 1}"), g.B("*", g.V("v0"), g.V(f"v{n - 1}"))), g.call("f", g.V(f"v{n // 2}")), g.V(f"v{n // 2}")))
        f = g.func("f", (("x", "int"),), "int", g.let("y", "int", g.B("*", g.V("x"), g.I(2))), g.ret(g.B("+", g.V("y"), g.I(1))))
        h = g.func("h", (), None, *ds, *sh)
        after = g.func("z", (), "int", g.let("q", "int", g.I(4)), g.ret(g.V("q")))
        use = ("mostra", g.call("z"))
        for bn, wrap in (("se", lambda b: (("se", g.TRUE, b, (), None),)), ("para", lambda b: (("para", "k", g.I(0), g.I(2), None, b + (("mostra", g.V("k")),)),)),
                         ("iguala", lambda b: (g.do(("match", g.I(5), ((("pint", 1), ("block", (), None)), (("pvar", "k"), ("block", b + (("mostra", g.V("k")),), None))))),))):
            for order, body in (("before", (f,) + wrap(ds + sh + (mix,) + sh)), ("after", (f,) + wrap(ds + sh + (mix,) + sh) + (after, use)), ("both", (f, h, g.do(g.call("h"))) + wrap(ds + (g.do(g.call("h")),) + sh + (mix,) + sh) + (after, use)),
                                ("twice", (f,) + wrap(ds + (mix,) + sh) + (after, use) + wrap(ds[: n // 2 + 1] + sh[:1] + (use,) + sh[:1]))):
                yield Case(f"{n} in a block, functions {order}, {bn}", body)
                if bn == "se":
                    yield Case(f"{n} in a block, functions {order}, module", {"main.ama": (("usa", "a.ama", "alias", "m"),) + body, "a.ama": body})
        if n <= 50:
            nest = (("mostra", g.V("a")),)
            for i in range(n):
                nest = (g.let("x", "int", g.I(i)), ("se", g.TRUE, nest, (), None), ("mostra", g.V("x")))
            yield Case(f"{n} nested", (g.func("f", (), None, g.let("a", "int", g.I(-1)), *nest), g.do(g.call("f"))))
            yield Case(f"{n} nested", (g.let("a", "int", g.I(-1)),) + nest)


LEAVES1 = (decl("x"), assign("x"), show("x"))
LEAVES2 = (decl("x"), decl("y"), assign("x"), add("y", "x"), show("x"), show("y"))


NOT_VALUES = ["f", "vazia", "tam", "escreva", "vec", "P", "U", "int", "texto", "m", "m.f", "m.P", "m.U", "p.um", "(1).dobro", "U::B", "(f)", "m.n", "f.x", "P.n", "U.A", "int::dobro", "P::um"]
VALUE_PLACES = [
    "mostra {e}", "x: int = {e}", "x: indef = {e}", "x: P = {e}", "x: int? = {e}", "y = {e}", "y += {e}", "z = {e}", "v[{e}] = 1", "mostra v[{e}]", "v[0] = {e}", "p.n = {e}", "p.n += {e}", "f({e})", "g({e})", "h({e})", "mostra 1 + f({e})",
    "p = P(n: {e})", "u = U::B({e})", "mostra [int: {e}]", "mostra [indef: {e}]", "v = vec(int, {e})", "mostra tam({e})", "anexa(v, {e})", "anexa({e}, 1)", "remova(v, {e})", "escreva({e})", "escrevaln({e})", "mostra {e} + 1",
    "mostra 1 + {e}", "mostra {e} + {e}", "mostra nao {e}", "mostra -{e}", "mostra ({e})", "mostra {e} :> int", "mostra {e} :> indef", "mostra {e} == {e}", "mostra {e} == nulo", "mostra {e} == 1", "mostra {e} e verdadeiro",
    "se {e} entao\n  y = 1\nfim", "enquanto {e} faca\n  y = 1\nfim", "para i de {e}..3 faca\n  y = 1\nfim", "para i de 0..{e} faca\n  y = 1\nfim", "para i de 0..3 inc {e} faca\n  y = 1\nfim",
    "escolha {e}:\n  caso 1:\n    y = 1\nfim", "escolha 1:\n  caso {e}:\n    y = 1\nfim", "iguala {e}\n  _ => 1\nfim", "mostra iguala 1\n  _ => {e}\nfim", "mostra iguala 1\n  _ => faca\n    produz {e}\n  fim\nfim",
    "func k(): int\n  retorna {e}\nfim", "func k()\n  {e}\nfim", "mostra f'a{{e}}'", "mostra f'{{e}}{1}'", "mostra {e}.n", "mostra {e}[0]", "{e}[0] = 1", "{e}.n = 1", "{e} = 1", "{e} += 1", "mostra m.g({e})", "mostra (1).soma({e})", "{e}",
    "mostra o.valor_ou({e})", "mostra {e}.valor", "mostra {e}.valor_ou(1)", "o = {e}", "se iguala {e} => k entao\n  y = 1\nfim", "se {e} == 1 entao\n  y = 1\nsenao\n  y = 2\nfim",
]


def not_values():
    """What a name denotes is a value only if it is a variable: everything else is rejected where a value is needed."""
    mod = "func f(a: int): int\n  retorna a\nfim\nfunc g(a: int): int\n  retorna a\nfim\nregisto P\n  n: int\nfim\nuniao U\n  A,\n  B(int)\nfim\n"
    head = ("usa 'm.ama' => m\nfunc f(a: int): int\n  retorna a\nfim\nfunc g(a: indef)\nfim\nfunc h(a: int?)\nfim\nfunc vazia()\nfim\nregisto P\n  n: int\nfim\nuniao U\n  A,\n  B(int)\nfim\n"
            "met P::um(alvo): int\n  retorna 1\nfim\nmet int::dobro(alvo): int\n  retorna alvo * 2\nfim\nmet int::soma(alvo, b: int): int\n  retorna alvo + b\nfim\n"
            "y: int\nz: indef = 1\nv: [int] = [int: 1]\np: P = P(n: 1)\nu: U = U::A\no: int? = 1\n")
    first = head.count("\n") + 1
    for e, place in itertools.product(NOT_VALUES, VALUE_PLACES):
        stmt = place.replace("{e}", e) if "f'" not in place else place.replace("{{e}}", "{" + e + "}")
        last = first + stmt.count("\n")
        yield Text(f"{e} in {place!r}", {"main.ama": head + stmt + "\nmostra 1\n", "m.ama": mod}, ("reject", "main.ama", (first, last)))

# the names of type parameters, inside and outside of what declares them
TDECLS = {"registo G[T]": "registo G[T]\n h: T?\nfim\n", "uniao V[T]": "uniao V[T]\n E,\n F(T)\nfim\n", "met[T] G[T]": "registo G[S]\n h: S?\nfim\nmet[T] G[T]::m(alvo, x: T): T\n retorna x\nfim\n", "two": "registo G[S]\n h: S?\nfim\nregisto Q[A, T]\n a: A?\n t: T?\nfim\n",
          "met with two": "registo G[S]\n h: S?\nfim\nregisto Q[A, B]\n a: A?\n t: B?\nfim\nmet[S, T] Q[S, T]::k(alvo, s: S, t: T?): T?\n r: T? = t\n retorna r\nfim\n"}
TUSES = {"variable": "z: T\n", "variable of an optional": "z: T? = nulo\n", "vector": "z: [T]\n", "argument": "z: G[T]? = nulo\n", "parameter": "func z(a: T)\nfim\n", "result": "func z(): T?\n retorna nulo\nfim\n", "field": "registo Z\n a: T?\nfim\n", "field of another": "registo Z[U]\n a: T?\n b: U?\nfim\n", "variant": "uniao Z\n A,\n B(T)\nfim\n", "variant of another": "uniao Z[U]\n A(U),\n B(T)\nfim\n",
         "target": "met T::z(alvo)\nfim\n", "argument of the target": "met G[T]::z(alvo)\nfim\n", "parameter of a method": "met int::z(alvo, a: T)\nfim\n", "result of a method": "met int::z(alvo): T?\n retorna nulo\nfim\n", "parameter of another": "met[U] G[U]::z(alvo, a: T)\nfim\n", "result of another": "met[U] G[U]::z(alvo, a: U): T?\n retorna nulo\nfim\n", "variable of another": "met[U] G[U]::z(alvo, a: U)\n k: T? = nulo\nfim\n", "elements": "mostra [T:]\n",
         "sized": "mostra vec(T, 1)\n", "converted": "mostra 1 :> T\n", "local": "func z()\n a: T? = nulo\nfim\n", "converted in a function": "func z()\n mostra 1 :> T\nfim\n"}


def type_names():
    for d, dt in TDECLS.items():
        yield Text(f"{d} alone", dt + "mostra 1\n", ("run", "1\n", None))
        for u, ut in TUSES.items():
            n = dt.count("\n")
            lines = (n + 1, n + ut.count("\n"))
            yield Text(f"{u} after {d}", dt + ut, ("reject", "main.ama", lines))
            yield Text(f"{u} before {d}", ut + dt, ("reject", "main.ama", (1, ut.count("\n"))))
            if u not in ("target", "argument of the target", "parameter of a method", "result of a method", "parameter of another", "result of another", "variable of another"):
                yield Text(f"{u} in a function after {d}", dt + "func w()\n" + ut + "fim\n", ("reject", "main.ama", (n + 2, n + 1 + ut.count("\n"))))
    ok = {"parameter": "met[T] G[T]::m(alvo, x: T, y: T?)\nfim\n", "result": "met[T] G[T]::m(alvo, x: T): T\n retorna x\nfim\n", "variable": "met[T] G[T]::m(alvo, x: T): T\n y: T = x\n retorna y\nfim\n", "vector": "met[T] G[T]::m(alvo, x: T): [T]\n retorna [T: x, x]\nfim\n", "block": "met[T] G[T]::m(alvo, x: T): T?\n se verdadeiro entao\n  y: T? = x\n  retorna y\n fim\n retorna alvo.h\nfim\n",
          "other names": "met[U] G[U]::m(alvo, x: U): U\n retorna x\nfim\n", "same name again": "met[T] G[T]::m(alvo, x: T): T\n retorna x\nfim\nmet[T] G[T]::k(alvo, x: T): T\n retorna x\nfim\nregisto J[T]\n a: T?\n b: [T]\nfim\nuniao L[T]\n A(T),\n B([T])\nfim\n"}
    for k, t in ok.items():
        yield Text(f"inside: {k}", "registo G[T]\n h: T?\nfim\n" + t + "mostra 1\n", ("run", "1\n", None))


NAMED = {"int": True, "texto": True, "indef": True, "P": True, "U": True, "m.Z": True, "m.Y": True, "T": False, "x": False, "f": False, "m": False, "m.z": False, "m.f": False, "m.N": False, "N": False, "f.Z": False, "P.Z": False, "fim_": False}
MADE = {"{}": True, "[{}]": True, "{}?": True, "G[{}]": True, "m.W[{}]": True, "D[{}, int]": True, "D[int, {}]": True, "P[{}]": False, "U[{}]": False, "int[{}]": False, "N[{}]": False, "m.Z[{}]": False, "m.N[{}]": False, "G[{}, int]": False, "D[{}]": False, "x[{}]": False, "[[{}]?]": True, "G[G[{}]?]": True}
TPLACES = {"parameter": "func z(a: {})\nfim\n", "second parameter": "func z(a: int, b: {})\nfim\n", "result": "func z(): {}\n retorna z()\nfim\n", "field": "registo Z\n a: int\n b: {}\nfim\n", "field of a generic": "registo Z[A]\n a: A\n b: {}\nfim\n", "variant": "uniao Z\n A,\n B(int, {})\nfim\n", "parameter of a method": "met int::z(alvo, a: {})\nfim\n", "result of a method": "func k(): {}\n retorna k()\nfim\nmet P::z(alvo): {}\n retorna k()\nfim\n",
           "variable": "z: {}? = nulo\n", "variables": "func z()\n a: [{}] = [{}:]\nfim\n", "elements": "mostra tam([[{}]:])\n", "parameter of a generic method": "met[A] G[A]::z(alvo, b: A, a: {})\nfim\n"}
TMOD = "z: int = 1\nfunc f()\nfim\nregisto Z\n z: int\nfim\nuniao Y\n A\nfim\nregisto W[T]\n w: T?\nfim\n"
TPRE = 'usa "m.ama" => m\nregisto P\n n: int\nfim\nuniao U\n A\nfim\nregisto G[T]\n g: T?\nfim\nregisto D[A, B]\n a: A?\n b: B?\nfim\nx: int = 1\nfunc f()\nfim\n'


def named_types(deep):
    def gen():
        n = TPRE.count("\n")
        for pl, pt in TPLACES.items():
            for nm, ok0 in NAMED.items():
                for a, ok1 in MADE.items():
                    for b, ok2 in MADE.items() if deep or pl == "parameter" else (("{}", True),):
                        t = b.replace("{}", a.replace("{}", nm))
                        if "??" in pt.replace("{}", t):
                            continue
                        src = TPRE + pt.replace("{}", t)
                        exp = ("run", "0\n" if pl == "elements" else "", None) if ok0 and ok1 and ok2 else ("reject", "main.ama", (n + 1, n + pt.count("\n")))
                        yield Text(f"{pl}: {t}", {"main.ama": src, "m.ama": TMOD}, exp)
    return gen



def own_value():
    """A declaration whose value has the variable itself, or another one of the same name, in every place of an expression."""
    x, one = g.V("x"), g.I(1)
    pre = (("registo", "P", (("n", "int"),)), ("uniao", "U", (("A", ("int",)), ("B", ()))), g.func("id", (("a", "int"),), "int", g.ret(g.V("a"))), ("met", "int", "mm", (("a", "int"),), "int", (g.ret(g.V("a")),)))
    arm = lambda b: ("match", one, ((("pint", 1), b), (("pvar", "_"), ("expr", g.I(2)))))
    uses = {
        "itself": x, "operand": g.B("+", one, x), "left": g.B("*", x, g.I(2)), "unary": ("un", "-", x), "parentheses": ("par", x), "argument": g.call("id", x), "inner argument": g.call("id", g.call("id", x)), "method target": ("mcall", ("par", x), "mm", (one,)), "method argument": ("mcall", ("par", one), "mm", (x,)),
        "element": g.idx(g.vec("int", one, x), 0), "index": ("idx", g.vec("int", one, one), x), "field": g.get(("new", "P", (("n", x),)), "n"), "size": g.call("tam", ("vec", "int", (x,))), "f-string": g.call("tam", ("fstr", ("a", x))), "cast": ("cast", ("cast", x, "real"), "int"), "valor_ou": ("mcall", ("par", ("cast", one, ("opt", "int"))), "valor_ou", (x,)),
        "comparison": g.call("tam", ("fstr", (g.B("==", x, one),))), "match": ("match", x, ((("pint", 1), ("expr", g.I(5))), (("pvar", "_"), ("expr", g.I(2))))), "variant": ("match", ("variant", "U", "A", (x,)), ((("pcon", "U", "A", (("pvar", "q"),)), ("expr", g.V("q"))), (("pvar", "_"), ("expr", g.I(2))))),
        "arm": arm(("expr", x)), "produz": arm(("block", (), x)), "mostra in an arm": arm(("block", (("mostra", x),), one)), "declaration in an arm": arm(("block", (g.let("k", "int", x),), g.V("k"))), "assignment in an arm": arm(("block", (g.put("x", one),), one)), "second of the arms": ("match", one, ((("pint", 2), ("expr", one)), (("pvar", "_"), ("expr", x)))),
        "compound in an arm": arm(("block", (g.put("x", one, "+="),), one)), "se in an arm": arm(("block", (("se", g.B("==", x, one), (), (), None),), one)), "inside of se": arm(("block", (("se", g.TRUE, (("mostra", x),), (), None),), one)), "inside of senao": arm(("block", (("se", g.TRUE, (), (), (("mostra", x),)),), one)),
        "para in an arm": arm(("block", (("para", "i", g.I(0), x, None, ()),), one)), "inside of para": arm(("block", (("para", "i", g.I(0), one, None, (("mostra", x),)),), one)), "enquanto": arm(("block", (("enquanto", g.B("<", x, g.I(0)), ()),), one)), "inside of enquanto": arm(("block", (("enquanto", g.TRUE, (("mostra", x), ("quebra",))),), one)),
        "escolha": arm(("block", (("escolha", x, ((one, ()),), None),), one)), "caso": arm(("block", (("escolha", one, ((x, ()),), None),), one)), "inside of caso": arm(("block", (("escolha", one, ((one, (("mostra", x),)),), None),), one)), "arm in an arm": arm(("block", (), arm(("expr", x)))), "block in a block": arm(("block", (), arm(("block", (("mostra", x),), one)))),
        "shadowed by a pattern": ("match", g.I(4), ((("pvar", "x"), ("expr", x)),)), "shadowed by a nested pattern": ("match", ("variant", "U", "A", (g.I(4),)), ((("pcon", "U", "A", (("pvar", "x"),)), ("expr", x)), (("pvar", "_"), ("expr", one)))),
        "shadowed by a declaration": arm(("block", (g.let("x", "int", g.I(6)),), x)), "before its shadow": arm(("block", (("mostra", x), g.let("x", "int", g.I(6))), x)), "shadowed by para": arm(("block", (("para", "x", g.I(0), g.I(2), None, (("mostra", x),)),), one)), "after para": arm(("block", (("para", "x", g.I(0), g.I(2), None, (("mostra", x),)),), x)),
        "other arm": ("match", one, ((("pint", 2), ("expr", x)), (("pvar", "x"), ("expr", x)))), "text": g.call("tam", g.T("x")),
    }
    for label, e in uses.items():
        d = (g.let("x", "int", e), ("mostra", x))
        y = (g.let("x", "int", g.I(3)),)
        yield Packed("own value: " + label, (), pre + d)
        yield Packed("own value: " + label, (), pre + (g.func("f", (), None, *d), g.do(g.call("f"))))
        yield Packed("own value: " + label, (), pre + y + (g.func("f", (), None, *d), g.do(g.call("f")), ("mostra", x)))
        yield Packed("own value: " + label, (), pre + y + (("se", g.TRUE, d, (), None), ("mostra", x)))
        yield Packed("own value: " + label, (), pre + y + (("para", "i", g.I(0), g.I(2), None, d), ("mostra", x)))
        yield Packed("own value: " + label, (), pre + (g.func("f", (("x", "int"),), None, ("se", g.TRUE, d, (), None), ("mostra", x)), g.do(g.call("f", one))))
        yield Packed("own value: " + label, (), pre + y + (("expr", ("match", one, ((("pvar", "_"), ("block", d, None)),))), ("mostra", x)))
        # a value of the variable that is assigned is that of before
        yield Packed("own value: " + label, (), pre + y + (g.put("x", e), ("mostra", x)))
        yield Packed("own value: " + label, (), pre + (g.func("f", (("x", "int"),), None, g.put("x", e), ("mostra", x)), g.do(g.call("f", one))))


def spaces(tier):
    q = tier == "quick"
    yield Space("one name", f"every tree of up to {4 if q else 5} of 3 statements on one name and {3 if q else 4} blocks", trees_of(4 if q else 5, LEAVES1, (SE, PARA["x"], IGUALA1) if q else (SE, SENAO, PARA["x"], IGUALA), UNI), judge_packed, 200)
    yield Space("two names", f"every tree of up to {3 if q else 4} of 6 statements on two names and 7 blocks", trees_of(3 if q else 4, LEAVES2, (SE, SENAO, PARA["x"], PARA["y"], ESCOLHA, SEIG, ENQ), UNI), judge_packed, 200)
    yield Space("initial values", "every tree of up to 4 of the statements bare declaration, assignment and reading, in 2 blocks", trees_of(4, (bare("x"), assign("x"), show("x")), (SE, PARA["y"])), judge_packed, 200)
    yield Space("parameters", "every tree of up to 3 statements in a function with a parameter that is called twice", with_param(3, LEAVES2, (SE, PARA["x"], PARA["y"])), judge_packed, 200)
    yield Space("kinds", f"{len(KINDS)} kinds of declaration, {len(USES)} kinds of use, up to 11 relative positions", kinds, judge_programs, 60)
    yield Space("names", f"{len(NAMES)} names as every kind of declaration", names, judge_programs, 30)
    yield Space("reserved words", f"{len(RESERVED)} words in {len(FORMS)} declarations", reserved, judge_texts, 40)
    yield Space("what is not a value", f"{len(NOT_VALUES)} names of functions, types, modules, methods and variants in {len(VALUE_PLACES)} places that need a value", not_values, judge_texts, 40)
    yield Space("type parameters", f"{len(TUSES)} uses of the name of a type parameter before and after {len(TDECLS)} declarations, and in a function; 7 uses inside", type_names, judge_texts, 10)
    yield Space("names of types", f"{len(NAMED)} names of types and of other things, in {len(MADE)} forms of types ({'two in each other for a parameter' if q else 'and each of them in each other'}), in {len(TPLACES)} places", named_types(not q), judge_texts, 40)
    yield Space("own value", "a declaration and an assignment whose value has the variable, or another of its name, in 46 places of an expression, in 9 places of a program", own_value, judge_packed, 40)
    yield Space("names that look alike", f"every tree of 2 to {3 if q else 4} of the statements on two names and {2 if q else 1} blocks in which both are declared, as 3 bodies, and 21 pairs of declarations, with {len(PAIRS)} pairs of names that are almost the same", alike(3 if q else 4, (SE, PARA["x"]) if q else (SE,)), judge_alike, 100)
    yield Space("many variables", "1 to 300 variables and blocks", many, judge_programs, 3)
