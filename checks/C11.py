"""C11: vectors behave as lists shared by reference."""
from mc import gen as g
from mc.harness import Packed, Space, histories, judge_packed, judge_programs
from mc.modular import modular

PROP = "C11"
LEVEL = "model_checking"
RULE = ("every sequence of the stated number of operations on vectors, from each starting state, is replayed on the real "
        "compiler and VM and the whole state is compared with a list model after every step; a state is what is shown, "
        "a transition a pair of states and an operation")

P2 = (
    g.func("muda", (("x", ("vec", "int")), ("k", "int")), None, g.put(g.idx(g.V("x"), 0), g.V("k"))),
    g.func("cresce", (("x", ("vec", "int")), ("k", "int")), ("vec", "int"), g.do(g.call("anexa", g.V("x"), g.V("k"))), g.ret(g.V("x"))),
    g.func("novo", (("k", "int"),), ("vec", "int"), g.ret(g.vec("int", g.V("k"), g.B("+", g.V("k"), g.I(1))))),
)
VI = ("vec", "int")
VVI = ("vec", VI)

FLAT_OPS = (
    ("a=b", (g.put("a", g.V("b")),)),
    ("anexa a 7", (g.do(g.call("anexa", g.V("a"), g.I(7))),)),
    ("anexa b tam(a)", (g.do(g.call("anexa", g.V("b"), g.call("tam", g.V("a")))),)),
    ("remova a 0", (("mostra", g.call("remova", g.V("a"), g.I(0))),)),
    ("remova b last", (g.do(g.call("remova", g.V("b"), g.B("-", g.call("tam", g.V("b")), g.I(1)))),)),
    ("a[0]=9", (g.put(g.idx(g.V("a"), 0), g.I(9)),)),
    ("b[1]=a[0]", (g.put(g.idx(g.V("b"), 1), g.idx(g.V("a"), 0)),)),
    ("a[1]+=5", (g.put(g.idx(g.V("a"), 1), g.I(5), "+="),)),
    ("muda(b)", (g.do(g.call("muda", g.V("b"), g.I(4))),)),
    ("b=cresce(a)", (g.put("b", g.call("cresce", g.V("a"), g.I(3))),)),
    ("a=novo", (g.put("a", g.call("novo", g.I(20))),)),
    ("b=[]", (g.put("b", g.vec("int")),)),
    ("a=vec 2", (g.put("a", ("vec", "int", (g.I(2),))),)),
)
NEST_OPS = (
    ("m[0]=a", (g.put(g.idx(g.V("m"), 0), g.V("a")),)),
    ("m[1]=m[0]", (g.put(g.idx(g.V("m"), 1), g.idx(g.V("m"), 0)),)),
    ("m[0][0]=8", (g.put(g.idx(g.V("m"), 0, 0), g.I(8)),)),
    ("m[1][1]*=2", (g.put(g.idx(g.V("m"), 1, 1), g.I(2), "*="),)),
    ("a=m[1]", (g.put("a", g.idx(g.V("m"), 1)),)),
    ("anexa m[0] 6", (g.do(g.call("anexa", g.idx(g.V("m"), 0), g.I(6))),)),
    ("anexa m a", (g.do(g.call("anexa", g.V("m"), g.V("a"))),)),
    ("a=remova m 0", (g.put("a", g.call("remova", g.V("m"), g.I(0))),)),
    ("m=vec 2 2", (g.put("m", ("vec", "int", (g.I(2), g.I(2)))),)),
    ("a[0]=m[0][1]", (g.put(g.idx(g.V("a"), 0), g.idx(g.V("m"), 0, 1)),)),
    ("muda(m[1])", (g.do(g.call("muda", g.idx(g.V("m"), 1), g.I(5))),)),
    ("m[0]=cresce(m[1])", (g.put(g.idx(g.V("m"), 0), g.call("cresce", g.idx(g.V("m"), 1), g.I(1))),)),
)
FLAT_SETUPS = (
    (g.let("a", VI, g.vec("int", g.I(1), g.I(2))), g.let("b", VI, g.vec("int", g.I(3), g.I(4)))),
    (g.let("a", VI, g.vec("int")), g.let("b", VI, g.V("a"))),
)
NEST_SETUPS = (
    (g.let("a", VI, g.vec("int", g.I(1), g.I(2))), g.let("m", VVI, g.vec(VI, g.vec("int", g.I(3), g.I(4)), g.V("a")))),
    (g.let("a", VI, g.vec("int", g.I(0), g.I(0))), g.let("m", VVI, ("vec", "int", (g.I(2), g.I(2))))),
)
FLAT_SHOW = g.show(g.V("a"), g.V("b"), g.B("+", g.B("*", g.call("tam", g.V("a")), g.I(10)), g.call("tam", g.V("b"))))
NEST_SHOW = g.show(g.V("a"), g.V("m"))


def types():
    """Elements of every type, in vectors of 0-3 elements, read and stored by
    every index from -1 to 3, whole and nested."""
    elems = {
        "int": (g.I(1), g.I(2), g.I(3)), "real": (g.I(1), g.R("2.5"), g.I(-3)), "bool": (g.TRUE, g.FALSE, g.TRUE),
        "texto": (g.T("a"), g.T(""), g.T("ção")), ("opt", "int"): (g.NULO, g.I(4), g.NULO), "P": tuple(("new", "P", (("n", g.I(k)),)) for k in (1, 2, 3)),
        "U": (("variant", "U", "A", None), ("variant", "U", "B", (g.I(5),)), ("variant", "U", "A", None)),
        ("vec", "int"): (g.vec("int"), g.vec("int", g.I(1)), g.vec("int", g.I(2), g.I(3))), "indef": (g.I(1), g.T("x"), g.R("0.5")),
    }
    pre = (("registo", "P", (("n", "int"),)), ("uniao", "U", (("A", ()), ("B", ("int",)))))
    for t, es in elems.items():
        for n in range(4):
            decl = g.let("v", ("vec", t), g.vec(t, *es[:n]))
            for local in (False, True):
                for i in range(-1, 4):
                    for st in (
                        (("mostra", g.idx(g.V("v"), g.I(i))),),
                        (g.put(g.idx(g.V("v"), g.I(i)), es[0]), ("mostra", g.V("v"))),
                        (("mostra", g.call("remova", g.V("v"), g.I(i))), ("mostra", g.V("v"))),
                        (g.do(g.call("remova", g.V("v"), g.I(i))), g.do(g.call("anexa", g.V("v"), es[2])), ("mostra", g.V("v"))),
                        (g.put(g.idx(g.V("v"), g.I(i)), g.idx(g.V("v"), 0)), ("mostra", g.V("v"))),
                    ):
                        body = (decl, ("mostra", g.V("v")), ("mostra", g.call("tam", g.V("v")))) + st
                        if local:
                            body = (g.func("f", (), None, *body), g.do(g.call("f")))
                        yield Packed(str(t), (), pre + body)


FAR = (2**8, 2**16, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 2**32, 2**32 + 1, 2**48, 2**53, 2**53 + 1, 2**62, 2**63 - 1)


def far():
    """Indices far out of the vector, which no narrower integer may hold."""
    for n in (0, 1, 2, 3):
        for i in FAR + tuple(-k for k in FAR) + (g.INT_MIN,):
            for e in (g.I(i), g.V("i")):
                v = g.V("v")
                for st in (
                    (("mostra", g.idx(v, e)),), (g.put(g.idx(v, e), g.I(5)),), (g.put(g.idx(v, e), g.I(5), "+="),), (("mostra", g.call("remova", v, e)),), (g.put(g.idx(g.V("m"), e, g.I(0)), g.I(5)),), (g.put(g.idx(g.V("m"), g.I(0), e), g.I(5), "*="),),
                    (("mostra", g.idx(g.V("m"), g.I(0), e)),),
                ):
                    yield Packed("far", (), (g.let("i", "int", g.I(i)), g.let("v", VI, g.vec("int", *[g.I(10 + k) for k in range(n)])), g.let("m", ("vec", VI), g.vec(VI, v))) + st + (("mostra", v), ("mostra", g.V("m"))))


def vecs():
    """vec() with 1-3 dimensions of -1 to 3: every element is independent."""
    import itertools

    for t, x in (("int", g.I(7)), ("real", g.I(7)), ("bool", g.TRUE), ("texto", g.T("t"))):
        for n in (1, 2, 3):
            for dims in itertools.product((-1, 0, 1, 2, 3) if n < 3 else (0, 1, 2), repeat=n):
                v = g.let("v", None, None)
                ty = t
                for _ in range(n):
                    ty = ("vec", ty)
                base = (("decl", ("v",), ty, ("vec", t, tuple(g.I(d) for d in dims))), ("mostra", g.V("v")))
                yield Packed("vec", (), base)
                for at in itertools.product(*[range(max(d, 0)) for d in dims]):
                    yield Packed("vec", (), base + (g.put(g.idx(g.V("v"), *at), x), ("mostra", g.V("v"))))
                if n > 1 and min(dims) > 0:
                    yield Packed("vec", (), base + (g.do(g.call("anexa", g.idx(g.V("v"), 0), g.idx(g.V("v"), 0, 0))) if n == 2 else ("mostra", g.call("tam", g.idx(g.V("v"), 0))), ("mostra", g.V("v"))))


def long_vectors():
    """Every pair of operations on vectors of up to 1000 elements, all different, and on an alias of them."""
    import itertools

    v, w = g.V("v"), g.V("w")
    for n in LONG:
        at = sorted({0, 1, n // 2, n - 2, n - 1, n} & set(range(n + 1)))
        ops = [(g.do(g.call("anexa", w, g.I(-1))),), (g.do(g.call("anexa", v, g.call("remova", v, g.I(0)))),), (("para", "i", g.I(0), g.I(3), None, (g.do(g.call("anexa", v, g.B("-", g.I(-5), g.V("i")))),)),)]
        for i in at:
            ops += [(("mostra", g.call("remova", v, g.I(i))),)]
            if i in (0, n // 2, n - 1):
                ops += [(g.put(g.idx(v, i), g.I(-7)),), (g.put(g.idx(w, i), g.I(2), "*="), ("mostra", g.idx(v, i)))]
        for a, b in itertools.product(ops, repeat=2):
            yield Packed("long vector", (), (g.let("v", VI, g.vec("int")), ("para", "k", g.I(0), g.I(n), None, (g.do(g.call("anexa", v, g.B("*", g.V("k"), g.I(3)))),)), g.let("w", VI, v)) + a + (("mostra", g.call("tam", w)),) + b + (("mostra", v), ("mostra", w)))


LONG = (8, 17, 33, 65, 100, 129, 257)


def big():
    """Sizes around the limits of the encodings."""
    for n in (0, 1, 2, 100, 254, 255, 256, 257, 300, 1000):
        yield Packed("big", (), (
            g.let("v", VI, g.vec("int")),
            ("para", "i", g.I(0), g.I(n), None, (g.do(g.call("anexa", g.V("v"), g.B("*", g.V("i"), g.I(3)))),)),
            ("mostra", g.call("tam", g.V("v"))), ("mostra", g.V("v")),
            g.let("s", "int", g.I(0)),
            ("enquanto", g.B(">", g.call("tam", g.V("v")), g.I(0)), (g.put("s", g.call("remova", g.V("v"), g.B("//", g.call("tam", g.V("v")), g.I(2))), "+="),)),
            ("mostra", g.V("s")), ("mostra", g.V("v")),
        ))
        yield Packed("big", (), (g.let("v", VI, ("vec", "int", (g.I(n),))), ("mostra", g.call("tam", g.V("v")))) + (
            (g.put(g.idx(g.V("v"), n - 1), g.I(5)), ("mostra", g.idx(g.V("v"), n - 1)), ("mostra", g.idx(g.V("v"), g.I(n)))) if n else (("mostra", g.idx(g.V("v"), 0)),)))
        if n <= 255:
            yield Packed("big", (), (g.let("v", VI, g.vec("int", *[g.I(k) for k in range(n)])), ("mostra", g.V("v"))))


def spaces(tier):
    d = 3 if tier == "quick" else 4
    for k, st in enumerate(FLAT_SETUPS):
        yield Space(f"histories of flat vectors {k}", f"every sequence of {d} of {len(FLAT_OPS)} operations", lambda st=st: histories(P2, st, FLAT_OPS, FLAT_SHOW, d), judge_packed, 100)
    for k, st in enumerate(NEST_SETUPS):
        yield Space(f"histories of nested vectors {k}", f"every sequence of {d} of {len(NEST_OPS)} operations", lambda st=st: histories(P2, st, NEST_OPS, NEST_SHOW, d), judge_packed, 100)
    yield Space("histories of global vectors", f"every sequence of 2 operations on global variables", lambda: (x for st in FLAT_SETUPS for x in histories(P2, st, FLAT_OPS, FLAT_SHOW, 2, False)), judge_packed, 100)
    yield Space("types of elements", "every operation with every index from -1 to 3, on vectors of 0-3 elements of 9 types", types, judge_packed, 100)
    yield Space("far indices", f"{2 * len(FAR) + 1} indices of up to 63 bits, of both signs, read, stored, added to and removed, in vectors of 0-3 elements and nested ones", far, judge_packed, 100)
    yield Space("vec", "1-3 dimensions of -1 to 3; every element is stored in turn", vecs, judge_packed, 100)
    yield Space("long vectors", f"every pair of up to 15 operations on vectors of {', '.join(map(str, LONG))} elements", long_vectors, judge_packed, 60)
    yield Space("sizes", "0 to 1000 elements", big, judge_packed, 4)
    yield Space("modules", "histories of 2 operations, divided in modules in 5 ways", modular((lambda: histories(P2, FLAT_SETUPS[0], FLAT_OPS, FLAT_SHOW, 2, False), lambda: histories(P2, FLAT_SETUPS[1], FLAT_OPS, FLAT_SHOW, 2, False), lambda: histories(P2, NEST_SETUPS[0], NEST_OPS, NEST_SHOW, 2, False)), ("whole", "global", "items", "alias", "variables")), judge_programs, 60)
