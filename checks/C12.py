"""C12: 'iguala' runs the first arm that matches, with its bindings."""
import itertools

from checks.iguala_spaces import DOMAINS, W, arm_lists, con, helpers, result, var
from mc import gen as g, model
from mc.harness import Case, Packed, Space, judge_packed, judge_programs

PROP = "C12"
LEVEL = "exploration"
RULE = ("every list of arms over the patterns of each domain that covers it, on every value of the domain: the arm that ran, what it bound "
        "and its value are compared with the model; two cases are distinct when their sources differ")
V, I, B, call = g.V, g.I, g.B, g.call


def covered(name, arms):
    decls, ty = DOMAINS[name][0], DOMAINS[name][1]
    p = model.Program(decls + (g.func("f", (("v", ty),), "texto", g.ret(("match", V("v"), tuple((a, ("expr", g.T("x"))) for a in arms)))),))
    try:
        p.compile()
    except model.Reject:
        return False
    return True


def first_match(name, n):
    def run():
        decls, ty, _, vals = DOMAINS[name]
        pre = helpers(name)
        # a wildcard at the end of every list that needs it
        for k, arms in enumerate(arm_lists(name, n)):
            if not covered(name, arms):
                if len(arms) == n:
                    continue
                arms = arms + (("pvar", "resto"),)
            m = ("match", V("v"), tuple((a, ("expr", result(i, a, ty, decls))) for i, a in enumerate(arms)))
            f = f"f{k}"
            yield Packed(f"{name} {len(arms)} arms", pre, (g.func(f, (("v", ty),), "texto", g.ret(m)),) + tuple(("mostra", call(f, v)) for v in vals))
    return run


UNI = (("uniao", "U", (("A", ()), ("B", ("int",)), ("C", ("int", "texto")))), ("uniao", "O", (("S", ("U",)), ("T", ("U", "U")))))
UV = (var("U", "A"), var("U", "B", I(4)), var("U", "C", I(5), g.T("c")))
SAY = (g.func("diz", (("u", "U"), ("k", "int")), "U", ("mostra", V("k")), g.ret(V("u"))), g.func("n", (("k", "int"),), "int", ("mostra", V("k")), g.ret(V("k"))))


def arms_of(kind, base):
    """Three arms that give an integer, written in several ways."""
    def body(i, e):
        if kind == "expr":
            return ("expr", e)
        if kind == "block":
            return ("block", (), e)
        if kind == "local":
            return ("block", (g.let("t", "int", e), ("mostra", V("t"))), B("+", V("t"), I(1)))
        if kind == "call":
            return ("expr", call("n", e))
        if kind == "branch":
            return ("block", (("se", B(">", e, I(2)), (("mostra", I(700 + i)),), (), (("mostra", I(800 + i)),)),), e)
        if kind == "loop":
            return ("block", (("para", "q", I(0), I(2), None, (("mostra", B("+", V("q"), e)),)),), e)
        if kind == "nested":
            return ("expr", ("match", e, ((("pint", 4), ("expr", I(44))), (("pvar", "z"), ("expr", B("*", V("z"), I(3)))))))
        if kind == "nested block":
            return ("block", (("expr", ("match", UV[1], ((con("U", "B", ("pvar", "x")), ("block", (("mostra", B("+", V("x"), e)),), None)), (("pvar", "z"), ("block", (), None)))),),), e)
        raise ValueError(kind)
    return ((con("U", "A"), body(0, I(base))), (con("U", "B", ("pvar", "x")), body(1, V("x"))), (con("U", "C", ("pvar", "x"), ("pvar", "y")), body(2, B("+", V("x"), call("tam", V("y"))))))


KINDS = ("expr", "block", "local", "call", "branch", "loop", "nested", "nested block")


def contexts():
    """A value of 'iguala' in every place, with every kind of body."""
    for kind in KINDS:
        for base in (1, 3):
            for u in UV:
                for target in (u, V("alvo_"), call("diz", u, I(60))):
                    m = ("match", target, arms_of(kind, base))
                    places = {
                        "mostra": (("mostra", m),),
                        "statement": (("expr", m), ("mostra", I(9))),
                        "declaration": (g.let("r", "int", m), ("mostra", V("r"))),
                        "real": (g.let("r", "real", m), ("mostra", B("/", V("r"), I(2)))),
                        "assignment": (g.let("r", "int", I(0)), g.put("r", m), g.put("r", m, "+="), ("mostra", V("r"))),
                        "argument": (("mostra", call("soma", I(100), m)),),
                        "first argument": (("mostra", call("soma", m, I(100))),),
                        "element": (g.let("l", ("vec", "int"), g.vec("int", I(1), m, I(2))), ("mostra", V("l"))),
                        "return": (("mostra", call("ret", u)),),
                        "condition": (("se", B("==", call("n", m), I(base)), (("mostra", I(1)),), (), (("mostra", I(2)),)),),
                        "fstr": (("mostra", ("fstr", ("<", V("res"), ">"), '"')),),
                    }
                    for label, st in places.items():
                        if label == "return" and target is not u or label == "fstr" and kind != "expr":
                            continue
                        pre = SAY + (g.func("soma", (("a", "int"), ("b", "int")), "int", g.ret(B("-", B("*", V("a"), I(2)), V("b")))), g.func("ret", (("alvo_", "U"),), "int", g.let("k", "int", I(3)), g.ret(("match", V("alvo_"), arms_of(kind, base)))))
                        body = (g.let("x", "int", I(77)), g.let("alvo_", "U", u), g.let("res", "int", ("match", u, arms_of("expr", base)))) + st + (("mostra", V("x")),)
                        yield Packed(f"{label} {kind}", (), UNI + pre + body)
                        yield Packed(f"{label} {kind} local", (), UNI + pre + (g.func("h", (("y", "int"),), None, *body, ("mostra", V("y"))), g.do(call("h", I(66)))))


def operands():
    """'iguala' as an operand, next to other 'iguala'."""
    for k1, k2 in itertools.product(("expr", "local", "nested"), repeat=2):
        for u1, u2 in itertools.product(UV, repeat=2):
            m1, m2 = ("match", u1, arms_of(k1, 1)), ("match", u2, arms_of(k2, 1))
            yield Packed("two", UNI + SAY, (("mostra", ("fstr", (call("n", m1), "-", call("n", m2)), "'")),) if False else (("se", g.TRUE, (g.let("a", "int", m1), g.let("b", "int", m2), ("mostra", B("-", V("a"), V("b"))), ("mostra", g.vec("int", m1, m2))), (), None),))
            yield Packed("target", UNI + SAY, (("mostra", ("match", m1, ((("pint", 1), ("expr", m2)), (("pvar", "k"), ("expr", B("+", V("k"), I(1000))))))),))


def bindings():
    """Names of bindings: repeated, shadowing, assigned, captured later."""
    x = g.let("x", "int", I(50))
    two = ("uniao", "D", (("P", ("int", "int")), ("Q", ("D", "int")), ("N", ())))
    def m(p, *st):
        return ("expr", ("match", var("D", "P", I(1), I(2)), ((p, ("block", st, None)), (("pvar", "_"), ("block", (), None)))))
    P = lambda a, b: con("D", "P", ("pvar", a), ("pvar", b))
    progs = [
        (x, m(P("x", "y"), ("mostra", V("x")), ("mostra", V("y"))), ("mostra", V("x"))), (x, m(P("a", "a"), ("mostra", V("a")))), (x, m(P("_", "_"), ("mostra", I(1)))),
        (x, m(P("_", "b"), ("mostra", V("b")))), (x, m(P("_", "b"), ("mostra", V("_")))), (x, m(P("a", "b"), g.put("a", I(9)), ("mostra", V("a")), ("mostra", V("b")))),
        (x, m(P("a", "b"), g.put("x", V("a")), ("mostra", V("x"))), ("mostra", V("x"))), (x, m(P("a", "b"), g.let("a", "int", I(3)), ("mostra", V("a")))), (x, m(P("a", "b"), g.let("x", "int", I(3)), ("mostra", V("x"))), ("mostra", V("x"))),
        (x, m(P("a", "b")), ("mostra", V("a"))), (x, m(P("x", "b"), g.put("x", I(8), "+="), ("mostra", V("x"))), ("mostra", V("x"))), (x, m(P("a", "b"), ("se", B("<", V("a"), V("b")), (g.let("a", "int", I(70)), ("mostra", V("a"))), (), None), ("mostra", V("a")))),
        (x, m(P("a", "b"), ("para", "b", I(0), I(2), None, (("mostra", V("b")),)), ("mostra", V("b")))), (x, m(P("a", "b"), m(P("b", "a"), ("mostra", V("a")), ("mostra", V("b"))), ("mostra", V("a")), ("mostra", V("b")))),
        (x, m(con("D", "P", ("pvar", "D"), ("pvar", "E")), ("mostra", V("D")))), (x, m(con("D", "P", ("pvar", "mostra_"), ("pvar", "tam")), ("mostra", V("tam")))),
    ]
    for i, s in enumerate(progs):
        yield Packed(f"bindings {i}", (), (two,) + s)
        yield Packed(f"bindings {i} local", (), (two, g.func("h", (), None, *s), g.do(call("h"))))
    deep = var("D", "Q", var("D", "Q", var("D", "P", I(1), I(2)), I(3)), I(4))
    pat = con("D", "Q", con("D", "Q", con("D", "P", ("pvar", "a"), ("pvar", "b")), ("pvar", "c")), ("pvar", "d"))
    for v in (deep, var("D", "Q", var("D", "Q", var("D", "N"), I(3)), I(4)), var("D", "N"), var("D", "Q", var("D", "N"), I(7))):
        s = (("expr", ("match", v, ((pat, ("block", tuple(("mostra", V(n)) for n in "abcd"), None)), (con("D", "Q", ("pvar", "r"), ("pint", 7)), ("block", (("mostra", I(7)),), None)), (("pvar", "_"), ("block", (("mostra", I(0)),), None))))),)
        yield Packed("deep", (), (two,) + s)
        yield Packed("deep local", (), (two, g.func("h", (), None, *s), g.do(call("h"))))


def se_iguala():
    """'se iguala' with each pattern on each value, with and without 'senao'."""
    for name in ("enum", "int", "texto", "leaves", "nested", "list", "three"):
        decls, ty, pats, vals = DOMAINS[name]
        for p in pats:
            for els in (None, (("mostra", g.T("não")),)):
                for k, v in enumerate(vals):
                    st = (("seiguala", v, p, (("mostra", result(k, p, ty, decls)),), els), ("mostra", I(1)))
                    yield Packed(f"se iguala {name}", helpers(name), st)
                yield Packed(f"se iguala {name} local", helpers(name), (g.func(f"s{pats.index(p)}_{els is None}", (("v", ty), ("z", "int")), None, ("seiguala", V("v"), p, (g.let("q", "int", I(5)), ("mostra", result(0, p, ty, decls)), ("mostra", V("q"))), els), ("mostra", V("z"))),) + tuple(g.do(call(f"s{pats.index(p)}_{els is None}", v, I(33))) for v in vals))


def in_loops():
    """The same 'iguala' runs many times; 'quebra', 'continua' and 'retorna' leave it."""
    for leave in (("quebra",), ("continua",), g.ret(I(5)), ("mostra", I(0))):
        for k in range(3):
            for kind in ("block", "nested"):
                arms = tuple((p, ("block", ((leave,) if i == k else ()) + (("mostra", I(10 + i)),) if leave[0] == "mostra" else ((("mostra", I(20 + i)), leave) if i == k else (("mostra", I(10 + i)),)), None)) for i, p in enumerate((("pint", 0), ("pint", 2), ("pvar", "o"))))
                m = ("expr", ("match", V("i"), arms))
                if kind == "nested":
                    m = ("expr", ("match", V("i"), ((("pint", 9), ("block", (), None)), (("pvar", "j"), ("block", (g.let("t", "int", V("j")), m, ("mostra", V("t"))), None)))))
                yield Packed("loop", (), (g.func("h", (("z", "int"),), "int", ("para", "i", I(0), I(4), None, (("mostra", V("i")), m, ("mostra", I(99)))), ("mostra", V("z")), g.ret(I(-1))), ("mostra", call("h", I(44)))))
                if leave[0] != "retorna":
                    yield Packed("loop", (), (("para", "i", I(0), I(4), None, (("mostra", V("i")), m, ("mostra", I(99)))), ("mostra", I(1))))
    for n in (300, 5000):
        yield Packed("many times", (), UNI + (g.let("s", "int", I(0)), ("para", "i", I(0), I(n), None, (g.put("s", ("match", B("%", V("i"), I(3)), ((("pint", 0), ("expr", I(1))), (("pint", 1), ("expr", V("i"))), (("pvar", "k"), ("block", (g.let("t", "int", V("k")),), B("*", V("t"), I(5)))))), "+="),)), ("mostra", V("s"))))


def unions_of_modules(n):
    """The unions are declared in modules; others with the same names and other
    variants are declared in another module, so that no module numbers them alike."""
    def run():
        other = (("uniao", "Z", (("X", ()), ("A", ("int",)), ("N", ()))),)
        for name in ("enum", "leaves", "nested", "list", "three"):
            decls, ty, pats, vals = DOMAINS[name]
            us = [d for d in decls if d[0] == "uniao"]
            names = tuple(d[1] for d in us)
            twins = tuple(("uniao", d[1], tuple(reversed(d[2]))) for d in us)
            help_ = helpers(name)[len(decls):]
            fs = []
            for k, arms in enumerate(arm_lists(name, n)):
                if not covered(name, arms):
                    if len(arms) == n:
                        continue
                    arms = arms + (("pvar", "resto"),)
                m = ("match", V("v"), tuple((a, ("expr", result(i, a, ty, decls))) for i, a in enumerate(arms)))
                fs.append(g.func(f"f{k}", (("v", ty),), "texto", g.ret(m)))
            items = lambda f, ns=names: ("usa", f"{f}.ama", "items", ns)
            hs = tuple(f[1] for f in help_)
            for i in range(0, len(fs), 30):
                part = tuple(fs[i:i + 30])
                uses = tuple(("mostra", call(f[1], v)) for f in part for v in vals)
                fnames = tuple(f[1] for f in part)
                far = ("usa", "t.ama", "alias", "qt")
                # declared in a module, matched by main
                yield Case(f"{name} items {i}", {"main.ama": (far, items("a", names + hs)) + other + part + uses, "a.ama": tuple(us) + help_, "t.ama": twins})
                yield Case(f"{name} global {i}", {"main.ama": (("usa", "a.ama", "global", None), far) + other + part + uses, "a.ama": (("uniao", "Z2", (("X", ()), ("Y", ()))),) + tuple(us) + help_, "t.ama": other + twins})
                # declared in one, matched in another, with the values of main
                yield Case(f"{name} two {i}", {"main.ama": (far, items("b", names + fnames)) + other + uses, "b.ama": (items("a", names + hs),) + other + part, "a.ama": tuple(us) + help_, "t.ama": (items("a", names[:1]), *twins[1:], ("mostra", g.T("t")))})
                # a union of one module has parameters of a union of another
                if len(us) == 2:
                    yield Case(f"{name} apart {i}", {"main.ama": (items("b", names[1:]), items("a", names[:1]), far) + tuple(help_) + part + uses, "b.ama": (items("a", names[:1]),) + other + (us[1],), "a.ama": (us[0],), "t.ama": twins})
    return run


def orders(xs):
    """Some orders of a list: as it is, reversed, from both ends, and with a stride."""
    xs = list(xs)
    n = len(xs)
    yield xs
    yield xs[::-1]
    yield [xs[i // 2] if i % 2 == 0 else xs[n - 1 - i // 2] for i in range(n)]
    k = next(k for k in (7, 11, 13, 17, 19, 23) if n % k)
    yield [xs[i * k % n] for i in range(n)]


def many_arms(sizes):
    """Lists of many arms: each of the values, those between them, and what was bound."""
    def run():
        for n in sizes:
            ints = [("int", i * i - 3 * i) for i in range(n) if i > 2]
            # repeated patterns: only the first one of each runs
            for k, xs in enumerate(orders([7, 12, 1, 0, *(v for _, v in ints)][:n])):
                vals = sorted({y for x in xs for y in (x - 1, x, x + 1, -x)})
                vals = vals if len(vals) < 60 else vals[:10] + vals[10:-10:len(vals) // 40] + vals[-10:]
                for twice in (False, True):
                    arms = tuple((("pint", x), ("expr", I(i))) for i, x in enumerate(xs))
                    arms += (tuple((("pint", x), ("expr", I(1000 + i))) for i, x in enumerate(xs[::3])) if twice else ()) + ((("pvar", "q"), ("expr", B("-", V("q"), I(5000)))),)
                    f = f"i{n}_{k}_{twice}"
                    yield Packed(f"{n} ints", (), (g.func(f, (("v", "int"),), "int", g.ret(("match", V("v"), arms))),) + tuple(("mostra", call(f, I(v))) for v in vals))
            texts = [("a" * (i % 4)) + "xyz"[i % 3] * (i // 12) + "é"[:i % 2] for i in range(n)]
            texts = list(dict.fromkeys(texts))
            for k, xs in enumerate(orders(texts)):
                vals = xs + [xs[0] + "z", xs[-1] + " ", "é" + xs[n // 3], ""]
                arms = tuple((("ptxt", x), ("expr", g.T(f"r{i}"))) for i, x in enumerate(xs)) + ((("pvar", "q"), ("expr", ("fstr", ("[", V("q"), "]")))),)
                f = f"t{n}_{k}"
                yield Packed(f"{n} texts", (), (g.func(f, (("v", "texto"),), "texto", g.ret(("match", V("v"), arms))),) + tuple(("mostra", call(f, g.T(v))) for v in vals[-70:]))
            shape = [(), ("int",), ("int", "texto"), ("texto", "int", "int"), (), ("L",)]
            us = ("uniao", "L", tuple((f"V{i}", shape[i % 6]) for i in range(n)))
            used = [i for i in range(n) if i < 40 or i % 7 == 0 or i > n - 5]
            lit = {"int": lambda i: I(i), "texto": lambda i: g.T(f"t{i}"), "L": lambda i: var("L", f"V{i % 4}", *[lit[t](i + 1) for t in shape[i % 4]])}
            vals = [var("L", f"V{i}", *[lit[t](i + j) for j, t in enumerate(shape[i % 6])]) for i in used]
            for k, xs in enumerate(orders(range(n))):
                for rest in (0, n // 2):
                    arms = []
                    for i in xs[rest:]:
                        ps = shape[i % 6]
                        pat = con("L", f"V{i}", *[("pvar", f"b{j}") for j in range(len(ps))])
                        if "L" in ps:
                            body = ("block", (g.let("r", "int", ("match", V("b0"), ((con("L", "V1", ("pvar", "w")), ("expr", V("w"))), (("pvar", "w"), ("expr", I(-1)))))),), ("fstr", (f"{i}:", V("r"))))
                        else:
                            body = ("expr", ("fstr", (f"{i}:",) + tuple(x for j in range(len(ps)) for x in (V(f"b{j}"), ","))))
                        arms.append((pat, body))
                    if rest:
                        arms.append((("pvar", "q"), ("expr", g.T("outro"))))
                    f = f"u{n}_{k}_{rest}"
                    yield Packed(f"{n} variants", (us,), (g.func(f, (("v", "L"),), "texto", g.ret(("match", V("v"), tuple(arms)))),) + tuple(("mostra", call(f, v)) for v in vals))
    return run


def many_variants(sizes):
    """Variants of a union with many of them are never taken for each other."""
    def run():
        for n in sizes:
            us = ("uniao", "L", tuple((f"V{i}", ("int",) if i % 3 == 1 else ()) for i in range(n)))
            mk = lambda i: var("L", f"V{i}", I(i)) if i % 3 == 1 else var("L", f"V{i}")
            pat = lambda i, k: con("L", f"V{i}", ("pvar", f"b{k}")) if i % 3 == 1 else con("L", f"V{i}")
            body = lambda i, k: ("expr", B("+", I(10000), V(f"b{k}")) if i % 3 == 1 else I(i))
            far = sorted({d for k in range(3, 13) for d in (2 ** k - 1, 2 ** k, 2 ** k + 1) if d < n})
            for i in sorted({0, 1, 2, 7, 8, 15, 16, n // 2, n - 2, n - 1} | {d for d in far}):
                near = [j % n for j in (i - 1, i + 1, *(i + d for d in far), *(i - d for d in far))]
                f = f"m{n}_{i}"
                arms = ((pat(i, 0), body(i, 0)), (("pvar", "q"), ("expr", I(-1))))
                yield Packed(f"{n} variants, one arm", (us,), (g.func(f, (("v", "L"),), "int", g.ret(("match", V("v"), arms))),) + tuple(("mostra", call(f, mk(j))) for j in dict.fromkeys([i] + near)))
                two = [j for j in dict.fromkeys(near) if j != i][:40:4]
                arms = tuple((pat(j, k), body(j, k)) for k, j in enumerate([i] + two)) + ((("pvar", "q"), ("expr", I(-1))),)
                yield Packed(f"{n} variants, some arms", (us,), (g.func(f, (("v", "L"),), "int", g.ret(("match", V("v"), arms))),) + tuple(("mostra", call(f, mk(j))) for j in dict.fromkeys([i] + near)))
    return run


def spaces(tier):
    q = tier == "quick"
    for name, n in (("pairs", 3 if q else 4), ("pairs of lists", 3), ("enum", 4), ("int", 3 if q else 4), ("texto", 4 if q else 5), ("spellings of texts", 3 if q else 4), ("similar texts", 3), ("similar ints", 3), ("spellings", 3 if q else 4), ("other", 2), ("leaves", 3 if q else 4), ("nested", 2 if q else 3), ("list", 3 if q else 4), ("three", 3 if q else 4)):
        yield Space(f"first arm: {name}", f"every list of up to {n} of {len(DOMAINS[name][2])} patterns, on {len(DOMAINS[name][3])} values", first_match(name, n), judge_packed, 120)
    yield Space("contexts", "8 kinds of bodies in 11 places, global and local, 3 kinds of targets", contexts, judge_packed, 60)
    yield Space("operands", "pairs of 'iguala'", operands, judge_packed, 60)
    yield Space("bindings", "names of bindings", bindings, judge_packed, 10)
    yield Space("se iguala", "each pattern on each value, with and without 'senao'", se_iguala, judge_packed, 100)
    yield Space("unions of modules", f"lists of up to {2 if q else 3} patterns of unions of other modules, in 4 arrangements", unions_of_modules(2 if q else 3), judge_programs, 4)
    yield Space("loops", "'iguala' in loops, left by quebra, continua and retorna", in_loops, judge_packed, 10)
    yield Space("many variants", "unions of 70 to 600 variants, each of 40 of them told from those 1 to 513 places away", many_variants((70, 300, 600) if q else (70, 130, 257, 300, 600, 1100, 2100)), judge_packed, 8)
    yield Space("many arms", "lists of 5 to 70 (300) arms of ints, texts and variants in 4 orders", many_arms((5, 9, 17, 33, 65, 70) if q else (5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 70, 100, 128, 129, 200, 255, 256, 257, 300)), judge_packed, 4)
