"""C08: calls of functions, parameters, results and recursion."""
import itertools

from mc import gen as g
from mc.harness import Case, Packed, Space, judge_packed, judge_programs
from mc.modular import modular
from mc.trees import Num, build, forests

PROP = "C08"
LEVEL = "exploration"
RULE = ("every expression, body and recursion of the stated shapes; each call shows its arguments and each frame shows its variables "
        "before and after the calls that it makes; output, runtime error or rejection are compared with the model; two cases are "
        "distinct when their sources differ")
V, I, B, call = g.V, g.I, g.B, g.call

FNS = (
    g.let("x", "int", I(1)),
    g.func("f0", (), "int", ("mostra", I(100)), g.ret(I(3))),
    g.func("f1", (("a", "int"),), "int", ("mostra", V("a")), g.ret(B("+", B("*", V("a"), I(2)), I(1)))),
    g.func("f2", (("a", "int"), ("b", "int")), "int", ("mostra", V("a")), ("mostra", V("b")), g.let("c", "int", B("-", V("a"), V("b"))), g.ret(V("c"))),
    g.func("f3", (("a", "int"), ("b", "int"), ("c", "int")), "int", ("mostra", B("+", B("+", B("*", V("a"), I(10000)), B("*", V("b"), I(100))), V("c"))), g.put("b", I(0)), g.ret(B("-", V("a"), V("c")))),
    g.func("gx", (("a", "int"),), "int", g.put("x", V("a"), "+="), g.ret(V("x"))),
)


def exprs(n, num):
    """Every expression with n calls and operators."""
    if n == 0:
        yield ("const",)
        yield ("x",)
        return
    yield ("f0",) if n == 1 else ("f1", ("f0",))
    for e in exprs(n - 1, num):
        yield ("f1", e)
        yield ("gx", e)
    for k in range(n):
        for l in exprs(k, num):
            for r in exprs(n - 1 - k, num):
                yield ("f2", l, r)
                yield ("-", l, r)
    if n >= 2:
        for l in exprs(n - 1, num):
            for pos in range(3):
                args = [("const",), ("x",), ("const",)]
                args[pos] = l
                yield ("f3", *args)


def real(t, num):
    if t[0] == "const":
        return num()
    if t[0] == "x":
        return V("x")
    if t[0] == "-":
        return B("-", real(t[1], num), ("par", real(t[2], num)))
    return call(t[0], *[real(a, num) for a in t[1:]])


def expressions(n):
    def run():
        for k in range(1, n + 1):
            for t in exprs(k, None):
                e = real(t, Num())
                yield Packed("call", FNS, (g.put("x", I(1)), ("mostra", e), ("mostra", V("x"))))
                if k < n:
                    yield Packed("local", FNS, (g.put("x", I(1)), g.func("h", (("y", "int"),), "int", g.let("z", "int", I(50)), g.put("z", e, "+="), ("mostra", V("y")), g.ret(V("z"))), ("mostra", call("h", I(77)))))
    return run


def rec_positions(n1):
    """Places where a function calls itself with n - 1."""
    c = n1
    return {
        "statement": (g.do(c),),
        "declaration": (g.let("r", "int", c), ("mostra", V("r"))),
        "left": (("mostra", B("-", c, V("n"))),),
        "right": (("mostra", B("-", V("n"), c)),),
        "both": (("mostra", B("-", c, ("par", B("*", c, I(2))))),),
        "argument": (("mostra", call("f2", V("n"), c)),),
        "first argument": (("mostra", call("f2", c, V("n"))),),
        "return": (g.ret(c),),
        "return sum": (g.ret(B("+", V("n"), c)),),
        "condition": (("se", B(">", c, I(0)), (("mostra", I(1)),), (), (("mostra", I(2)),)),),
        "branch": (("se", B("==", B("%", V("n"), I(2)), I(0)), (g.do(c),), (), (g.let("w", "int", I(8)), g.do(c), ("mostra", V("w")))),),
        "loop": (("para", "i", I(0), I(2), None, (("mostra", B("+", V("i"), B("*", V("n"), I(10)))), g.do(c), ("mostra", V("i")))),),
        "loop end": (("para", "i", I(0), c, None, (("mostra", V("i")),)),),
        "while": (g.let("k", "int", I(0)), ("enquanto", B("<", V("k"), I(2)), (g.put("k", I(1), "+="), g.do(c)))),
        "loop return": (("para", "i", I(0), I(3), None, (("se", B("==", V("i"), I(1)), (g.ret(c),), (), None),)),),
        "vector": (g.let("v", ("vec", "int"), g.vec("int", V("n"), c)), ("mostra", V("v"))),
        "index": (g.let("v", ("vec", "int"), g.vec("int", V("n"), V("n"))), ("mostra", g.idx(V("v"), B("%", c, I(1)))),),
        "element": (g.let("v", ("vec", "int"), g.vec("int", V("n"), V("n"))), g.put(g.idx(V("v"), 1), c), ("mostra", V("v"))),
        "record": (g.let("p", "P", ("new", "P", (("a", V("n")), ("b", c)))), ("mostra", V("p"))),
        "field": (g.let("p", "P", ("new", "P", (("a", V("n")), ("b", V("n"))))), g.put(g.get(V("p"), "b"), c), ("mostra", V("p"))),
        "match": (("mostra", ("match", c, ((("pint", 0), ("expr", I(7))), (("pvar", "z"), ("expr", B("+", V("z"), V("n"))))))),),
        "arm": (("mostra", ("match", V("n"), ((("pint", 1), ("expr", c)), (("pvar", "z"), ("block", (g.let("q", "int", c),), B("+", V("q"), V("z"))))))),),
        "fstr": (("mostra", ("fstr", ("<", V("n"), "|", c, ">"))),),
        "escolha": (("escolha", c, ((I(0), (("mostra", I(1)),)), (V("n"), (("mostra", I(2)),))), (("mostra", I(3)),)),),
        "compound": (g.let("s", "int", I(5)), g.put("s", c, "+="), ("mostra", V("s"))),
        "global": (g.put("x", B("+", V("x"), c)), ("mostra", V("x"))),
    }


def recursion():
    pre = FNS + (("registo", "P", (("a", "int"), ("b", "int"))),)
    for nparams in (1, 2, 3):
        for nloc in (0, 1, 3):
            extra = tuple((f"p{i}", "int") for i in range(1, nparams))
            locs = tuple(g.let(f"l{i}", "int", B("+", B("*", V("n"), I(10)), I(i))) for i in range(nloc))
            self_call = call("rec", B("-", V("n"), I(1)), *[B("+", V(p), I(1)) for p, _ in extra])
            shows = tuple(("mostra", V(p)) for p, _ in extra) + tuple(("mostra", V(f"l{i}")) for i in range(nloc))
            for label, st in rec_positions(self_call).items():
                body = locs + (("se", B("<=", V("n"), I(0)), (g.ret(I(0)),), (), None),) + st + shows + (g.ret(V("n")),)
                for n in (0, 1, 2, 3):
                    yield Packed(label, pre, (g.func("rec", (("n", "int"),) + extra, "int", *body), ("mostra", call("rec", I(n), *[I(500 + 10 * i) for i in range(len(extra))])), ("mostra", V("x"))))


def depth():
    """Recursion around the limit of calls."""
    for nloc in (0, 1, 20):
        locs = tuple(g.let(f"l{i}", "int", I(i)) for i in range(nloc))
        for d in (1, 2, 10, 500, 995, 996, 997, 998, 999, 1000, 1001, 1500):
            f = g.func("r", (("n", "int"),), "int", *locs, ("se", B("<=", V("n"), I(1)), (g.ret(I(0)),), (), None), g.ret(B("+", I(1), call("r", B("-", V("n"), I(1))))))
            yield Case(f"depth {d}", (f, ("mostra", call("r", I(d))), ("mostra", call("r", I(d))), ("mostra", I(1))))
            # inside of a function, a method, nested arguments
            yield Case(f"depth {d} in a function", (f, g.func("h", (), "int", g.ret(call("r", I(d)))), ("mostra", call("h")), ("mostra", call("h"))))
            m = (("registo", "P", (("a", "int"),)), ("met", "P", "m", (("n", "int"),), "int", locs + (("se", B("<=", V("n"), I(1)), (g.ret(I(0)),), (), None), g.ret(B("+", I(1), ("mcall", ("alvo",), "m", (B("-", V("n"), I(1)),)))))), g.let("p", "P", ("new", "P", (("a", I(1)),))))
            yield Case(f"depth {d} of a method", m + (("mostra", ("mcall", V("p"), "m", (I(d),))), ("mostra", ("mcall", V("p"), "m", (I(d),)))))
            p = g.func("q", (("n", "int"),), None, *locs, ("se", B(">", V("n"), I(1)), (g.do(call("q", B("-", V("n"), I(1)))),), (), None))
            yield Case(f"depth {d} of a procedure", (p, g.do(call("q", I(d))), g.do(call("q", I(d))), ("mostra", I(1))))
            # as deep, and then again, in a loop
            yield Case(f"depth {d} in a loop", (p, ("para", "i", I(0), I(3), None, (g.do(call("q", I(d))), ("mostra", V("i"))))))


def arity():
    """Every number of arguments for every number of parameters."""
    for n in range(5):
        ps = tuple((f"p{i}", "int") for i in range(n))
        for k in range(6):
            args = tuple(I(10 + i) for i in range(k))
            sh = tuple(("mostra", V(p)) for p, _ in ps)
            yield Packed("function", (), (g.func("f", ps, "int", *sh, g.ret(I(1))), ("mostra", call("f", *args))))
            yield Packed("procedure", (), (g.func("f", ps, None, *sh), g.do(call("f", *args))))
            yield Packed("method", (), (("registo", "P", (("a", "int"),)), ("met", "P", "m", ps, "int", sh + (("mostra", g.get(("alvo",), "a")), g.ret(I(1)))), ("mostra", ("mcall", ("new", "P", (("a", I(5)),)), "m", args))))
            yield Packed("primitive method", (), (("met", "int", "m", ps, "int", sh + (("mostra", ("alvo",)), g.ret(I(1)))), ("mostra", ("mcall", I(3), "m", args))))
            yield Packed("variant", (), (("uniao", "U", (("A", ("int",) * n), ("B", ()))), ("expr", ("match", ("variant", "U", "A", args if args or not n else None), ((("pcon", "U", "A", tuple(("pvar", f"q{i}") for i in range(n)) or None), ("block", tuple(("mostra", V(f"q{i}")) for i in range(n)), None)), (("pvar", "_"), ("block", (), None)))))))
    for n in (0, 1, 2, 10, 100, 200, 253, 254, 255):
        ps = tuple((f"p{i}", "int") for i in range(n))
        s = I(0)
        f = g.func("f", ps, "int", g.let("s", "int", I(0)), *[g.put("s", B("-", B("*", V("s"), I(3)), V(p)), "=") if i < 30 else g.put("s", V(p), "+=") for i, (p, _) in enumerate(ps)], g.ret(V("s")))
        yield Packed(f"{n} parameters", (), (f, ("mostra", call("f", *[I(i) for i in range(n)])), ("mostra", call("f", *[I(n - i) for i in range(n)]))))


def bodies(n):
    """Which bodies return on every path, and what they return."""
    T = V("t")
    tick = g.put("t", I(1), "+=")
    odd = B("==", B("%", T, I(2)), I(1))
    leaves = (lambda m: (g.ret(m()),), lambda m: (("mostra", m()),))
    blocks = (
        ("se", 1, lambda m, b: (tick, ("se", odd, b, (), None))),
        ("senao", 2, lambda m, b, c: (tick, ("se", odd, b, (), c))),
        ("senaose", 3, lambda m, b, c, d: (tick, ("se", odd, b, ((B("==", B("%", T, I(3)), I(1)), c),), d))),
        ("iguala", 2, lambda m, b, c: (tick, ("expr", ("match", B("%", T, I(2)), ((("pint", 1), ("block", b, None)), (("pvar", "_"), ("block", c, None))))))),
        ("se iguala", 2, lambda m, b, c: (tick, ("seiguala", ("variant", "U", "A", (T,)), ("pcon", "U", "A", (("pvar", "q"),)), b, c))),
        ("escolha", 2, lambda m, b, c: (tick, ("escolha", B("%", T, I(2)), ((I(1), b),), c))),
        ("para", 1, lambda m, b: (("para", "i", I(0), I(2), None, b),)),
    )

    def run():
        for k in range(0, n + 1):
            for f in forests(k, leaves, blocks):
                body = build(f, Num())
                yield Packed("body", UNI, (g.func("f", (), "int", g.let("t", "int", I(0)), *body), ("mostra", call("f"))))
                yield Packed("body", UNI, (g.func("f", (), "texto", g.let("t", "int", I(1)), *body), ("mostra", I(1))) if k < 2 else
                             (g.func("f", (), "int", g.let("t", "int", I(1)), *body), ("mostra", call("f"))))
    return run


def branches(most):
    """Constructs with many branches, each of which returns or not."""
    n = V("n")

    def rets(i):
        yield "R", (g.ret(I(i)),)
        yield "N", (("mostra", I(i)),)
        yield "RR", (("se", B(">", n, I(1)), (g.ret(I(i)),), (), (g.ret(I(i + 1)),)),)
        yield "RN", (("se", B(">", n, I(1)), (g.ret(I(i)),), (), None),)
        yield "L", (("para", "k", I(0), I(2), I(1), (g.ret(I(i + 2)),)),)

    def constructs(bs, els):
        k = len(bs)
        yield "se", (("se", B("==", n, I(0)), bs[0], tuple((B("==", n, I(j + 1)), b) for j, b in enumerate(bs[1:])), els),)
        yield "escolha", (("escolha", n, tuple((I(j), b) for j, b in enumerate(bs)), els),)
        if els is not None:
            yield "iguala", (("expr", ("match", n, tuple((("pint", j), ("block", b, None)) for j, b in enumerate(bs)) + ((("pvar", "q"), ("block", els, None)),))),)
            yield "nested se", (("se", B("==", n, I(0)), bs[0], (), (("se", B("==", n, I(1)), bs[1 % k], (), (("se", B("==", n, I(2)), bs[2 % k], (), els),)),)),)
        else:
            E = ("variant", "E", "Z", None)
            e = ("match", ("variant", "U", "A", (n,)), tuple((("pcon", "U", "A", (("pint", j),)), ("block", b, None)) for j, b in enumerate(bs)) + ((("pcon", "U", "A", (("pvar", "x"),)), ("block", bs[0], None)), (("pcon", "U", "B", None), ("block", bs[-1], None))))
            yield "iguala of variants", (("expr", e),)

    def run():
        i = 0

        def case(label, body, ty="int"):
            nonlocal i
            i += 1
            f = f"b{i}"
            return Packed(label, UNI, (g.func(f, (("n", "int"),), ty, *body),) + tuple(("mostra", call(f, I(x))) for x in range(most + 2)))
        for k in range(1, most + 1):
            kinds = [[*rets(100 * j)][: 5 if k <= 2 else 4 if k == 3 else 2] for j in range(k)]
            for bs in itertools.product(*kinds):
                for els in [None, *[b for _, b in rets(900)]][: 6 if k <= 3 else 3]:
                    for name, c in constructs([b for _, b in bs], els):
                        yield case(name, c)
                        if k < 3:
                            yield case(name, (("mostra", I(1)),) + c + (g.ret(I(7)),))
                            yield case(name, c + (("mostra", I(1)),))
                            yield case(name, (("se", g.TRUE, c, (), (g.ret(I(8)),)),))
        for a, b in itertools.product((I(0), I(1), I(-1), n, B("*", n, I(0))), (I(3), I(1), B("+", n, I(2)), call("tam", g.T("abcd")))):
            for inc in (None, I(1), I(2), B("+", n, I(1)), B("-", I(3), I(2))):
                for _, r in rets(20):
                    yield case("para", (("para", "i", a, b, inc, r),))
                    yield case("para", (("para", "i", a, b, inc, r), g.ret(I(5))))
        for c in (g.TRUE, B("<", n, I(50)), B("==", n, n), ("un", "nao", B(">", n, I(50)))):
            for _, r in rets(20):
                yield case("enquanto", (("enquanto", c, r + (g.put("n", I(1), "+="),)),))
                yield case("enquanto", (("enquanto", c, r + (("quebra",),)), g.ret(I(5))))
                yield case("enquanto", (("enquanto", c, (("para", "i", I(0), I(2), None, r),) + (g.put("n", I(1), "+="),)),))
    return run


UNI = (("uniao", "U", (("A", ("int",)), ("B", ()))),)


def odd_ones():
    """Functions in odd places, results that are not used, missing results."""
    f = g.func("f", (), "int", g.ret(I(1)))
    p = g.func("p", (), None, ("mostra", I(2)))
    pv = g.func("pv", (), "vazio", ("mostra", I(2)))
    progs = [
        (f, g.do(call("f")), ("mostra", call("f"))), (p, ("mostra", call("p"))), (pv, ("mostra", call("pv"))), (p, g.let("x", "int", call("p"))),
        (p, ("mostra", B("+", I(1), call("p")))), (p, ("se", call("p"), (), (), None)), (f, f), (f, p, g.func("f", (("a", "int"),), None)),
        (g.func("h", (("a", "int"), ("a", "int")), None),), (g.func("h", (("a", "int"), ("b", "texto")), None, ("mostra", V("b"))), g.do(call("h", I(1), g.T("x")))),
        (g.func("h", (("a", "zz"),), None),), (g.func("h", (), "zz", g.ret(I(1))),), (g.func("h", (), "int"),), (g.func("h", (), "int", g.ret()),),
        (g.func("h", (), None, g.ret(I(1))),), (g.func("h", (), None, ("mostra", I(1)), g.ret(), ("mostra", I(2))), g.do(call("h"))),
        (g.ret(I(1)),), (g.ret(),), (("se", g.TRUE, (g.ret(),), (), None),), (g.do(call("h")), g.func("h", (), None)),
        (g.func("a", (), None, g.do(call("b"))), g.func("b", (), None)), (g.func("h", (), None, g.func("k", (), None)),),
        (("se", g.TRUE, (g.func("k", (), None),), (), None),), (("para", "i", I(0), I(2), None, (g.func("k", (), None),)),),
        (g.func("h", (("a", "int"),), None, g.put("a", I(5)), ("mostra", V("a"))), g.let("z", "int", I(1)), g.do(call("h", V("z"))), ("mostra", V("z"))),
        (g.func("h", (("a", ("vec", "int")),), None, g.put("a", g.vec("int", I(9))), ("mostra", V("a"))), g.let("z", ("vec", "int"), g.vec("int", I(1))), g.do(call("h", V("z"))), ("mostra", V("z"))),
        (g.func("h", (("a", "real"),), "real", g.ret(V("a"))), ("mostra", call("h", I(3))), ("mostra", B("/", call("h", I(3)), I(2)))),
        (g.func("h", (), "real", g.ret(I(3))), ("mostra", call("h"))), (g.func("h", (), ("opt", "int"), g.ret(I(3))), ("mostra", call("h"))), (g.func("h", (), ("opt", "int"), g.ret(g.NULO)), ("mostra", call("h"))),
        (f, g.put("f", I(3))), (f, ("mostra", V("f"))), (f, ("mostra", B("+", V("f"), I(1)))), (f, ("mostra", g.idx(call("f"), 0))), (f, ("mostra", ("call", "f", (call("f"),)))),
        (g.let("z", "int", I(1)), ("mostra", call("z"))), (("registo", "P", (("a", "int"),)), ("mostra", call("P", I(1)))),
        (g.func("h", (("a", "indef"),), "indef", g.ret(V("a"))), ("mostra", call("h", I(3))), ("mostra", call("h", g.T("x"))), ("mostra", call("h", g.NULO))),
    ]
    for i, s in enumerate(progs):
        yield Packed(f"odd {i}", (), s)


def frames():
    """Functions with every mix of numbers of parameters, of variables and of
    temporaries, called from one another: no value loses its place."""
    for np in (0, 1, 2, 5, 100, 254, 255):
        for nl in (0, 1, 2, 100, 127, 128, 250, 253, 254, 255, 256, 257, 300, 1000):
            if np > 5 and nl > 257:
                continue
            for nt in (1, 4, 40):
                ps = [f"p{i}" for i in range(np)]
                vs = [f"v{i}" for i in range(nl)]
                pick = [n for l in (ps, vs) for n in dict.fromkeys(l[:2] + l[len(l) // 2:len(l) // 2 + 1] + l[-6:])]
                e = I(1)
                for k in range(nt):
                    # the operands on the left wait as temporaries
                    e = ("par", B("+", V(pick[k % len(pick)]) if pick else I(k), B("*", I(k % 3), e)))
                body = [g.let(v, "int", I(1000 + i)) for i, v in enumerate(vs)]
                inner = g.func("k", (("a", "int"), ("b", "int")), "int", g.let("c", "int", B("-", V("a"), V("b"))), g.ret(V("c")))
                body += [("mostra", e)] if nt < 40 else []
                body += g.show(B("+", V(pick[-1]) if pick else I(7), call("k", V(pick[0]) if pick else I(8), I(3))))
                body += [g.put(V(pick[-1]), B("+", V(pick[-1]), I(5)))] if pick else []
                body += [("mostra", V(n)) for n in pick]
                f = g.func("f", tuple((p, "int") for p in ps), None, *body)
                args = tuple(I(i) for i in range(np))
                yield Case(f"{np} parameters, {nl} variables, {nt} temporaries", (inner, f, g.let("x", "int", I(3)), g.do(call("f", *args)), ("mostra", V("x")), g.do(call("f", *args))))


def falls():
    """A loop that holds the only 'retorna' and does not run."""
    for loop in (("enquanto", g.FALSE, (g.ret(I(1)),)), ("para", "i", I(0), I(0), None, (g.ret(I(1)),))):
        yield Case("a function ends without a result", (g.func("f", (), "int", loop), ("mostra", call("f"))))


def judge_falls(worker, cases):
    """Such a function is either rejected, or a runtime error."""
    from mc import model
    from mc.harness import digest, parse_diag

    outs = []
    for c in cases:
        p = model.Program(c.files)
        res = worker.run({"files": p.src})
        bad = None
        if not (res.status == "exit" and res.code == 1 and res.out == ""):
            bad = {"what": "a function with a result ended without one", "label": c.label, "files": p.src, "expected": "a rejection or a runtime error", "got": res._asdict()}
        outs.append({"key": digest(sorted(p.src.items()), None), "cls": "no result", "bad": bad, "obs": digest(res.out, res.err), "sample": p.src["main.ama"]})
    return outs


def spaces(tier):
    q = tier == "quick"
    n = 3 if q else 4
    yield Space("expressions", f"every expression with up to {n} calls of functions with 0-3 parameters, and subtractions", expressions(n), judge_packed, 200)
    yield Space("recursion", "25 places of a recursive call, 1-3 parameters, 0-3 variables, depth 0-3", recursion, judge_packed, 100)
    yield Space("bodies", f"every body of up to {3 if q else 4} 'retorna', statements and blocks", bodies(3 if q else 4), judge_packed, 150)
    yield Space("branches", f"constructs of up to {3 if q else 5} branches, each of 5 kinds; loops with every form of limits and steps", branches(3 if q else 5), judge_packed, 150)
    yield Space("arity", "0-4 parameters with 0-5 arguments; 0 to 255 parameters", arity, judge_packed, 50)
    yield Space("odd", "functions in odd places, results unused or missing", odd_ones, judge_packed, 5)
    yield Space("depth", "1 to 1500 calls deep, of functions, methods and procedures, with 0-20 variables", depth, judge_programs, 4)
    yield Space("frames", "functions with 0-255 parameters, 0-1000 variables and up to 40 temporaries", frames, judge_programs, 12)
    yield Space("no result", "bodies whose only result is in a loop that does not run", falls, judge_falls, 1)
    hows = ("whole", "global", "items", "alias", "variables")
    yield Space("modules", f"the expressions with up to {n - 1} calls, the recursion and the arities, divided in modules in {len(hows)} ways", modular((expressions(n - 1), recursion, arity), hows), judge_programs, 60)
