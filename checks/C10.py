"""C10: methods: the type of the target decides which one runs, on which object."""
import itertools

from mc import gen as g
from mc.harness import Case, Packed, Space, histories, judge_packed, judge_programs
from mc.modular import modular

PROP = "C10"
LEVEL = "exploration"
RULE = ("every combination of type of the target, way of reaching it, signature and body of the method in the stated sets, compared with the "
        "model; two cases are distinct when their sources differ")
V, I, B, call, get, put, idx = g.V, g.I, g.B, g.call, g.get, g.put, g.idx
A = ("alvo",)


def met(t, name, params, rty, *body):
    return ("met", t, name, tuple(params), rty, body)


def mc(e, name, *args):
    return ("mcall", e, name, args)


def new(ty, **fs):
    return ("new", ty, tuple(fs.items()))


TYPES = (("registo", "P", (("n", "int"),)), ("registo", "Q", (("n", "int"), ("p", "P"))), ("uniao", "U", (("X", ()), ("Y", ("int",)))), ("uniao", "W", (("X", ()), ("Y", ("int",)))))
VALS = {
    "int": (I(5), I(-3)), "real": (g.R("2.5"), I(4)), "bool": (g.TRUE, g.FALSE), "texto": (g.T("ab"), g.T("")),
    "P": (new("P", n=I(1)), new("P", n=I(2))), "Q": (new("Q", n=I(3), p=new("P", n=I(4))),) * 2,
    "U": (("variant", "U", "X", None), ("variant", "U", "Y", (I(9),))), "W": (("variant", "W", "X", None), ("variant", "W", "Y", (I(8),))),
}
BODIES = {
    "int": (("mostra", A), g.ret(B("+", A, I(1)))), "real": (("mostra", A), g.ret(I(2))), "bool": (("se", A, (g.ret(I(1)),), (), (g.ret(I(0)),)),),
    "texto": (("mostra", ("fstr", ("<", A, ">"))), g.ret(call("tam", A))), "P": (("mostra", get(A, "n")), put(get(A, "n"), I(10), "+="), g.ret(get(A, "n"))),
    "Q": (("mostra", get(get(A, "p"), "n")), put(get(get(A, "p"), "n"), I(1), "+="), g.ret(get(A, "n"))),
    "U": (("expr", ("match", A, ((("pcon", "U", "Y", (("pvar", "k"),)), ("block", (g.ret(V("k")),), None)), (("pvar", "_"), ("block", (g.ret(I(-1)),), None))))),),
    "W": (("expr", ("match", A, ((("pcon", "W", "Y", (("pvar", "k"),)), ("block", (g.ret(B("*", V("k"), I(100))),), None)), (("pvar", "_"), ("block", (g.ret(I(-2)),), None))))),),
}
ALL = tuple(met(t, "m", (), "int", *BODIES[t]) for t in VALS)


def places(t, e):
    """Ways of reaching a value."""
    yield "variable", (g.let("x", t, e),), V("x")
    yield "literal", (), ("par", e) if e[0] in ("bin", "un") else e
    yield "element", (g.let("v", ("vec", t), g.vec(t, e, e)),), idx(V("v"), 1)
    yield "field", (("registo", "H", (("a", t), ("b", "int"))), g.let("h", "H", ("new", "H", (("a", e), ("b", I(0)))))), get(V("h"), "a")
    yield "result", (g.func("r", (), t, ("mostra", I(77)), g.ret(e)),), call("r")
    yield "optional", (g.let("o", ("opt", t), e),), get(V("o"), "valor")
    yield "nested element", (g.let("v", ("vec", ("vec", t)), g.vec(("vec", t), g.vec(t, e))),), idx(V("v"), 0, 0)


def targets():
    """Every type, with a method of the same name on each of them."""
    for t, vals in VALS.items():
        for e in vals:
            for label, pre, x in places(t, e):
                body = pre + (("mostra", mc(x, "m")), ("mostra", mc(x, "m")), g.do(mc(x, "m")))
                yield Packed(f"{t} {label}", TYPES, ALL + body) if False else Packed(f"{t} {label}", (), TYPES + ALL + body)
                fs = tuple(s for s in pre if s[0] in ("func", "registo"))
                rest = tuple(s for s in pre if s[0] not in ("func", "registo"))
                yield Packed(f"{t} {label} local", (), TYPES + ALL + fs + (g.func("loc", (("z", "int"),), None, g.let("y", "int", I(6)), *rest, ("mostra", mc(x, "m")), ("mostra", mc(x, "m")), ("mostra", B("+", V("y"), V("z")))), g.do(call("loc", I(3)))))
                # as an operand, an argument, an index, and a target
                yield Packed(f"{t} {label} operand", (), TYPES + ALL + (met("int", "d", (), "int", g.ret(B("*", A, I(2)))),) + pre + (("mostra", B("-", mc(x, "m"), mc(mc(x, "m"), "d"))), ("mostra", g.vec("int", mc(x, "m"), mc(x, "m")))))
    # a method of one type is not found on the others
    for t1 in VALS:
        for t2, vals in VALS.items():
            yield Packed(f"{t1} on {t2}", (), TYPES + (met(t1, "só", (), "int", g.ret(I(1))), g.let("x", t2, vals[0]), ("mostra", mc(V("x"), "só"))))
    for t in (("vec", "int"), ("opt", "int"), "indef", "zz", "vazio", ("opt", "P")):
        yield Packed("bad target", (), TYPES + (met(t, "m", (), None, ("mostra", I(1))), ("mostra", I(2))))


PT = ("int", "real", "texto", ("vec", "int"), "P", ("opt", "int"))
PV = {"int": I(7), "real": I(3), "texto": g.T("s"), ("vec", "int"): g.vec("int", I(1)), "P": new("P", n=I(30)), ("opt", "int"): g.NULO}


def signatures():
    """Parameters of every type next to the target."""
    for t in ("int", "P", "U", "texto"):
        for n in range(3):
            for ps in itertools.product(PT, repeat=n):
                params = tuple((f"a{i}", p) for i, p in enumerate(ps))
                body = tuple(("mostra", V(a) if p != "P" else get(V(a), "n")) for a, p in params)
                last = ("mostra", A) if t in ("int", "texto") else ("mostra", I(0)) if t == "U" else ("mostra", get(A, "n"))
                args = [PV[p] for p in ps]
                loc = (g.let("l", "int", I(55)), ("mostra", V("l")))
                yield Packed("signature", TYPES, (met(t, f"m{hash_of(t, ps)}", params, None, *loc, *body, last), g.let(f"x{hash_of(t, ps)}", t, VALS[t][1]), g.do(mc(V(f"x{hash_of(t, ps)}"), f"m{hash_of(t, ps)}", *args))))


def hash_of(t, ps):
    return "".join(str(PT.index(p)) for p in ps) + "_"


def members():
    """Names of members: fields, methods, variants, twice, before, after."""
    P1 = ("registo", "P", (("n", "int"), ("f", "int")))
    x = g.let("x", "P", new("P", n=I(1), f=I(2)))
    m = met("P", "m", (), "int", g.ret(I(5)))
    U = ("uniao", "U", (("X", ()), ("m", ("int",))))
    progs = [
        (P1, m, m), (P1, met("P", "f", (), "int", g.ret(I(1)))), (P1, x, m, ("mostra", mc(V("x"), "m"))), (P1, x, ("mostra", mc(V("x"), "m")), m),
        (met("P", "m", (), "int", g.ret(I(5))), P1), (P1, m, x, ("mostra", get(V("x"), "m"))), (P1, m, x, put(get(V("x"), "m"), I(1))), (P1, m, x, ("mostra", mc(V("x"), "n"))),
        (P1, met("P", "r", (("k", "int"),), "int", g.ret(mc(A, "r", B("-", V("k"), I(1)))))), (P1, m, met("P", "r", (("k", "int"),), "int", g.ret(B("+", mc(A, "m"), V("k")))), x, ("mostra", mc(V("x"), "r", I(3)))),
        (P1, met("P", "k", (), "int", g.ret(mc(A, "m"))), m), (U, met("U", "m", (), "int", g.ret(I(4))), ("mostra", mc(("variant", "U", "X", None), "m"))),
        (P1, met("P", "a", (), "P", g.ret(A)), x, ("mostra", B("==", mc(V("x"), "a"), V("x"))), put(get(mc(V("x"), "a"), "n"), I(40)), ("mostra", get(V("x"), "n"))),
        (P1, met("P", "a", (("alvo2", "int"),), "int", g.ret(V("alvo2"))), x, ("mostra", mc(V("x"), "a", I(6)))),
        (P1, met("P", "a", (("x", "int"),), "int", put("x", I(1), "+="), g.ret(V("x"))), x, ("mostra", mc(V("x"), "a", I(6)))),
        (P1, m, ("mostra", call("m"))), (P1, g.func("m", (), "int", g.ret(I(9))), m, x, ("mostra", mc(V("x"), "m")), ("mostra", call("m"))),
        (("mostra", A),), (g.func("f", (), None, ("mostra", A)), g.do(call("f"))), (met("int", "q", (), None, ("se", g.TRUE, (("mostra", A),), (), None)), g.do(mc(I(3), "q"))),
        (met("int", "m", (), "int", g.ret(A)), met("int", "m", (), "int", g.ret(A))), (met("int", "tam", (), "int", g.ret(A)), ("mostra", mc(I(2), "tam"))),
        *[(P1, met("P", b, (("k", "int"),), "int", g.ret(V("k"))), x, ("mostra", mc(V("x"), b, I(4)))) for b in ("tam", "vec", "anexa", "remova", "leia", "escreva", "txt_contem")],
        *[(("uniao", "Z", (("N", ()), (b, ("int",)))), ("mostra", ("match", ("variant", "Z", b, (I(4),)), ((("pcon", "Z", b, (("pvar", "k"),)), ("expr", V("k"))), (("pvar", "_"), ("expr", I(0))))))) for b in ("tam", "vec", "anexa", "remova")],
        (met("texto", "valor", (), "int", g.ret(call("tam", A))), ("mostra", mc(g.T("abc"), "valor"))),
        (met("int", "m", (), "int", ("se", g.TRUE, (g.ret(A),), (), None)),), (met("int", "m", (), None, g.ret(I(1))),), (met("int", "m", (), "int", g.ret(g.T("x"))),),
        (("se", g.TRUE, (met("int", "m", (), None),), (), None),), (g.func("f", (), None, met("int", "m", (), None)),),
        (P1, met("P", "m", (("a", "int"), ("a", "int")), None),), (P1, met("P", "m", (("n", "int"),), "int", g.ret(B("+", V("n"), get(A, "n")))), x, ("mostra", mc(V("x"), "m", I(70)))),
        (P1, x, met("P", "g", (), "int", g.ret(get(V("x"), "n"))), ("mostra", mc(new("P", n=I(9), f=I(9)), "g"))),
        (met("int", "incr", (), "int", g.ret(B("+", A, I(1)))), ("mostra", mc(mc(mc(I(1), "incr"), "incr"), "incr"))),
        (met("int", "incr", (), "int", g.ret(B("+", A, I(1)))), ("mostra", B("*", I(2), mc(I(1), "incr"))), ("mostra", ("un", "-", mc(I(1), "incr")))),
        (met("real", "h", (), "real", g.ret(B("/", A, I(2)))), ("mostra", mc(I(5), "h"))), (met("real", "h", (), "real", g.ret(B("/", A, I(2)))), g.let("k", "real", I(5)), ("mostra", mc(V("k"), "h"))),
    ]
    for i, s in enumerate(progs):
        yield Packed(f"members {i}", (), s)
        yield Packed(f"members {i} end", (), s + (("mostra", I(99)),))


COUNTER = (
    ("registo", "C", (("n", "int"), ("l", ("vec", "int")), ("o", ("opt", "C")))),
    met("C", "mais", (("k", "int"),), "int", put(get(A, "n"), V("k"), "+="), g.do(call("anexa", get(A, "l"), get(A, "n"))), g.ret(get(A, "n"))),
    met("C", "liga", (("x", "C"),), None, put(get(A, "o"), V("x"))),
    met("C", "outro", (), "C", g.ret(mc(get(A, "o"), "valor_ou", A))),
    met("C", "soma", (("x", "C"),), "int", g.ret(B("+", mc(A, "mais", get(V("x"), "n")), mc(V("x"), "mais", I(1))))),
    met("C", "zera", (), None, put(get(A, "n"), I(0)), put(get(A, "l"), g.vec("int"))),
    met("C", "novo", (), "C", g.ret(("new", "C", (("n", B("+", get(A, "n"), I(100))), ("l", get(A, "l")), ("o", g.NULO))))),
)
OPS = (
    ("a.mais(1)", (("mostra", mc(V("a"), "mais", I(1))),)),
    ("b.mais(a.n)", (g.do(mc(V("b"), "mais", get(V("a"), "n"))),)),
    ("a.liga(b)", (g.do(mc(V("a"), "liga", V("b"))),)),
    ("b.liga(a)", (g.do(mc(V("b"), "liga", V("a"))),)),
    ("a.outro().mais(5)", (("mostra", mc(mc(V("a"), "outro"), "mais", I(5))),)),
    ("a=b.outro()", (put("a", mc(V("b"), "outro")),)),
    ("a.soma(b)", (("mostra", mc(V("a"), "soma", V("b"))),)),
    ("a.soma(a)", (("mostra", mc(V("a"), "soma", V("a"))),)),
    ("b.zera()", (g.do(mc(V("b"), "zera")),)),
    ("b=a.novo()", (put("b", mc(V("a"), "novo")),)),
    ("a.outro().outro().n=3", (put(get(mc(mc(V("a"), "outro"), "outro"), "n"), I(3)),)),
    ("a.novo().l.anexa", (g.do(call("anexa", get(mc(V("a"), "novo"), "l"), I(-1))),)),
)
SETUP = tuple(g.let(x, "C", ("new", "C", (("n", I(k)), ("l", g.vec("int")), ("o", g.NULO)))) for x, k in (("a", 1), ("b", 20)))
SHOW = tuple(("mostra", get(V(x), f)) for x in "ab" for f in "nl")


def bodies():
    """A method whose body nests calls, locals, branches and loops."""
    for t, e in (("int", I(5)), ("P", new("P", n=I(5)))):
        n = A if t == "int" else get(A, "n")
        stmts = {
            "local": (g.let("l", "int", B("*", n, I(2))), ("mostra", V("l"))),
            "para": (("para", "i", I(0), I(3), None, (("mostra", B("+", n, V("i"))),)),),
            "se": (("se", B(">", n, V("a")), (g.let("q", "int", n), ("mostra", V("q"))), (), (("mostra", V("a")),)),),
            "call": (("mostra", call("dobra", n)),),
            "global": (put("tot", n, "+="), ("mostra", V("tot"))),
            "match": (("mostra", ("match", n, ((("pint", 5), ("expr", B("+", V("a"), n))), (("pvar", "w"), ("expr", V("w"))))),),),
            "self": (("mostra", mc(A, "base", V("a"))),),
            "vec": (g.let("v", ("vec", "int"), g.vec("int", n, V("a"))), ("mostra", V("v"))),
            "return": (("se", B("==", V("a"), I(2)), (g.ret(I(-9)),), (), None),),
        }
        pre = TYPES + (g.let("tot", "int", I(0)), g.func("dobra", (("k", "int"),), "int", g.ret(B("*", V("k"), I(2)))), met(t, "base", (("k", "int"),), "int", ("mostra", V("k")), g.ret(B("+", n, V("k")))))
        for x in itertools.product(stmts, repeat=2):
            if x[0] == x[1] and x[0] in ("local", "vec"):
                continue
            body = sum((stmts[s] for s in x), ())
            nm = "m_" + "_".join(x)
            for form in (0, 1):
                m = (met(t, nm + str(form), (("a", "int"),), "int", *body, g.ret(B("+", n, V("a")))),)
                use = (("mostra", mc(e, nm + str(form), I(1))), ("mostra", mc(e, nm + str(form), I(2))))
                yield Packed(nm, pre, m + (use if not form else (g.func("f" + nm, (("z", "int"),), None, g.let("y", t, e), ("mostra", mc(V("y"), nm + "1", V("z"))), ("mostra", V("z"))), g.do(call("f" + nm, I(1))), g.do(call("f" + nm, I(7))))))


def module_methods():
    """Types with the same name in three modules (and a primitive one), with a
    method of one name on each of them, declared where the type is, or by a
    module that imports it; every set of declarations, and calls from each
    module."""
    P = ("registo", "P", (("n", "int"),))
    U = ("uniao", "U", (("X", ()), ("P", ("int",))))
    ty = lambda m, at, t: t if m == at or t == "int" else ("path", "q" + m, t)

    def decl(m, at, t, rec):
        """The method f of type t of module m, declared in module `at`."""
        n = I(7) if t == "U" else get(A, "n") if t == "P" else A
        k = "abm".index(at) * 10 + "abm".index(m) + 1
        return met(ty(m, at, t), "f", (("k", "int"),), "int", ("mostra", I(k * 100)), put("c", I(k), "+="), g.do(call("h")), g.ret(B("+", n, V("k"))))

    def make(m, at, t, k):
        if t == "int":
            return ("par", I(k))
        if t == "U":
            return ("variant", "U", "P", (I(k),)) if m == at else ("mcall", V("q" + m), "mk", (I(k),))
        return ("new", ty(m, at, t), (("n", I(k)),))

    for t in ("P", "U"):
        # (module of the type, module of the declaration)
        places = (("a", "a"), ("b", "b"), ("m", "m"), ("a", "b"), ("a", "m"), ("b", "m"), ("i", "a"), ("i", "b"), ("i", "m"))
        for n in range(len(places) + 1):
            for ds in itertools.combinations(places, n):
                if sum(m == "i" for m, _ in ds) > 1 and n > 3:
                    continue
                for calls in ((), ("a",), ("b",), ("m",), ("i",), ("a", "b", "m", "i")):
                    if len(calls) == 4:
                        calls = tuple(m for m in "abmi" if any(m == d[0] for d in ds))
                        if len(calls) < 2:
                            continue
                    files = {}
                    for at in "abm":
                        us = tuple(("usa", f"{o}.ama", "alias", "q" + o) for o in {"a": "", "b": "a", "m": "ab"}[at])
                        body = us + ((P,) if t == "P" else (U, g.func("mk", (("k", "int"),), "U", g.ret(("variant", "U", "P", (V("k"),))))))
                        body += (g.let("c", "int", I(0)), g.func("h", (), None, ("mostra", g.T(at))))
                        for m, where in ds:
                            if where == at:
                                body += (decl(m if m != "i" else "m", at, t, 0) if m != "i" else decl("m", at, "int", 0),)
                        seen = {"a": "ai", "b": "abi", "m": "abmi"}[at]
                        for c in calls:
                            if c in seen and (len(calls) > 1 or at == "m" or c == at):
                                tt = "int" if c == "i" else t
                                # in the module of the type, and in those that import it, when it is declared by then
                                if at != "m" and not any(d == c and w in {"a": "a", "b": "ab"}[at] for d, w in ds):
                                    continue
                                body += (("mostra", ("mcall", make(c if c != "i" else at, at, tt, 3), "f", (I(4),))), ("mostra", V("c")))
                                body += (g.func("g" + c, (("k", "int"),), "int", g.let("l", "int", I(6)), g.ret(B("-", ("mcall", make(c if c != "i" else at, at, tt, 5), "f", (V("k"),)), V("l")))), ("mostra", call("g" + c, I(1))))
                        files[("main" if at == "m" else at) + ".ama"] = body + (("mostra", g.T("fim " + at)),)
                    yield Case(f"{t} {ds} {calls}", files)


def many(sizes):
    """Many methods, many types with methods of one name, long chains of calls."""
    def run():
        for n in sizes:
            for t in ("int", "P", "texto", "U"):
                ms = tuple(met(t, f"m{i}", (), "int", g.ret(B("+", {"int": A, "P": get(A, "n"), "texto": call("tam", A), "U": I(3)}[t], I(i * 10)))) for i in range(n))
                yield Packed("methods of a type", TYPES, (g.let("x", t, VALS[t][1]),) + ms + tuple(("mostra", mc(V("x"), f"m{(i * 7) % n}")) for i in range(n)) + (("mostra", mc(V("x"), "m0")),))
            rs = tuple(("registo", f"R{i}", (("n", "int"), ("x", "int"))) for i in range(n))
            ms = tuple(met(f"R{i}", "m", (("k", "int"),), "int", put(get(A, "n"), V("k"), "+="), g.ret(B("+", get(A, "n"), I(i * 1000)))) for i in range(n))
            vs = tuple(g.let(f"v{i}", f"R{i}", new(f"R{i}", n=I(i), x=I(0))) for i in range(n))
            uses = tuple(("mostra", mc(V(f"v{(i * 5) % n}"), "m", I(i))) for i in range(n)) + tuple(("mostra", get(V(f"v{i}"), "n")) for i in range(n))
            yield Packed("types with a method", (), rs + ms + vs + uses)
            yield Packed("types with a method", (), tuple(x for p in zip(rs, ms[:], vs) for x in p) + uses)
            us = tuple(("uniao", f"U{i}", (("X", ()), ("Y", ("int",)))) for i in range(n))
            ms = tuple(met(f"U{i}", "m", (), "int", g.ret(I(i * 1000))) for i in range(n))
            yield Packed("unions with a method", (), us + ms[::-1] + tuple(("mostra", mc(("variant", f"U{i}", "Y", (I(1),)), "m")) for i in range(n)))
            # chains
            step = met("P", "mais", (("k", "int"),), "P", put(get(A, "n"), V("k"), "+="), ("mostra", get(A, "n")), g.ret(A))
            other = met("P", "novo", (("k", "int"),), "P", g.ret(new("P", n=B("-", V("k"), get(A, "n")))))
            for turn in (("mais",), ("novo",), ("mais", "novo"), ("mais", "mais", "novo")):
                e = V("x")
                for i in range(min(n, 60)):
                    e = mc(e, turn[i % len(turn)], I(i))
                yield Packed("chain", TYPES, (step, other, g.let("x", "P", new("P", n=I(1))), ("mostra", get(e, "n")), ("mostra", get(V("x"), "n"))))
            # arguments of a method, of the type of its target
            ps = tuple((f"p{i}", "P") for i in range(min(n, 100)))
            big = met("P", "todos", ps, "int", *[put(get(V(p), "n"), get(A, "n"), "+=") for p, _ in ps], g.ret(get(V(ps[-1][0]), "n")))
            yield Packed("arguments", TYPES, (big, g.let("x", "P", new("P", n=I(1))), g.let("y", "P", new("P", n=I(2))), ("mostra", mc(V("x"), "todos", *[(V("x"), V("y"), new("P", n=I(i)))[i % 3] for i in range(len(ps))])), ("mostra", get(V("x"), "n")), ("mostra", get(V("y"), "n"))))
    return run


def spaces(tier):
    d = 3 if tier == "quick" else 4
    yield Space("targets", "8 types of targets, 7 ways of reaching one; every method against every other type", targets, judge_packed, 40)
    yield Space("signatures", "0-2 parameters of 6 types on 4 types of targets", signatures, judge_packed, 45)
    yield Space("members", "names of members repeated, missing, before and after their declaration", members, judge_packed, 10)
    yield Space("bodies", "every pair of 9 kinds of statements in the body, called from the entry code and from a function", bodies, judge_packed, 60)
    yield Space("methods of modules", "types of the same name in three modules, every set of 9 declarations of a method, calls from each module", module_methods, judge_programs, 60)
    yield Space("histories", f"every sequence of {d} of {len(OPS)} calls on two linked objects", lambda: histories(COUNTER, SETUP, OPS, SHOW, d), judge_packed, 100)
    yield Space("modules", "the targets, signatures, members, bodies and the histories of 2, divided in modules in 6 ways", modular((targets, signatures, members, bodies, lambda: histories(COUNTER, SETUP, OPS, SHOW, 2, False))), judge_programs, 60)
    yield Space("many", "5 to 40 (300) methods of a type, types with a method of one name, calls in a chain, arguments", many((5, 9, 17, 40) if d == 3 else (4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 31, 32, 33, 40, 64, 65, 100, 128, 129, 200, 255, 256, 257, 300)), judge_packed, 10)
