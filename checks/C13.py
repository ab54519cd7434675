"""C13: an 'iguala' that gives a value, or that may run no arm, is accepted
only if some arm matches every value of its type."""
import itertools

from checks.iguala_spaces import DOMAINS, arm_lists, con, helpers, result, var
from mc import gen as g, model
from mc.harness import Case, Packed, Space, judge_packed, judge_programs

PROP = "C13"
LEVEL = "exploration"
RULE = ("every list of arms of each domain, those that leave values out too: accepted exactly when the values of the type, enumerated one "
        "by one, all have an arm that matches them; two cases are distinct when their sources differ")
V, I, B, call = g.V, g.I, g.B, g.call
REST = ("anything the patterns do not look at",)


# The oracle: all of the values of a type, to the depth that patterns reach.
def depth(p):
    return 0 if p[0] == "pvar" else 1 + max([depth(q) for q in (p[3] or ())] if p[0] == "pcon" else [0], default=0)


def literals(pats):
    for p in pats:
        if p[0] in ("pint", "ptxt"):
            yield p[:2]
        elif p[0] == "pcon":
            yield from literals(p[3] or ())


def values(ty, unions, lits, d):
    if d == 0:
        return [REST]
    if ty in unions:
        return [(ty, v, args) for v, params in unions[ty] for args in itertools.product(*[values(t, unions, lits, d - 1) for t in params])]
    kind = {"int": "pint", "texto": "ptxt"}.get(ty)
    return [lit for lit in lits if lit[0] == kind] + [REST]


def matches(p, v):
    if p[0] == "pvar":
        return True
    if v is REST:
        return False
    if p[0] == "pcon":
        return v[:2] == p[1:3] and all(matches(q, x) for q, x in zip(p[3] or (), v[2]))
    return p[:2] == v


def covers(arms, ty, unions):
    lits = sorted(set(literals(arms)))
    d = max(map(depth, arms)) + 1
    return all(any(matches(p, v) for p in arms) for v in values(ty, unions, lits, d))


def accepted(prog):
    try:
        prog.compile()
    except model.Reject:
        return False
    return True


def unions_of(decls):
    return {d[1]: d[2] for d in decls if d[0] == "uniao"}


def lists(name, n):
    def run():
        decls, ty, _, vals = DOMAINS[name]
        unions = unions_of(decls)
        pre = helpers(name)
        for k, arms in enumerate(arm_lists(name, n)):
            m = ("match", V("v"), tuple((a, ("expr", I(i))) for i, a in enumerate(arms)))
            tail = (g.func(f"f{k}", (("v", ty),), "int", g.ret(m)),) + tuple(("mostra", call(f"f{k}", v)) for v in vals)
            want = covers(arms, ty, unions)
            if want != accepted(model.Program(pre + tail)):
                raise AssertionError(f"the two oracles differ on {arms}")
            yield Packed(f"{name}: {'all' if want else 'some'} values covered", pre, tail)
    return run


# unions of every small shape: the number of variants, and their parameters
def shapes():
    params = [(), ("int",), ("S",), ("U",), ("S", "S"), ("texto", "S"), ("U", "U")]
    S = ("uniao", "S", (("P", ()), ("Q", ())))
    for n in (1, 2, 3):
        for shape in itertools.product(params, repeat=n):
            if n == 3 and (len(set(shape)) != 2 or () not in shape):
                continue
            variants = tuple((chr(65 + i), ps) for i, ps in enumerate(shape))
            yield S, ("uniao", "U", variants)


SPATS = (con("S", "P"), con("S", "Q"), ("pvar", "s"))


def patterns_of(variants, deep):
    sub = {"S": SPATS, "int": (("pint", 1), ("pvar", "i")), "texto": (("ptxt", "a"), ("pvar", "t")), "U": (("pvar", "u"),) + ((con("U", variants[0][0]),) if deep else ())}
    n = 0
    for v, params in variants:
        for args in itertools.product(*[sub[t] for t in params]):
            n += 1
            yield ("pcon", "U", v, tuple(("pvar", f"{a[1]}{j}") if a[0] == "pvar" else a for j, a in enumerate(args)) or None)


def every_shape(n):
    def run():
        k = 0
        for S, U in shapes():
            unions = unions_of((S, U))
            pats = list(patterns_of(U[2], True))
            for size in range(1, n + 1):
                for arms in itertools.combinations(pats, size):
                    # a list in order and in the opposite order
                    for arms in ((arms, arms[::-1]) if size > 1 else (arms,)):
                        for arms in (arms, arms + (("pvar", "resto"),)) if size < n else (arms,):
                            k += 1
                            tail = (S, U, g.func(f"f{k}", (("v", "U"),), "int", g.ret(("match", V("v"), tuple((a, ("expr", I(i))) for i, a in enumerate(arms))))))
                            if covers(arms, "U", unions) != accepted(model.Program(tail)):
                                raise AssertionError(f"the two oracles differ on {arms}")
                            yield Case("shape", tail + (("mostra", I(1)),))
    return run


def complete():
    """For every shape, the list with all of the patterns, and without one."""
    for S, U in shapes():
        pats = [p for p in patterns_of(U[2], False) if p[0] == "pcon"]
        pats = [p for p in pats if not any(q[0] in ("pint", "ptxt") for q in p[3] or ())]
        pats = [p for p in pats if not any(q == ("pvar", "s" + str(j)) for j, q in enumerate(p[3] or ()))]
        for skip in range(len(pats) + 1):
            arms = tuple(pats[:skip] + pats[skip + 1:])
            if not arms:
                continue
            for arms in {arms, arms[::-1], tuple(sorted(arms, key=repr))}:
                tail = (S, U, g.func("f", (("v", "U"),), "int", g.ret(("match", V("v"), tuple((a, ("expr", I(i))) for i, a in enumerate(arms))))))
                if covers(arms, "U", unions_of((S, U))) != accepted(model.Program(tail)):
                    raise AssertionError(f"the two oracles differ on {arms}")
                yield Case("complete list", tail + (("mostra", I(1)),))


# Where the 'iguala' is, and how the union is reached
def places():
    U = ("uniao", "U", (("A", ()), ("B", ("int",))))
    for arms in ((con("U", "A"),), (con("U", "B"),), (con("U", "A"), con("U", "B", ("pint", 1))), (con("U", "A"), con("U", "B", ("pvar", "n"))), (("pvar", "t"),), (con("U", "B", ("pint", 0)), ("pvar", "t"))):
        for kind in ("expr", "block", "empty"):
            def body(i):
                return {"expr": ("expr", I(i)), "block": ("block", (("mostra", I(i)),), I(i)), "empty": ("block", (("mostra", I(i)),), None)}[kind]
            m = lambda e: ("match", e, tuple((a, body(i)) for i, a in enumerate(arms)))
            val = var("U", "B", I(1))
            st = {
                "statement": (g.let("v", "U", val), ("expr", m(V("v")))), "literal": (("expr", m(val)),),
                "function": (g.func("f", (("v", "U"),), None, ("expr", m(V("v")))), g.do(call("f", val))),
                "in a branch": (g.let("v", "U", val), ("se", g.TRUE, (("expr", m(V("v"))),), (), None)),
                "in a loop": (g.let("v", "U", val), ("para", "i", I(0), I(2), None, (("expr", m(V("v"))),))),
                "in an arm": (g.let("v", "U", val), ("expr", ("match", I(1), ((("pint", 1), ("block", (("expr", m(V("v"))),), None)), (("pvar", "z"), ("block", (), None)))))),
                "in a method": (("met", "U", "m", (), None, (("expr", m(("alvo",))),)), g.do(("mcall", val, "m", ()))),
                "field": (("registo", "R", (("u", "U"),)), ("expr", m(g.get(("new", "R", (("u", val),)), "u")))),
                "element": (("expr", m(g.idx(g.vec("U", val), 0))),),
                "last, gives": (g.func("g", (("v", "U"),), "int", g.let("r", "int", m(V("v"))), g.ret(V("r"))), ("mostra", call("g", val))),
                "argument": (g.func("h", (("k", "int"),), None, ("mostra", V("k"))), g.do(call("h", m(val)))),
            }
            for label, s in st.items():
                yield Case(f"{label} {kind}", (U,) + s + (("mostra", I(9)),))


OTHER = {
    "bool": ((), g.TRUE), "real": ((), g.R("1.5")), "vec": ((), g.vec("int", I(1))), "R": ((("registo", "R", (("n", "int"),)),), ("new", "R", (("n", I(1)),))),
    "int": ((), I(1)), "texto": ((), g.T("a")), "O": ((("uniao", "O", (("A", ()), ("C", ("int",)))),), var("O", "A")), "opt": ((), V("op")),
}


def wrong_patterns():
    """Each kind of pattern on each type: only those of the type are valid."""
    U = ("uniao", "U", (("A", ()), ("B", ("int",)), ("C", ("int", "texto")), ("D", ("U",))))
    opts = (g.let("op", ("opt", "int"), I(1)),)
    bad = [con("U", "A"), con("U", "B", ("pvar", "x")), ("pint", 1), ("ptxt", "a"), ("pvar", "x"), con("O", "A"), con("X", "A"), con("U", "Z"), con("int", "A"), con("U", "Z", ("pint", 1))]
    cases = [(OTHER[t][0], OTHER[t][1], p) for t in OTHER for p in bad]
    v = var("U", "A")
    sub = [("pint", 1), ("ptxt", "a"), ("pvar", "x"), con("U", "A"), con("U", "Z"), con("O", "A"), con("U", "B", ("ptxt", "z"))]
    cases += [((), v, con("U", "A", s)) for s in sub] + [((), v, con("U", "B", s)) for s in sub] + [((), v, con("U", "D", s)) for s in sub]
    cases += [((), v, con("U", "C", s, t)) for s in sub for t in sub] + [((), v, con("U", "C", s)) for s in sub] + [((), v, con("U", "B", s, ("pvar", "y"))) for s in sub]
    cases += [((), v, con("U", "C", ("pvar", "a"), ("pvar", "b"), ("pvar", "c"))), ((), v, con("U", "C", ("pvar", "a"), ("pvar", "a"))), ((), v, ("pvar", "U")), ((), v, ("pvar", "tam")), ((), v, ("pvar", "int"))]
    for decls, e, p in cases:
        for after in (True, False):
            for value in (True, False):
                arms = ((p, ("expr", I(1)) if value else ("block", (), None)), (("pvar", "resto"), ("expr", I(2)) if value else ("block", (), None)))
                if not after:
                    arms = arms[::-1]
                m = ("match", e, arms)
                yield Case("pattern", (U,) + decls + opts + ((("mostra", m),) if value else (("expr", m), ("mostra", I(3)))))
        yield Case("pattern se iguala", (U,) + decls + opts + (("seiguala", e, p, (("mostra", I(1)),), (("mostra", I(2)),)),))


def types_of_arms():
    """The arms of an 'iguala' that is used as a value have one type."""
    vals = (I(1), g.R("1.5"), g.TRUE, g.T("a"), g.NULO, V("op"), V("r"), var("U", "A"), g.vec("int", I(1)), None)
    pre = (("uniao", "U", (("A", ()), ("B", ()))), ("registo", "R", (("n", "int"),)), g.let("op", ("opt", "int"), I(1)), g.let("r", "R", ("new", "R", (("n", I(1)),))), g.let("u", "U", var("U", "B")))
    for a, b in itertools.product(vals, repeat=2):
        arm = lambda x: ("block", (), None) if x is None else ("expr", x)
        blk = lambda x: ("block", (("mostra", I(0)),), x)
        for wrap in (arm, blk):
            m = ("match", V("u"), ((con("U", "A"), wrap(a)), (con("U", "B"), wrap(b))))
            yield Case("types", pre + (("mostra", m),))
            yield Case("types", pre + (("expr", m), ("mostra", I(1))))
            for ty in ("int", "real", "texto", ("opt", "int"), "R"):
                yield Case("types", pre + (g.let("x", ty, m), ("mostra", I(1))))


def many(sizes, depths):
    """Lists of many arms, complete or without one of them; deep patterns."""
    def run():
        k = 0

        def case(decls, ty, arms, label):
            nonlocal k
            k += 1
            tail = tuple(decls) + (g.func(f"f{k}", (("v", ty),), "int", g.ret(("match", V("v"), tuple((a, ("expr", I(i))) for i, a in enumerate(arms))))),)
            if covers(arms, ty, unions_of(decls)) != accepted(model.Program(tail)):
                raise AssertionError(f"the two oracles differ on {arms}")
            return Case(label, tail + (("mostra", I(1)),))

        for n in sizes:
            U = ("uniao", "U", tuple((f"V{i}", ((), ("int",), ("U", "texto"))[i % 3]) for i in range(n)))
            pats = [con("U", f"V{i}", *[("pvar", f"b{j}") for j in range(i % 3)]) for i in range(n)]
            narrow = {1: lambda i: con("U", f"V{i}", ("pint", i)), 2: lambda i: con("U", f"V{i}", con("U", f"V{i}", ("pvar", "x"), ("pvar", "y")), ("pvar", "z")), 0: lambda i: con("U", f"V{i}")}
            yield case((U,), "U", pats, "all")
            yield case((U,), "U", pats[::-1], "all")
            for i in sorted({0, 1, n // 2, n - 3, n - 2, n - 1}):
                yield case((U,), "U", pats[:i] + pats[i + 1:], "all but one")
                yield case((U,), "U", (pats[:i] + pats[i + 1:])[::-1], "all but one")
                yield case((U,), "U", pats[:i] + [narrow[i % 3](i)] + pats[i + 1:], "all but a part of one")
                yield case((U,), "U", pats[:i] + pats[i + 1:] + [narrow[i % 3](i)], "all but a part of one")
                yield case((U,), "U", pats[:i] + pats[i + 1:] + [pats[0]], "one twice")
            m = min(n, 9)
            S = ("uniao", "S", tuple((f"P{i}", ()) for i in range(m)))
            D = ("uniao", "D", (("K", ("S", "S")),))
            pairs = [con("D", "K", con("S", f"P{i}"), con("S", f"P{j}")) for i in range(m) for j in range(m)]
            for i in sorted({0, 1, m, m * m // 2, m * m - 2, m * m - 1}):
                for xs in (pairs, pairs[::-1], [pairs[(x % m) * m + x // m] for x in range(m * m)]):
                    yield case((S, D), "D", xs[:i] + xs[i + 1:], "pairs but one")
            yield case((S, D), "D", pairs, "pairs")
            for i in (0, m // 2, m - 1):
                row = con("D", "K", con("S", f"P{i}"), ("pvar", "r"))
                col = con("D", "K", ("pvar", "r"), con("S", f"P{i}"))
                for extra in ((row,), (col,), (row, col)):
                    left = [q for q in pairs if not any(matches(e, ("D", "K", tuple(("S", a[2], ()) for a in q[3]))) for e in extra)]
                    yield case((S, D), "D", left + list(extra), "a row and pairs")
                    yield case((S, D), "D", list(extra) + left, "a row and pairs")
                    yield case((S, D), "D", list(extra) + left[1:], "a row and pairs but one")
                    yield case((S, D), "D", left[:-1] + list(extra), "a row and pairs but one")
        L = ("uniao", "L", (("N", ()), ("C", ("int", "L"))))
        for d in depths:
            def deep(i, last):
                p = last
                for _ in range(i):
                    p = con("L", "C", ("pvar", f"h{_}"), p)
                return p
            full = [deep(i, con("L", "N")) for i in range(d)] + [deep(d, ("pvar", "t"))]
            for xs in (full, full[::-1]):
                yield case((L,), "L", xs, "deep")
                for i in sorted({0, 1, d // 2, d - 1, d}):
                    if i <= d:
                        yield case((L,), "L", xs[:i] + xs[i + 1:], "deep but one")
            yield case((L,), "L", full[:-1] + [deep(d, con("L", "N")), deep(d, con("L", "C", ("pint", 1), ("pvar", "t"))), deep(d, con("L", "C", ("pvar", "h"), ("pvar", "t")))], "deep")
            yield case((L,), "L", full[:-1] + [deep(d, con("L", "N")), deep(d, con("L", "C", ("pint", 1), ("pvar", "t")))], "deep but some")
    return run


def spaces(tier):
    q = tier == "quick"
    for name, n in (("enum", 4 if q else 6), ("int", 3 if q else 5), ("texto", 4 if q else 6), ("spellings of texts", 3 if q else 4), ("spellings", 2 if q else 3), ("leaves", 3 if q else 4), ("nested", 2 if q else 3), ("list", 3 if q else 4), ("three", 3 if q else 4)):
        yield Space(f"lists of arms: {name}", f"every list of up to {n} of {len(DOMAINS[name][2])} patterns", lists(name, n), judge_packed, 200)
    yield Space("shapes of unions", f"unions of up to 3 variants, combinations of up to {2 if q else 3} of their patterns", every_shape(2 if q else 3), judge_programs, 100)
    yield Space("complete lists", "the product of the variants of parameters, with one missing", complete, judge_programs, 40)
    yield Space("places", "'iguala' in 11 places", places, judge_programs, 20)
    yield Space("patterns of another type", "each kind of pattern on each type", wrong_patterns, judge_programs, 40)
    yield Space("types of arms", "pairs of arms of each type", types_of_arms, judge_programs, 40)
    yield Space("many arms", "unions of up to 64 (300) variants, up to 81 pairs of variants, patterns of up to 8 (12) levels: complete, without one arm, or without a part of one", many((4, 5, 8, 16, 17, 32, 64) if q else (4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 300), range(3, 9) if q else range(3, 13)), judge_programs, 10)
