"""C14: modules: what is imported, once, in which order, and who sees what."""
import itertools

from mc import gen as g
from mc.harness import Case, Space, Text, judge_programs, judge_texts

PROP = "C14"
LEVEL = "model_checking"
RULE = ("every graph of imports, every mode of import, every way of naming an item of another module and every history of operations on the "
        "state of modules in the stated sets: acceptance (with the file and the line of the rejection), the order in which the entry code runs, and "
        "what is shown are compared with the model; two cases are distinct when their sources differ")
V, I, B, T, call, get, put = g.V, g.I, g.B, g.T, g.call, g.get, g.put
MODES = (None, "alias", "items", "global")


def usa(k, mode, alias=None):
    if mode == "alias":
        return ("usa", f"{k}.ama", "alias", alias or "q" + k)
    if mode == "items":
        return ("usa", f"{k}.ama", "items", (f"x{k}", f"f{k}"))
    return ("usa", f"{k}.ama", "global", None)


def item(k, mode, name, *args):
    """A value or a call of an item of module k, from a module that imports it."""
    q = V("q" + k)
    if args or name.startswith("f"):
        return ("mcall", q, name, args) if mode == "alias" else call(name, *args)
    return get(q, name) if mode == "alias" else V(name)


def module(k, imports):
    """A module with state, whose entry code shows itself and what it imports.
    imports: [(module, mode)]."""
    use = ()
    for j, m in imports:
        use += g.show(item(j, m, "x" + j), item(j, m, "f" + j), item(j, m, "x" + j))
    return tuple(usa(j, m) for j, m in imports) + (
        g.let("x" + k, "int", I(ord(k[0]) % 7 * 100)),
        g.func("f" + k, (), "int", put("x" + k, I(1), "+="), ("mostra", T("f" + k)), g.ret(V("x" + k))),
        ("mostra", T("in " + k)),
    ) + use + (put("x" + k, I(10), "+="), ("mostra", T("out " + k)))


def ordered(names, most):
    return [p for r in range(most + 1) for p in itertools.permutations(names, r)]


def graph(edges):
    """edges: {module: [(module, mode)]}"""
    return {f"{k}.ama": module(k, e) for k, e in edges.items()}


def graphs3():
    """Every graph of imports of 3 modules, with cycles and loops."""
    al = lambda p: [(x, "alias") for x in p]
    for m in ordered(("a", "b", "main"), 3):
        for a in ordered(("a", "b", "main"), 2):
            for b in ordered(("a", "b", "main"), 2):
                yield Case(f"main:{m} a:{a} b:{b}", graph({"main": al(m), "a": al(a), "b": al(b)}))


def graphs4(mode):
    al = lambda p: [(x, mode) for x in p]
    for m in ordered("abc", 3):
        for a in ordered("bc", 2):
            for b in ordered("ac", 2):
                for c in ordered("ab", 2):
                    yield Case(f"main:{m} a:{a} b:{b} c:{c}", graph({"main": al(m), "a": al(a), "b": al(b), "c": al(c)}))


def modes3():
    """Every mode of every import of 3 modules, in both orders."""
    for ma, mb, ab, ba in itertools.product(MODES, repeat=4):
        for flip in (0, 1):
            m = [x for x in (("a", ma), ("b", mb)) if x[1]]
            if flip:
                if len(m) < 2:
                    continue
                m.reverse()
            yield Case(f"{m} {ab} {ba}", graph({"main": m, "a": [("b", ab)] if ab else [], "b": [("a", ba)] if ba else []}))


def modes4():
    """Every mode of every import of 4 modules without cycles."""
    for ma, mb, mc, ab, ac, bc in itertools.product(MODES, repeat=6):
        e = {"main": [("a", ma), ("b", mb), ("c", mc)], "a": [("b", ab), ("c", ac)], "b": [("c", bc)], "c": []}
        yield Case(f"{e}", graph({k: [x for x in l if x[1]] for k, l in e.items()}))


def repeated():
    """The same module imported twice or three times by the same module."""
    ways = [("alias", "q"), ("alias", "r"), ("items", ("xa",)), ("items", ("fa",)), ("items", ("xa", "fa")), ("items", ("xa", "xa")), ("global", None)]
    for n in (1, 2, 3):
        for ws in itertools.product(ways, repeat=n):
            us = tuple(("usa", "a.ama", m, arg) for m, arg in ws)
            for e in (V("xa"), call("fa"), get(V("q"), "xa"), ("mcall", V("r"), "fa", ())):
                yield Case(f"{ws}", {"main.ama": us + (("mostra", T("m")), ("mostra", e)), "a.ama": module("a", [])})


# every kind of item
ITEMS = (
    g.let("x", "int", I(5)), g.let("l", ("vec", "int"), g.vec("int", I(1), I(2))),
    ("registo", "P", (("n", "int"),)), ("uniao", "W", (("A", ()), ("C", ("int",)))),
    g.let("p", "P", ("new", "P", (("n", I(3)),))), g.let("o", ("opt", "int"), I(4)), g.let("w", "W", ("variant", "W", "C", (I(6),))),
    g.func("f", (("z", "int"),), "int", g.ret(B("+", V("z"), V("x")))), g.func("np", (("z", "int"),), "P", g.ret(("new", "P", (("n", V("z")),)))),
    g.func("põe", (("z", "int"),), None, put("x", V("z"))),
    ("met", "P", "dobro", (), "int", (g.ret(B("*", get(("alvo",), "n"), I(2))),)),
    ("met", "int", "tri", (), "int", (g.ret(B("*", ("alvo",), I(3))),)),
    ("met", "W", "eh", (), "bool", (g.ret(g.TRUE),)),
)
NAMES = ("x", "l", "p", "o", "w", "f", "np", "põe", "P", "W", "tam", "nada", "int")


def uses(path):
    """Every use of every item; `path` is the modules before the name."""
    q = None
    for n in path:
        q = V(n) if q is None else get(q, n)
    val = lambda n: V(n) if q is None else get(q, n)
    fn = lambda n, *a: call(n, *a) if q is None else ("mcall", q, n, a)
    ty = lambda n: n if q is None else ("path",) + tuple(path) + (n,)
    for n in NAMES:
        yield f"read {n}", (("mostra", val(n)),)
        yield f"store {n}", (put(val(n), I(8)), ("mostra", I(1)))
        yield f"add {n}", (put(val(n), I(8), "+="), ("mostra", I(1)))
        yield f"call {n}", (("mostra", fn(n, I(2))),)
        if len(path) < 2:
            yield f"type {n}", (("decl", ("v",), ("opt", ty(n)), g.NULO), ("mostra", B("==", V("v"), g.NULO)))
            yield f"type of par {n}", (g.func("g", (("v", ("opt", ty(n))),), None, ("mostra", I(5))), g.do(call("g", g.NULO)))
            if q is None or n in ("P", "nada"):
                yield f"new {n}", (("mostra", get(("new", ty(n), (("n", I(9)),)), "n")),)
            if q is None:
                yield f"variant {n}", (("expr", ("match", ("variant", n, "C", (I(3),)), ((("pcon", n, "C", (("pvar", "k"),)), ("expr", V("k"))), (("pvar", "_"), ("expr", I(0)))))),)
            yield f"method of {n}", (("met", ty(n), "novo", (), "int", (g.ret(I(1)),)), ("mostra", I(2)))
    yield "element", (put(("idx", val("l"), I(0)), I(7)), ("mostra", ("idx", val("l"), I(0))), ("mostra", val("l")))
    yield "element +=", (put(("idx", val("l"), I(1)), I(7), "+="), ("mostra", val("l")))
    yield "anexa", (g.do(call("anexa", val("l"), I(3))), ("mostra", call("tam", val("l"))))
    yield "field", (put(get(val("p"), "n"), I(7)), ("mostra", get(val("p"), "n")), ("mostra", ("mcall", val("p"), "dobro", ())))
    yield "field +=", (put(get(val("p"), "n"), I(7), "+="), ("mostra", ("mcall", val("p"), "dobro", ())))
    yield "method", (("mostra", ("mcall", fn("np", I(4)), "dobro", ())), ("mostra", ("mcall", ("par", I(4)), "tri", ())), ("mostra", ("mcall", val("w"), "eh", ())))
    yield "set", (g.do(fn("põe", I(50))), ("mostra", val("x")), ("mostra", fn("f", I(1))))
    yield "fstr", (("mostra", ("fstr", ("<", val("x"), "|", fn("f", I(1)), ">"))),)
    yield "option", (("mostra", get(val("o"), "valor")), ("mostra", ("mcall", val("o"), "valor_ou", (I(0),))))
    yield "module", (("mostra", q),) if q is not None else (("mostra", I(0)),)
    yield "module stored", (g.let("z", "int", q),) if q is not None else (("mostra", I(0)),)
    yield "module assigned", (put(q, I(1)),) if q is not None else (("mostra", I(0)),)
    yield "local", (g.func("g", (), None, g.let("y", "int", val("x")), ("mostra", V("y")), g.do(fn("põe", I(9))), ("mostra", val("x"))), g.do(call("g")))
    yield "operand", (("mostra", B("-", val("x"), B("*", fn("f", val("x")), I(2)))),)
    yield "shadowed", (("se", g.TRUE, (g.let("x", "int", I(70)), ("mostra", V("x")), ("mostra", val("x"))), (), None), ("mostra", val("x")))


def visibility():
    """main imports a in every way; a defines the items, or imports them."""
    for m1 in ("alias", "global", "items", "some"):
        us = ("usa", "a.ama", "alias", "q") if m1 == "alias" else ("usa", "a.ama", "global", None) if m1 == "global" else ("usa", "a.ama", "items", ("x", "l", "p", "o", "w", "f", "np", "põe", "P", "W") if m1 == "items" else ("f", "p"))
        for inner in (None, "alias", "global", "items"):
            if inner is None:
                files = {"a.ama": ITEMS}
            else:
                ub = ("usa", "b.ama", "alias", "r") if inner == "alias" else ("usa", "b.ama", "global", None) if inner == "global" else ("usa", "b.ama", "items", ("x", "l", "p", "o", "w", "f", "np", "põe", "P", "W"))
                files = {"a.ama": (ub,), "b.ama": ITEMS}
            for path in ((), ("q",), ("q", "r"), ("r",)):
                for label, st in uses(path):
                    yield Case(f"{m1}/{inner} {'.'.join(path)} {label}", dict(files, **{"main.ama": (us,) + st}))


SHARED = (
    ("registo", "P", (("n", "int"),)),
    g.let("n", "int", I(1)), g.let("p", "P", ("new", "P", (("n", I(1)),))), g.let("l", ("vec", "int"), g.vec("int", I(1))),
    g.func("soma", (), None, put("n", I(1), "+=")), g.func("dobra", (), None, put("n", I(2), "*=")),
    g.func("novo", (), None, put("p", ("new", "P", (("n", V("n")),)))), g.func("lim", (), None, put("l", g.vec("int", V("n")))),
)


def state(depth, modes):
    """Histories of operations on the state of a module that two others share."""
    for m1, m2 in modes:
        def names(m):
            u = ("usa", "s.ama", "alias", "s") if m == "alias" else ("usa", "s.ama", "items", ("n", "p", "l", "soma", "dobra", "novo", "lim", "P")) if m == "items" else ("usa", "s.ama", "global", None)
            v = (lambda x: get(V("s"), x)) if m == "alias" else V
            c = (lambda x: g.do(("mcall", V("s"), x, ()))) if m == "alias" else (lambda x: g.do(call(x)))
            return u, v, c
        u, v, c = names(m1)
        # a module between main and the shared one
        mid = (u, g.let("n", "int", I(7)) if m1 == "alias" else g.let("nn", "int", I(7)),
               g.func("a_soma", (), None, c("soma"), put("n" if m1 == "alias" else "nn", I(100), "+=")), g.func("a_n", (), "int", g.ret(v("n"))),
               g.func("a_p", (), ("path", "s", "P") if m1 == "alias" else "P", g.ret(v("p"))), g.func("a_campo", (), None, put(get(v("p"), "n"), I(5), "+=")), g.func("meu", (), "int", g.ret(V("n" if m1 == "alias" else "nn"))))
        u2, v2, c2 = names(m2)
        q = lambda f: ("mcall", V("a"), f, ())
        ops = (("soma", (c2("soma"),)), ("a.soma", (g.do(q("a_soma")),)), ("dobra", (c2("dobra"),)), ("novo", (c2("novo"),)), ("campo", (put(get(v2("p"), "n"), I(9)),)),
               ("a.campo", (g.do(q("a_campo")),)), ("anexa", (g.do(call("anexa", v2("l"), v2("n"))),)), ("lim", (c2("lim"),)), ("guarda", (put("k", v2("p")),)), ("k.n", (put(get(V("k"), "n"), I(3)),)))
        show = (("mostra", v2("n")), ("mostra", q("a_n")), ("mostra", get(v2("p"), "n")), ("mostra", get(q("a_p"), "n")), ("mostra", v2("l")), ("mostra", get(V("k"), "n")), ("mostra", q("meu")))
        pt = ("path", "s", "P") if m2 == "alias" else "P"
        for i, seq in enumerate(itertools.product(ops, repeat=depth)):
            body = show
            for _, st in seq:
                body += st + show
            yield Case(f"{m1}/{m2} " + " ; ".join(n for n, _ in seq), {"s.ama": SHARED, "a.ama": mid, "main.ama": (u2, ("usa", "a.ama", "alias", "a"), g.let("k", pt, v2("p"))) + body})


def judge_state(worker, cases):
    """Packs the histories of programs whose modules are the same: each one
    starts from its own functions that put the state back."""
    from mc.harness import _steps, expect_of
    from mc import model

    outs = judge_programs(worker, cases)
    for c, o in zip(cases, outs):
        if not o["bad"] and not o.get("skip"):
            c.ops, c.lines = tuple(c.label.split(" ", 1)[1].split(" ; ")), 7
            p = model.Program(c.files)
            o["steps"] = _steps(c, expect_of(p)[1])
    return outs


class History(Case):
    __slots__ = ("ops", "lines")


def histories(depth, modes):
    def run():
        for c in state(depth, modes):
            yield History(c.label, c.files)
    return run


KINDS = ("var", "func", "registo", "uniao", "metint", "met")


def defs(k, n):
    """A definition of each kind, the same name in every module."""
    return {
        "var": (g.let("n", "int", I(n)),),
        "func": (g.func("n", (), "int", g.ret(I(n))),),
        "registo": (("registo", "n", ((f"a{k}", "int"),)),),
        "uniao": (("uniao", "n", (("Z", ("int",)),) * 0 + tuple((f"V{i}", ()) for i in range(n % 3)) + (("Y", ("int",)),)),),
        "metint": (("met", "int", "n", (), "int", (g.ret(I(n)),)),),
        "met": (("registo", "R" + k, (("b", "int"),)), ("met", "R" + k, "n", (), "int", (g.ret(I(n)),))),
    }


def own_use(kind, k):
    return {
        "var": ("mostra", V("n")), "func": ("mostra", call("n")), "registo": ("mostra", get(("new", "n", ((f"a{k}", I(1)),)), f"a{k}")),
        "uniao": ("mostra", ("match", ("variant", "n", "Y", (I(41),)), ((("pcon", "n", "Y", (("pvar", "z"),)), ("expr", V("z"))), (("pvar", "_"), ("expr", I(0)))))),
        "metint": ("mostra", ("mcall", ("par", I(1)), "n", ())), "met": ("mostra", ("mcall", ("new", "R" + k, (("b", I(1)),)), "n", ())),
    }[kind]


def same_names():
    """The same name, defined as every kind of thing in two modules."""
    for ka, kb in itertools.product(KINDS, KINDS + (None,)):
        for km in KINDS + (None,):
            for ma, mb in itertools.product(("alias", "global", "n"), repeat=2):
                def im(k, m):
                    return ("usa", f"{k}.ama", "alias", "q" + k) if m == "alias" else ("usa", f"{k}.ama", "items", ("n",)) if m == "n" else ("usa", f"{k}.ama", "global", None)
                if kb is None and mb != "alias":
                    continue
                a = defs("a", 1)[ka] + (g.func("usa_a", (), None, own_use(ka, "a")), own_use(ka, "a"))
                b = (defs("b", 2)[kb] + (g.func("usa_b", (), None, own_use(kb, "b")), own_use(kb, "b"))) if kb else ()
                main = (im("a", ma),) + ((im("b", mb),) if kb else ()) + (defs("main", 3)[km] + (own_use(km, "main"),) if km else ())
                main += (("mostra", T("m")),)
                if ma == "alias":
                    main += (g.do(("mcall", V("qa"), "usa_a", ())),)
                if kb and mb == "alias":
                    main += (g.do(("mcall", V("qb"), "usa_b", ())),)
                yield Case(f"{ka} {kb} {km} {ma} {mb}", {"main.ama": main, "a.ama": a, "b.ama": b} if kb else {"main.ama": main, "a.ama": a})


MOVES = {
    "two folders": {"a.ama": "d/m.ama", "b.ama": "e/m.ama"}, "one in the other": {"a.ama": "m.ama", "b.ama": "d/m.ama"}, "like the program": {"a.ama": "d/main.ama", "b.ama": "d/e/main.ama"},
    "folders like modules": {"a.ama": "m/m.ama", "b.ama": "m.ama"}, "deep": {"a.ama": "d/e/m.ama", "b.ama": "e/d/m.ama"},
}


def moved(c, names):
    """The same program, with its modules in other files."""
    files = {}
    for f, body in c.files.items():
        files[names.get(f, f)] = tuple(("usa", names.get(s[1], s[1]), *s[2:]) if s[0] == "usa" else s for s in body)
    return files


def same_files():
    """Modules whose files have the same name, in other folders."""
    for how, names in MOVES.items():
        for c in same_names():
            yield Case(f"{how}: {c.label}", moved(c, names))
        for c in modes3():
            yield Case(f"{how}: {c.label}", moved(c, names))
    # the items of two modules are different variables, functions and types with the same names
    item = lambda k, n: (g.let("n", "int", I(n)), ("registo", "P", (("n", "int"),)), g.let("p", "P", ("new", "P", (("n", I(n * 10)),))), g.func("f", (), "int", put("n", I(1), "+="), g.ret(V("n"))),
                         g.func("g", (), "P", put(get(V("p"), "n"), I(1), "+="), g.ret(V("p"))), ("met", "P", "mais", (), "int", (g.ret(B("+", get(("alvo",), "n"), I(n * 1000))),)))
    uses = lambda q: (("mostra", get(V(q), "n")), ("mostra", ("mcall", V(q), "f", ())), put(get(V(q), "n"), I(5), "+="), ("mostra", get(V(q), "n")), ("mostra", get(get(V(q), "p"), "n")), ("mostra", get(("mcall", V(q), "g", ()), "n")),
                      put(get(get(V(q), "p"), "n"), I(7)), ("mostra", ("mcall", get(V(q), "p"), "mais", ())), g.let("k" + q, ("path", q, "P"), get(V(q), "p")), ("mostra", ("mcall", V("k" + q), "mais", ())))
    mixed = (put(get(V("qa"), "p"), get(V("qb"), "p")),), (g.let("z", ("path", "qa", "P"), get(V("qb"), "p")),), (put("p", get(V("qa"), "p")),), (("mostra", B("==", get(V("qa"), "p"), get(V("qb"), "p"))),)
    for how, names in MOVES.items():
        for order in (("qa", "qb"), ("qb", "qa"), ("qa", "qb", "qa")):
            for own in (False, True):
                for mix in ((),) + mixed:
                    for chain in (False, True):
                        fs = {"a.ama": ((usa("b", "alias"),) if chain else ()) + item("a", 1) + (uses("qb") if chain else ()), "b.ama": item("b", 2), "main.ama": (usa("a", "alias"), usa("b", "alias")) + (item("m", 3) if own else ()) + sum((tuple(s for s in uses(q) if s[0] != "decl") for q in order), ())
                              + (g.show(V("n"), call("f"), ("mcall", V("p"), "mais", ())) if own else ()) + mix}
                        yield Case(f"{how}: {order} {own} {chain} {mix}", moved(Case("", fs), names))


S = {
    "show": (("mostra", T("e")),),
    "block": (("se", g.TRUE, (g.let("b", "int", I(3)), put("b", I(1), "+="), ("mostra", V("b"))), (), None),),
    "para": (("para", "i", I(0), I(3), None, (g.let("c", "int", B("*", V("i"), I(2))), ("mostra", V("c")))),),
    "para2": (("para", "i", I(0), I(2), None, (("para", "j", I(0), I(2), None, (("mostra", B("+", V("i"), V("j"))),)),)),),
    "enq": (g.let("k", "int", I(0)), ("enquanto", B("<", V("k"), I(2)), (put("k", I(1), "+="), ("mostra", V("k"))))),
    "esc": (("escolha", I(2), ((I(1), (("mostra", I(1)),)), (I(2), (("mostra", I(22)),))), None),),
    "igu": (("uniao", "Z", (("A", ("int",)), ("C", ()))), ("expr", ("match", ("variant", "Z", "A", (I(5),)), ((("pcon", "Z", "A", (("pvar", "y"),)), ("block", (("mostra", V("y")),), None)), (("pvar", "_"), ("block", (), None)))))),
    "err": (("mostra", B("//", I(1), I(0))),),
    "ferr": (g.func("h", (("d", "int"),), "int", g.ret(B("//", I(1), V("d")))), ("mostra", call("h", I(0)))),
    "lerr": (g.let("v", ("vec", "int"), g.vec("int", I(1))), ("mostra", g.idx(V("v"), 1))),
    "vec": (g.let("v", ("vec", "int"), g.vec("int", I(1))), g.do(call("anexa", V("v"), I(2))), ("mostra", V("v"))),
    "rec": (g.func("fat", (("d", "int"),), "int", ("se", B("<", V("d"), I(2)), (g.ret(I(1)),), (), None), g.ret(B("*", V("d"), call("fat", B("-", V("d"), I(1)))))), ("mostra", call("fat", I(5)))),
}


def entries():
    """Every pair of bodies of entry code in two modules, imported in a chain
    and next to each other; main has locals of its own."""
    M = (("se", g.TRUE, (g.let("w", "int", I(8)), ("mostra", V("w"))), (), None), ("mostra", T("main")))
    for (na, a), (nb, b) in itertools.product(S.items(), repeat=2):
        yield Case(f"{na} {nb} chain", {"main.ama": (usa("a", "alias"),) + M, "a.ama": (usa("b", "alias"),) + a, "b.ama": b})
        yield Case(f"{na} {nb} row", {"main.ama": (usa("a", "alias"), usa("b", "alias")) + M, "a.ama": a, "b.ama": b})
        yield Case(f"{na} {nb} main", {"main.ama": (usa("a", "alias"),) + b, "a.ama": a})


def traces():
    """Runtime errors that go through the functions of three modules."""
    f = lambda n, body: g.func(n, (("d", "int"),), "int", ("mostra", T(n)), g.ret(body))
    for ma, mb, kind in itertools.product(("alias", "global", "items"), ("alias", "global", "items"), ("//", "idx", "nulo", "none", "deep")):
        bad = {"//": B("//", I(1), V("d")), "idx": ("idx", g.vec("int", I(1)), V("d")), "nulo": get(("cast", g.NULO, ("opt", "int")), "valor"), "none": V("d"), "deep": call("fb", V("d"))}[kind]
        imp = lambda k, m: ("usa", f"{k}.ama", "alias", "q" + k) if m == "alias" else ("usa", f"{k}.ama", "items", ("f" + k,)) if m == "items" else ("usa", f"{k}.ama", "global", None)
        fn = lambda k, m, x: ("mcall", V("q" + k), "f" + k, (x,)) if m == "alias" else call("f" + k, x)
        b = (f("fb", V("d")), f("fc", bad)) if kind != "deep" else (g.func("fb", (("d", "int"),), "int", g.ret(call("fb", V("d")))),)
        last = "fb" if kind == "deep" else "fc"
        imp_b = ("usa", "b.ama", "alias", "qb") if mb == "alias" else ("usa", "b.ama", "items", (last,)) if mb == "items" else ("usa", "b.ama", "global", None)
        if kind == "deep":
            b = (g.func("fb", (("d", "int"),), "int", ("se", B("==", V("d"), I(-1)), (g.ret(I(0)),), (), None), g.ret(call("fb", B("+", V("d"), I(1))))),)
        inner = ("mcall", V("qb"), last, (V("d"),)) if mb == "alias" else call(last, V("d"))
        a = (imp_b, ("mostra", T("a")), f("fa", B("+", inner, I(1))))
        for pos in ("top", "func", "arg"):
            x = fn("a", ma, I(0 if kind == "//" else 5))
            m = (imp("a", ma),)
            m += {"top": (("mostra", x),), "func": (g.func("g", (), None, ("mostra", I(0)), ("mostra", x)), g.do(call("g"))), "arg": (g.func("g", (("y", "int"),), None, ("mostra", V("y"))), g.do(call("g", x)))}[pos]
            yield Case(f"{kind} {ma} {mb} {pos}", {"main.ama": m, "a.ama": a, "b.ama": b}, None, "main.ama", 400000)


WRONG = {
    "syntax": "se verdadeiro fim", "token": "x: int = 1 2", "char": "mostra \"abc", "type": "y: int = \"a\"", "name": "mostra nada", "dup": "c: int = 1\nc: int = 2", "func": "func h(): int\n  mostra 1\nfim",
    "arg": "mostra tam(1)", "quebra": "quebra", "igu": "uniao Z\n  A,\n  B\nfim\nz: Z = Z::A\nmostra iguala z\n  Z::A => 1\nfim", "reg": "registo P\n  n: int\nfim\nmostra P(m: 1).n", "usa": "usa \"nada.ama\"",
}
LINE = {"dup": (2, 2), "func": (1, 3), "igu": (6, 8), "reg": (4, 4)}


def diagnostics():
    """A mistake of each kind in each module, at several lines: the file and
    the line of the diagnostic; nothing runs."""
    for k, w in WRONG.items():
        for where in ("a.ama", "b.ama", "main.ama"):
            for pre in (0, 1, 3):
                for mode in (" => q", "", " => [ok]"):
                    ok = "func ok()\nfim\n"
                    fs = {"main.ama": f'usa "a.ama"{mode}\n', "a.ama": f'usa "b.ama"{mode}\n' if mode != "" else 'usa "b.ama" => k\n', "b.ama": ""}
                    for f in fs:
                        if mode == " => [ok]":
                            fs[f] += ok if f == "b.ama" else ""
                        elif f != "main.ama":
                            fs[f] += f"x_{f[0]}: int = 1\n"
                    if k == "usa":
                        if pre:
                            continue
                        head = fs[where].split("\n")
                        n = 1 if head[0].startswith("usa") else 0
                        fs[where] = "\n".join(head[:n] + [w] + head[n:])
                        first = n + 1
                        line = (first, first)
                    else:
                        fs[where] += "mostra 5\n" * pre
                        first = fs[where].count("\n") + 1
                        fs[where] += w + "\n"
                        lo, hi = LINE.get(k, (1, 1))
                        line = (first + lo - 1, first + hi - 1)
                        if k in ("char", "syntax"):
                            line = (line[0], line[1] + 1)
                        fs[where] += "mostra 6\n" if k != "char" else ""
                    yield Text(f"{k} in {where}", fs, ("reject", where, line))


def paths():
    """The same file under several paths is the same module."""
    body = "x: int = 0\nfunc mais()\n  x += 1\nfim\nmostra \"m\"\n"
    spell = {"m.ama": ("m", "m.ama", "./m", "./m.ama", "d/../m", ".//m.ama"), "d/m.ama": ("d/m", "d/m.ama", "./d/m.ama", "d//m", "d/../d/m", "d/./m.ama"), "d/e.f/m.ama": ("d/e.f/m", "d/e.f/../e.f/m.ama")}
    for f, ps in spell.items():
        for p1, p2 in itertools.product(ps, repeat=2):
            for quote in "\"'":
                main = f"usa {quote}{p1}{quote} => p\nusa {quote}{p2}{quote} => q\np.mais()\nmostra p.x\nmostra q.x\nq.mais()\nmostra p.x\n"
                yield Text(f"{p1} {p2}", {"main.ama": main, f: body, "d/keep.ama": ""}, ("run", "m\n1\n1\n2\n", None))
            main = f"usa \"{p1}\" => p\nusa \"k\" => k\nk.dois()\nmostra p.x\n"
            yield Text(f"{p1} {p2} through k", {"main.ama": main, f: body, "d/keep.ama": "", "k.ama": f"usa \"{p2}\"\nfunc dois()\n  mais()\n  mais()\nfim\n"}, ("run", "m\n2\n", None))
    # from another folder than that of the modules; paths that leave the folder
    # of the program and come back
    spell = ("m", "./m.ama", "../p/m.ama", "../p/../p/m", "d/../m.ama", "d/../../p/m", "@ROOT@/p/m.ama", "@ROOT@/p/d/../m")
    for p1, p2 in itertools.product(spell, repeat=2):
        main = f"usa \"{p1}\" => p\nusa \"{p2}\" => q\np.mais()\nmostra p.x\nmostra q.x\nq.mais()\nmostra p.x\n"
        more = {"cwd": "p", "root": True}
        yield Text(f"{p1} {p2} in p", {"p/main.ama": main, "p/m.ama": body, "p/d/keep.ama": ""}, ("run", "m\n1\n1\n2\n", None), **more)
        main = f"usa \"{p1}\" => p\nusa \"d/k\" => k\nk.dois()\nmostra p.x\n"
        k = f"usa \"{p2}\"\nfunc dois()\n  mais()\n  mais()\nfim\n"
        yield Text(f"{p1} {p2} in p through k", {"p/main.ama": main, "p/m.ama": body, "p/d/k.ama": k}, ("run", "m\n2\n", None), **more)
    # paths are relative to the current folder, wherever the program is
    for p, ok in (("m", True), ("d/m", False), ("d/n", True), ("n", False)):
        yield Text(f"program in d, {p}", {"d/main.ama": f"usa \"{p}\" => p\nmostra p.x\n", "m.ama": "x: int = 1\n", "d/n.ama": "x: int = 2\n"},
                   ("run", "1\n" if p == "m" else "2\n", None) if ok else ("reject", "d/main.ama", 1), entry="d/main.ama")
    for p in ("n", "./n.ama", "d", "d/", "", ".", "..", "d/n", "m.txt", "m.ama.ama"):
        yield Text(f"no {p}", {"main.ama": f"usa \"{p}\" => p\n", "m.ama": body, "d/m.ama": body}, ("reject", "main.ama", 1))
    # names with marks: those of a text are the ones of the file
    for n in ("it's", "''", "'x'", 'a"b', '"', "a b", " a", "a ", "ação", "日本", "e\u0301", "😀", "#m", "a#b", "{m}", "a{b", "a;b", "a=>b", "-m", "--x", "m,n", "(m)", "a.b", "a.ama.b", "x.amanda", "ama", ".m", "..m", "a..b", "~", "~m", "$HOME", "%41", "a&b", "a*b", "[m]", "?", "m:n", "1", "usa", "fim", "nulo", "a" * 200, "a\\b", "a\tb"):
        for q in "\"'":
            if q in n:
                continue
            for ext in ("", ".ama"):
                if not ext and n.endswith(".ama"):
                    continue
                # what is written in a text, for a name
                lit = n
                for d in ("", "d d/"):
                    yield Text(f"name {n!r}", {"main.ama": f"usa {q}{d}{lit}{ext}{q} => p\nusa \"k\" => k\np.mais()\nk.mais2()\nmostra p.x\n", f"{d}{n}.ama": body, "k.ama": f"usa {q}./{d}{lit}{ext}{q} => [mais]\nfunc mais2()\n  mais()\nfim\n"}, ("run", "m\n2\n", None))
                    yield Text(f"name {n!r}, error", {"main.ama": f"usa {q}{d}{lit}{ext}{q} => p\nmostra 1\n", f"{d}{n}.ama": "mostra 2\nmostra 1 +\n"}, ("reject", f"{d}{n}.ama", 2))
    # files whose names are almost the same are different modules
    near = (("util", "Util"), ("util", "UTIL"), ("d/m", "D/m"), ("d/m", "d/M"), ("\u00e9", "e\u0301"), ("\u00e9", "\u00c9"), ("\u00e9", "e"), ("m", "m_"), ("m", "m.n"), ("m", "n.m"), ("m", "m.ama.b"), ("a b", "ab"), ("a b", "a  b"), ("it's", "its"), ("m", " m"), ("m", "m "), ("m", "mm"), ("d/m", "dm"), ("d/m", "e/m"), ("\ufb01m", "fim"), ("ama", "ama.ama.x"), ("a-b", "a_b"), ("\u00df", "ss"), ("m", "d/../d/m"))
    for x, y in ((a, b) for pair in near for a, b in (pair, pair[::-1])):
        one, two = (f"x: int = {k}\nfunc mais(): int\n  x += {k}\n  retorna x\nfim\nregisto P\n  n: int\nfim\nfunc faz(): P\n  retorna P(n: {k})\nfim\nmostra \"m{k}\"\n" for k in (1, 100))
        files = {f"{x}.ama": one, f"{y}.ama": two, "d/keep.ama": ""}
        for ex, ey in itertools.product(("", ".ama"), repeat=2):
            use = lambda n, how: f"usa \"{n}\" => {how}\n"
            yield Text(f"{x} {y}", {**files, "main.ama": use(x + ex, "a") + use(y + ey, "b") + "mostra a.mais()\nmostra b.mais()\nmostra a.mais()\nmostra a.x + b.x * 1000\nmostra a.faz().n\nmostra b.faz().n\n"}, ("run", "m1\nm100\n2\n200\n3\n200003\n1\n100\n", None))
            yield Text(f"{x} {y}, items", {**files, "main.ama": use(x + ex, "[x]") + use(y + ey, "[mais]") + "mostra x\nmostra mais()\nmostra x\n"}, ("run", "m1\nm100\n1\n200\n1\n", None))
            yield Text(f"{x} {y}, types", {**files, "main.ama": use(x + ex, "a") + use(y + ey, "b") + "mostra 1\np: a::P = b.faz()\n"}, ("reject", "main.ama", 4))
            if "/" not in x + y:
                yield Text(f"{x} {y}, one in the other", {**files, f"{x}.ama": use(y + ey, "z") + one + "mostra z.mais()\n", "main.ama": use(x + ex, "a") + use(y + ey, "b") + "mostra a.mais()\nmostra b.mais()\n"}, ("run", "m100\nm1\n200\n2\n300\n", None))
    # links are other paths to the same file
    links = {"l": "d", "k.ama": "d/m.ama", "e": "d/f", "r.ama": "k.ama", "none.ama": "nothing.ama", "loop.ama": "loop.ama", "nf": "nothing"}
    spell = ("d/m", "l/m", "k", "e/../m", "l/f/../m.ama", "r.ama", "l/../d/m", "./e/../../k.ama", "d/../l/m", "e/./../../l/m", "@ROOT@/e/../m", "@ROOT@/l/m.ama")
    more = {"links": links, "root": True}
    files = {"d/m.ama": body, "d/f/keep.ama": ""}
    bad = {"d/m.ama": "mostra 2\nmostra 1 +\n", "d/f/keep.ama": ""}
    for p1, p2 in itertools.product(spell, repeat=2):
        for decoy in ({}, {"m.ama": "mostra \"other\"\n", "d/k.ama": "mostra \"other\"\n"}):
            main = f"usa \"{p1}\" => p\nusa \"{p2}\" => q\np.mais()\nmostra p.x\nmostra q.x\nq.mais()\nmostra p.x\n"
            yield Text(f"links {p1} {p2}", {**files, **decoy, "main.ama": main}, ("run", "m\n1\n1\n2\n", None), **more)
            main = f"usa \"{p1}\" => p\nusa \"z\" => z\nz.dois()\nmostra p.x\n"
            yield Text(f"links {p1} {p2} through z", {**files, **decoy, "main.ama": main, "z.ama": f"usa \"{p2}\"\nfunc dois()\n  mais()\n  mais()\nfim\n"}, ("run", "m\n2\n", None), **more)
            yield Text(f"links {p1} {p2}, error", {**bad, **decoy, "main.ama": f"usa \"{p1}\" => p\nusa \"{p2}\" => q\n"}, ("reject", "d/m.ama", 2), **more)
    for p in ("none", "loop", "nf/m", "nf/../d/m", "k/m", "k.ama/../d/m", "e/m", "e/../f/m", "nf/.."):
        yield Text(f"no {p}", {**files, "m.ama": body, "main.ama": f"mostra 1\nusa \"{p}\" => p\n"}, ("reject", "main.ama", 2), **more)
    for p, f in (("d/p.ama", "d/p.ama"), ("l/p.ama", "d/p.ama"), ("e/../p.ama", "d/p.ama"), ("e/../../d/p.ama", "d/p.ama"), ("l/f/../p.ama", "d/p.ama"), ("h.ama", "d/p.ama"), ("@/e/../p.ama", "d/p.ama")):
        for src, exp in (("mostra 1\nmostra 2\n", ("run", "1\n2\n", None)), ("mostra 1\nmostra y\n", ("reject", f, 2)), ("mostra 1\nmostra 1 +\n", ("reject", f, 2)), ("mostra 1\nmostra 1 // 0\n", ("run", "1\n", (2, "não pode dividir um número por zero", [])))):
            if p[0] != "@":
                yield Text(f"program {p}", {"d/p.ama": src, "d/f/keep.ama": "", "p.ama": "mostra 7\n"}, exp, entry=p, links={**links, "h.ama": "d/p.ama"})
                yield Text(f"program {p}", {"d/p.ama": src, "d/f/keep.ama": ""}, exp, entry=p, links={**links, "h.ama": "d/p.ama"})
    # a module of the program comes before one of the standard library
    yield Text("mat", {"main.ama": "usa \"mat\" => m\nmostra m.x\n", "mat.ama": "x: int = 77\n"}, ("run", "77\n", None))
    yield Text("mat", {"main.ama": "usa \"mat\" => m\nmostra m.PI > 3.0\n"}, ("run", "verdadeiro\n", None))


def big_modules():
    """Chains, stars and many items."""
    for n in (1, 2, 5, 20, 60, 255, 256, 300):
        mod = lambda i, last: f"x{i}: int = {i}\nmostra {i}\n" + ("" if last else f"mostra q{i + 1}.x{i + 1}\n")
        fs = {f"m{i}.ama": (f"usa \"m{i + 1}\" => q{i + 1}\n" if i < n - 1 else "") + mod(i, i == n - 1) for i in range(n)}
        fs["main.ama"] = "usa \"m0\" => q0\nmostra q0.x0\n"
        out = "".join(f"{i}\n" + (f"{i + 1}\n" if i < n - 1 else "") for i in reversed(range(n))) + "0\n"
        if n <= 60:
            yield Text(f"chain of {n}", fs, ("run", out, None))
        fs = {f"m{i}.ama": f"x{i}: int = {i}\nfunc f{i}(): int\n  x{i} += 1\n  retorna x{i}\nfim\n" for i in range(n)}
        fs["main.ama"] = "".join(f"usa \"m{i}\"\n" for i in range(n)) + "".join(f"mostra f{i}() * 1000 + x{i}\n" for i in range(n))
        yield Text(f"star of {n}", fs, ("run", "".join(f"{(i + 1) * 1000 + i + 1}\n" for i in range(n)), None))
        names = "".join(f"x{i}: int = {i}\n" for i in range(n)) + "".join(f"func f{i}(): int\n  retorna x{i} * 2\nfim\n" for i in range(n))
        uses = "".join(f"mostra q.f{i}() + q.x{i}\n" for i in range(n))
        yield Text(f"{n} items", {"a.ama": names, "main.ama": "usa \"a\" => q\n" + uses}, ("run", "".join(f"{3 * i}\n" for i in range(n)), None))
        yield Text(f"{n} items", {"a.ama": names, "main.ama": "usa \"a\" => [" + ", ".join(f"x{i}, f{i}" for i in range(n)) + "]\n" + uses.replace("q.", "")}, ("run", "".join(f"{3 * i}\n" for i in range(n)), None))


def spaces(tier):
    q = tier == "quick"
    yield Space("graphs of 3 modules", "every ordered list of imports (with self-imports and cycles) of main (up to 3), a and b (up to 2)", graphs3, judge_programs, 60)
    yield Space("graphs of 4 modules", "every ordered list of imports of main (up to 3), a, b and c (up to 2), by alias", lambda: graphs4("alias"), judge_programs, 60)
    if not q:
        yield Space("graphs of 4 modules, global", "the same, with global imports", lambda: graphs4("global"), judge_programs, 60)
        yield Space("graphs of 4 modules, items", "the same, with imports of items", lambda: graphs4("items"), judge_programs, 60)
    yield Space("modes of 3 modules", "no import, alias, items or global for each of 4 imports, in both orders", modes3, judge_programs, 60)
    yield Space("modes of 4 modules", "no import, alias, items or global for each of the 6 imports of 4 modules", modes4, judge_programs, 60)
    yield Space("repeated imports", "every sequence of up to 3 of 7 imports of one module, and 4 uses", repeated, judge_programs, 60)
    yield Space("visibility", "4 imports of a module that defines or imports the items, 4 paths, every use of every kind of item", visibility, judge_programs, 60)
    yield Space("same names", "a name defined as each of 6 kinds in each of 3 modules, with 3 modes of import", same_names, judge_programs, 60)
    yield Space("same files", f"the same name in each of 3 modules, the modes of import of 3 modules, and what two modules declare, when the files have the same name in other folders ({len(MOVES)} ways)", same_files, judge_programs, 60)
    yield Space("shared state", f"every history of {2 if q else 3} of 10 operations on the state of a module that two others share", histories(2 if q else 3, tuple(itertools.product(("alias", "items", "global"), repeat=2)) if not q else (("alias", "alias"), ("items", "alias"), ("global", "items"), ("alias", "global"))), judge_state, 60)
    yield Space("entry code", f"every pair of {len(S)} bodies of entry code in three positions", entries, judge_programs, 40)
    yield Space("errors in modules", "runtime errors through the functions of three modules, by every mode", traces, judge_programs, 40)
    yield Space("diagnostics", f"{len(WRONG)} mistakes, in each of three files, at three lines, with three modes", diagnostics, judge_texts, 40)
    yield Space("paths", "every pair of the spellings of the path of a module; paths of no module; 53 names with marks; 22 pairs of names that are almost the same; pairs of 12 spellings through links", paths, judge_texts, 30)
    yield Space("many modules", "chains and stars of up to 300 modules, up to 300 items", big_modules, judge_texts, 2)
