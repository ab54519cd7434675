"""Lists of many values (arguments, fields, elements, arms …), each position of
which takes each of the values."""
from mc import gen as g
from mc.harness import Packed

V, I, B, call = g.V, g.I, g.B, g.call


def lists(n, types, default, values, prelude=(), only=None, each=lambda e, i: e):
    """Every construct with `n` values of the given types (in turns); `values`
    gives what is tried at a position for its type, the others have the default."""
    ts = [types[i % len(types)] for i in range(n)]
    show = tuple(("mostra", V(f"p{i}")) for i in range(n))
    ps = tuple((f"p{i}", t) for i, t in enumerate(ts))
    rec, uni = ("registo", "Lista", ps), ("uniao", "Muitos", (("Z", ()), ("M", tuple(ts)), ("N", ("int",))))
    fun = g.func("muitos", ps, "int", *show, g.ret(I(n)))
    met = ("met", "int", "muitos", ps, "int", show + (g.ret(("alvo",)),))
    pre = tuple(prelude) + (rec, uni, fun, met)
    pat = ("pcon", "Muitos", "M", tuple(("pvar", f"p{i}") for i in range(n)))
    fields = tuple(("mostra", g.get(V("r_g"), f"p{i}")) for i in range(n))

    def forms(es, t):
        yield "call", (("mostra", call("muitos", *es)),)
        yield "method", (("mostra", ("mcall", I(7), "muitos", tuple(es))),)
        yield "record", (g.let("r_g", "Lista", ("new", "Lista", tuple((f"p{i}", e) for i, e in enumerate(es)))),) + fields
        yield "record reversed", (g.let("r_g", "Lista", ("new", "Lista", tuple((f"p{i}", e) for i, e in reversed(list(enumerate(es)))))),) + fields
        yield "variant", (("expr", ("match", ("variant", "Muitos", "M", tuple(es)), ((pat, ("block", show, None)), (("pvar", "_"), ("block", (), None))))),)

    def uniform(es, t):
        yield "vector", (g.let("l_", ("vec", t), ("list", t, tuple(es))),) + tuple(("mostra", g.idx(V("l_"), i)) for i in range(n))
        yield "vectors", (g.let("l_", ("vec", ("vec", t)), ("list", ("vec", t), tuple(("list", t, (e,)) for e in es))),) + tuple(("mostra", g.idx(V("l_"), i, 0)) for i in range(n))
        arms = tuple((("pint", i), ("expr", e)) for i, e in enumerate(es)) + ((("pvar", "_"), ("expr", default[t])),)
        for k in sorted({0, n // 2, n - 1, n}):
            yield "arms", (g.let("x", t, ("match", I(k), arms)), ("mostra", V("x")))
        body = tuple(("se", B("==", V("k"), I(i)), (g.ret(e),), (), None) for i, e in enumerate(es))
        yield "results", (g.func("r_", (("k", "int"),), t, *body, g.ret(default[t])),) + tuple(("mostra", call("r_", I(k))) for k in range(n + 1))
        yield "anexa", (g.let("l_", ("vec", t), ("list", t, ())),) + tuple(g.do(call("anexa", V("l_"), e)) for e in es) + tuple(("mostra", g.idx(V("l_"), i)) for i in range(n))
        yield "declarations", tuple(g.let(f"d{i}", t, e) for i, e in enumerate(es)) + tuple(("mostra", V(f"d{i}")) for i in range(n))
        yield "stores", (("decl", tuple(f"d{i}" for i in range(n)), t, None),) + tuple(g.put(f"d{i}", e) for i, e in enumerate(es)) + tuple(("mostra", V(f"d{i}")) for i in range(n)) if t in ("int", "real", "texto", "bool") else ()

    for label, kind, of in [("mixed", forms, None)] + [(str(t), uniform, t) for t in types]:
        kinds = ts if of is None else [of] * n
        base = [default[t] for t in kinds]
        tried = [(base, "none")]
        for i in range(n):
            for v in values(kinds[i]):
                tried.append((base[:i] + [v] + base[i + 1:], f"{i}"))
        for v in values(kinds[0]):
            tried.append(([v if x == kinds[0] else d for x, d in zip(kinds, base)], "all"))
        for es, at in tried:
            es = [each(e, i) for i, e in enumerate(es)]
            for name, st in kind(es, of):
                if st and (only is None or name in only):
                    yield Packed(f"{n} {label} {name} at {at}", pre, st)
