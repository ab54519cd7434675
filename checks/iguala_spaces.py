"""Types, patterns and values for the checks of 'iguala'."""
import itertools

from mc import gen as g

W = ("pvar", "w")


def con(u, v, *ps):
    return ("pcon", u, v, tuple(ps) or None)


def var(u, v, *es):
    return ("variant", u, v, tuple(es) or None)


def ps(*names):
    return tuple(("pvar", n) for n in names)


E3 = ("uniao", "E", (("X", ()), ("Y", ()), ("Z", ())))
EPATS = (con("E", "X"), con("E", "Y"), con("E", "Z"), ("pvar", "q"))
EVALS = tuple(var("E", x) for x in "XYZ")


def rename(p, k):
    """The bindings of a pattern get different names."""
    if p[0] == "pvar":
        return ("pvar", p[1] + k)
    if p[0] == "pcon" and p[3]:
        return ("pcon", p[1], p[2], tuple(rename(q, k + str(i)) for i, q in enumerate(p[3])))
    return p


# Literals spelled in different ways
AS = (("ptxt", "a"), ("ptxt", "a", "'a'"))
QS = (("ptxt", "'"), ("ptxt", "'", "'\\''"), ("ptxt", "'", '"\\\'"'))
ONES = (("pint", 1), ("pint", 1, "001"))

# texts and ints that are almost the same
SIMILAR = ("a", " a", "a ", "A", "\ta", "a\n", "á", "a\u0301", "", " ", "0", "00", "aa", "ª")
SIZES = (0, 1, 10, 127, 128, 255, 256, 257, 32768, 65535, 65536, 65537, 2**31, 2**32, 2**32 + 1, 2**53, 2**53 + 1, 2**63 - 2, 2**63 - 1)

# name: (declarations, type, patterns, values)
DOMAINS = {
    "enum": ((E3,), "E", EPATS, EVALS),
    "int": ((), "int", (("pint", 0), ("pint", 1), ("pint", 2), ("pint", 255), ("pint", 2**63 - 1), ("pvar", "x")), tuple(g.I(k) for k in (0, 1, 2, -1, 255, 2**63 - 1))),
    "texto": ((), "texto", (("ptxt", "a"), ("ptxt", ""), ("ptxt", "é"), ("pvar", "x")), tuple(g.T(t) for t in ("a", "", "é", "e", "aa"))),
    "spellings of texts": ((), "texto", AS + QS + (("ptxt", '"'), ("ptxt", '"', "'\"'"), ("ptxt", "\n"), ("ptxt", "\n", '"\n"'), ("ptxt", "\\q"), ("pvar", "x")), tuple(g.T(t) for t in ("a", "'", '"', "\n", "\\q", "q"))),
    "similar texts": ((), "texto", tuple(("ptxt", t) for t in SIMILAR) + (("pvar", "x"),), tuple(g.T(t) for t in SIMILAR)),
    "similar ints": ((), "int", tuple(("pint", n) for n in SIZES) + (("pvar", "x"),), tuple(g.I(n) for n in SIZES + (-1, -128, -2**31, -2**63))),
    "spellings": ((("uniao", "U", (("P", ("texto", "int")),)),), "U",
                  tuple(con("U", "P", a, b) for a in AS + QS[:2] + (("pvar", "t"),) for b in ONES + (("pvar", "n"),)),
                  tuple(var("U", "P", g.T(t), g.I(n)) for t in ("a", "'", "b") for n in (1, 2))),
    "other": ((("registo", "R", (("n", "int"),)),), "real", (("pvar", "x"),), (g.R("1.5"), g.I(2))),
    "leaves": ((("uniao", "U", (("A", ()), ("B", ("int",)), ("C", ("texto", "int")))),), "U",
               (con("U", "A"), con("U", "B", ("pint", 1)), con("U", "B", ("pvar", "n")), con("U", "B"), con("U", "C", ("ptxt", "a"), ("pint", 1)), con("U", "C", ("ptxt", "a"), ("pvar", "n")), con("U", "C", ("pvar", "t"), ("pint", 1)), con("U", "C", ("pvar", "t"), ("pvar", "n")), con("U", "C", ("ptxt", "b")), ("pvar", "w")),
               (var("U", "A"), var("U", "B", g.I(1)), var("U", "B", g.I(2)), var("U", "C", g.T("a"), g.I(1)), var("U", "C", g.T("a"), g.I(2)), var("U", "C", g.T("b"), g.I(1)), var("U", "C", g.T("c"), g.I(7)))),
    "nested": ((E3, ("uniao", "U", (("A", ()), ("B", ("E",)), ("C", ("E", "E"))))), "U",
               (con("U", "A"),) + tuple(con("U", "B", rename(p, "b")) for p in EPATS) + tuple(con("U", "C", rename(p, "c"), rename(q, "d")) for p in EPATS for q in EPATS) + (W,),
               (var("U", "A"),) + tuple(var("U", "B", e) for e in EVALS) + tuple(var("U", "C", a, b) for a in EVALS for b in EVALS)),
    "list": ((("uniao", "L", (("N", ()), ("C", ("int", "L")))),), "L",
             (con("L", "N"), con("L", "C", ("pint", 1), ("pvar", "r")), con("L", "C", ("pvar", "h"), con("L", "N")), con("L", "C", ("pvar", "h"), con("L", "C", ("pvar", "h2"), ("pvar", "r2"))),
              con("L", "C", ("pint", 1), con("L", "C", ("pint", 2), ("pvar", "r2"))), con("L", "C", ("pvar", "h"), con("L", "C", ("pint", 2), con("L", "N"))), con("L", "C", ("pvar", "h"), ("pvar", "r")), W),
             ("N", (1,), (2,), (1, 2), (2, 2), (1, 1), (3, 1), (1, 2, 3), (2, 1, 2))),
    "three": ((E3, ("uniao", "T", (("P", ("E",)), ("Q", ("int", "E", "texto"))))), "T",
              (con("T", "P", EPATS[0]), con("T", "P", EPATS[1]), con("T", "P", ("pvar", "q")), con("T", "Q", ("pint", 1), EPATS[0], ("ptxt", "a")), con("T", "Q", ("pint", 1), EPATS[2], ("pvar", "t")),
               con("T", "Q", ("pvar", "n"), EPATS[1], ("ptxt", "a")), con("T", "Q", ("pvar", "n"), ("pvar", "q"), ("pvar", "t")), con("T", "Q", ("pint", 2)), W),
              tuple(var("T", "P", e) for e in EVALS) + tuple(var("T", "Q", g.I(n), e, g.T(t)) for n in (1, 2) for e in EVALS for t in "ab")),
}

VPATS = (con("V", "A", ("pint", 1)), con("V", "A", ("pvar", "n")), con("V", "B", ("pvar", "n")), ("pvar", "x"))
VVALS = (var("V", "A", g.I(1)), var("V", "A", g.I(2)), var("V", "B", g.I(3)))
LPATS = (con("L", "N"), con("L", "C", ("pint", 1), ("pvar", "r")), con("L", "C", ("pvar", "h"), con("L", "N")), con("L", "C", ("pvar", "h"), con("L", "C", ("pvar", "i"), ("pvar", "r"))), ("pvar", "x"))
DOMAINS["pairs"] = ((("uniao", "V", (("A", ("int",)), ("B", ("int",)))), ("uniao", "P", (("C", ("V", "V")), ("D", ("V",))))), "P",
                    tuple(con("P", "C", rename(p, "a"), rename(q, "b")) for p in VPATS for q in VPATS) + (con("P", "D", VPATS[1]), W),
                    tuple(var("P", "C", a, b) for a in VVALS for b in VVALS) + tuple(var("P", "D", a) for a in VVALS))
DOMAINS["pairs of lists"] = ((("uniao", "L", (("N", ()), ("C", ("int", "L")))), ("uniao", "P", (("Z", ("L", "L")), ("S", ("P", "L"))))), "P",
                             tuple(con("P", "Z", rename(p, "a"), rename(q, "b")) for p in LPATS for q in LPATS) + (con("P", "S", con("P", "Z", ("pvar", "a"), rename(LPATS[3], "c")), rename(LPATS[1], "b")), con("P", "S", ("pvar", "p"), con("L", "N")), W), None)


def _list(v):
    out = var("L", "N")
    for k in reversed(v if v != "N" else ()):
        out = var("L", "C", g.I(k), out)
    return out


DOMAINS["list"] = DOMAINS["list"][:3] + (tuple(_list(v) for v in DOMAINS["list"][3]),)
_LISTS = tuple(_list(v) for v in ((), (1,), (2,), (1, 2), (2, 1, 3)))
DOMAINS["pairs of lists"] = DOMAINS["pairs of lists"][:3] + (tuple(var("P", "Z", a, b) for a in _LISTS for b in _LISTS) + tuple(var("P", "S", var("P", "Z", a, b), c) for a, b, c in ((_LISTS[1], _LISTS[3], _LISTS[1]), (_LISTS[0], _LISTS[2], _LISTS[3]), (_LISTS[4], _LISTS[4], _LISTS[0]))),)


def bindings(p, ty, decls):
    """(name, type) of the variables of a pattern."""
    if p[0] == "pvar":
        return [(p[1], ty)]
    if p[0] == "pcon" and p[3]:
        params = next(dict(d[2])[p[2]] for d in decls if d[0] == "uniao" and d[1] == p[1])
        return [b for q, t in zip(p[3], params) for b in bindings(q, t, decls)]
    return []


def result(k, p, ty, decls):
    """A text that tells the arm and what it bound."""
    parts = [f"{k}:"]
    for n, t in bindings(p, ty, decls):
        if t in ("int", "real", "texto"):
            parts += [g.V(n), ","]
        elif t == "V":
            parts += [g.call("mostra_v", g.V(n)), ","]
        elif t == "E":
            parts += [g.call("mostra_e", g.V(n)), ","]
        else:
            parts += [g.call("conta", g.V(n)), ","] if t == "L" else ["?,"]
    return ("fstr", tuple(parts), "'")


def helpers(name):
    out = DOMAINS[name][0]
    if any(d[1] == "E" for d in out):
        out += (g.func("mostra_e", (("q", "E"),), "int", g.ret(("match", g.V("q"), ((con("E", "X"), ("expr", g.I(1))), (con("E", "Y"), ("expr", g.I(2))), (con("E", "Z"), ("expr", g.I(3)))))),),)
    if any(d[1] == "V" for d in out):
        out += (g.func("mostra_v", (("q", "V"),), "int", g.ret(("match", g.V("q"), ((con("V", "A", ("pvar", "k")), ("expr", g.V("k"))), (con("V", "B", ("pvar", "k")), ("expr", g.B("*", g.V("k"), g.I(100)))))))),)
    if any(d[1] == "L" for d in out):
        out += (g.func("conta", (("l", "L"),), "int", ("expr", ("match", g.V("l"), ((con("L", "N"), ("block", (g.ret(g.I(0)),), None)), (("pcon", "L", "C", (("pvar", "h"), ("pvar", "r"))), ("block", (g.ret(g.B("+", g.V("h"), g.B("*", g.I(10), g.call("conta", g.V("r"))))),), None)), (("pvar", "z"), ("block", (g.ret(g.I(0)),), None)))))),)
    return out


def arm_lists(name, n):
    pats = DOMAINS[name][2]
    for k in range(1, n + 1):
        yield from itertools.product(pats, repeat=k)
