"""Small building blocks for the spaces of the checks."""
from .model import INT_MAX, INT_MIN

ARITH = ("+", "-", "*", "/", "//", "%")
COMPARE = ("<", ">", "<=", ">=")
EQUAL = ("==", "!=")
LOGIC = ("e", "ou")
BINOPS = ARITH + COMPARE + EQUAL + LOGIC


def I(n):
    """An integer of any sign, as an expression."""
    if n >= 0:
        return ("int", n)
    if n == INT_MIN:
        return ("par", ("bin", "-", ("un", "-", ("int", INT_MAX)), ("int", 1)))
    return ("par", ("un", "-", ("int", -n)))


def R(text):
    if text.startswith("-"):
        return ("par", ("un", "-", ("real", text[1:])))
    return ("real", text)


def T(s, q='"'):
    return ("txt", s, q)


def V(x):
    return ("var", x)


TRUE, FALSE, NULO = ("bool", True), ("bool", False), ("nulo",)


def B(op, l, r):
    return ("bin", op, l, r)


def show(*es):
    return tuple(("mostra", e) for e in es)


def let(x, t, e=None):
    return ("decl", (x,), t, e)


def put(lv, e, op="="):
    return ("assign", lv if isinstance(lv, tuple) else V(lv), op, e)


def call(f, *args):
    return ("call", f, args)


def do(e):
    return ("expr", e)


def get(e, f):
    return ("get", e, f)


def idx(e, *ix):
    for i in ix:
        e = ("idx", e, I(i) if isinstance(i, int) else i)
    return e


def vec(t, *es):
    return ("list", t, es)


def func(name, params, ret, *body):
    return ("func", name, tuple(params), ret, tuple(body))


def ret(e=None):
    return ("retorna", e)


INTS = tuple(I(n) for n in (0, 1, 2, 3, 7, -1, -2, -7, 2**31, -(2**53) - 1, 2**53 + 1, INT_MAX, INT_MAX - 1, INT_MIN))
FEW_INTS = tuple(I(n) for n in (0, 1, 3, -2, 2**53 + 1, INT_MAX))
REALS = tuple(R(t) for t in ("0.0", "-0.0", "0.5", "1.0", "2.5", "-2.5", "0.1", "12345678901234567890.0"))
FEW_REALS = tuple(R(t) for t in ("0.0", "2.5", "-1.5"))
TEXTS = tuple(T(s) for s in ("", "a", "ab", "1", "é", "verdadeiro"))
BOOLS = (TRUE, FALSE)
