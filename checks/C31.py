"""C31: what a construct means does not depend on what it is inside of, next to, or has run before it."""
import itertools

from mc import gen as g
from mc.harness import Packed, Space, Text, judge_packed, judge_programs, judge_texts
from mc.modular import modular

PROP = "C31"
LEVEL = "exploration"
RULE = ("every nest and every sequence of the stated constructs up to the stated depth, around every statement of a set; each construct has variables and temporaries of its own, that are shown after what it contains; "
        "output, runtime error or rejection are compared with the model; two cases are distinct when their sources differ")
I, V, B, T, call, do, let, put, get = g.I, g.V, g.B, g.T, g.call, g.do, g.let, g.put, g.get
N = get(V("r"), "n")
VEC = get(V("r"), "v")
PRE = (("registo", "P", (("n", "int"), ("v", ("vec", "int")))), ("uniao", "U", (("A", ("int",)), ("B", ()), ("C", ("int", "texto")))),
       g.func("id", (("x", "int"),), "int", g.ret(V("x"))), g.func("soma", (("x", "int"), ("y", "int"), ("z", "int")), "int", g.ret(B("+", B("*", V("x"), I(100)), B("+", B("*", V("y"), I(10)), V("z"))))))
NEW = ("new", "P", (("n", I(0)), ("v", g.vec("int"))))


class Ctx:
    """What is outside of a statement: its depth, a name for this case, and the functions that come before."""

    def __init__(self, name):
        self.name, self.funcs = name, []

    def fresh(self):
        return f"{self.name}_{len(self.funcs)}"


def own(d):
    return let(f"a{d}", "int", I(d * 10)), ("mostra", V(f"a{d}"))


# a context is a function (depth, body, Ctx) -> statements
def k_se(d, b, c):
    a, z = own(d)
    return a, ("se", B(">=", N, I(0)), b + (z,), (), None), z


def k_senao(d, b, c):
    a, z = own(d)
    return a, ("se", B("<", N, I(0)), (("mostra", T("no")),), (), b + (z,)), z


def k_senaose(d, b, c):
    a, z = own(d)
    return a, ("se", B("<", N, I(0)), (("mostra", T("no")),), ((B("==", V(f"a{d}"), I(d * 10)), b + (z,)),), (("mostra", T("no")),)), z


def k_enquanto(d, b, c):
    x = V(f"c{d}")
    return let(f"c{d}", "int", I(0)), ("enquanto", B("<", x, I(2)), (put(f"c{d}", I(1), "+="),) + b + (("mostra", x),)), ("mostra", x)


def k_para(d, b, c):
    x = V(f"i{d}")
    return (("para", f"i{d}", I(d), I(d + 2), None, b + (("mostra", x),)),)


def k_para_value(d, b, c):
    """The limits are evaluated in each iteration, and the step is negative."""
    x = V(f"i{d}")
    a, z = own(d)
    return a, ("para", f"i{d}", call("id", I(0)), call("id", I(4)), call("id", I(3)), (put(f"a{d}", I(1), "+="),) + b + (("mostra", B("+", x, V(f"a{d}"))),)), z


def k_escolha(d, b, c):
    a, z = own(d)
    return a, ("escolha", V(f"a{d}"), ((I(-1), (("mostra", T("no")),)), (I(d * 10), b + (z,))), (("mostra", T("no")),)), z


def k_escolha_senao(d, b, c):
    a, z = own(d)
    return a, ("escolha", T("x"), ((T("y"), (("mostra", T("no")),)),), b + (z,)), z


def k_iguala(d, b, c):
    q = f"q{d}"
    return (do(("match", ("variant", "U", "C", (I(d), T(f"t{d}"))), ((("pcon", "U", "A", (("pvar", q),)), ("block", (("mostra", V(q)),), None)), (("pcon", "U", "C", (("pvar", q), ("pvar", f"w{d}"))), ("block", b + (("mostra", V(q)), ("mostra", V(f"w{d}"))), None)), (("pcon", "U", "B", None), ("block", (("mostra", T("no")),), None))))),)


def k_iguala_int(d, b, c):
    q = f"q{d}"
    return (do(("match", B("+", I(d), I(40)), ((("pint", 1), ("block", (("mostra", T("no")),), None)), (("pvar", q), ("block", b + (("mostra", V(q)),), None))))),)


def k_seiguala(d, b, c):
    q = f"q{d}"
    return (("seiguala", ("variant", "U", "A", (I(d),)), ("pcon", "U", "A", (("pvar", q),)), b + (("mostra", V(q)),), (("mostra", T("no")),)), ("mostra", T("after")))


def k_seiguala_senao(d, b, c):
    a, z = own(d)
    return a, ("seiguala", ("variant", "U", "B", None), ("pcon", "U", "A", (("pvar", f"q{d}"),)), (("mostra", T("no")),), b + (z,)), z


def value_of(d, b, c):
    """An expression whose value takes the statements to be made."""
    q = f"q{d}"
    return ("match", I(d), ((("pint", 99), ("expr", I(0))), (("pvar", q), ("block", b, V(q)))))


def k_operand(d, b, c):
    return let(f"x{d}", "int", B("+", call("id", I(d * 100)), value_of(d, b, c))), ("mostra", V(f"x{d}"))


def k_element(d, b, c):
    return (("mostra", g.vec("int", I(1), value_of(d, b, c), call("id", I(2)))),)


def k_argument(d, b, c):
    return (("mostra", call("soma", I(1), value_of(d, b, c), I(3))),)


def k_field(d, b, c):
    return let(f"p{d}", "P", ("new", "P", (("n", value_of(d, b, c)), ("v", g.vec("int", I(d)))))), ("mostra", get(V(f"p{d}"), "n")), ("mostra", get(V(f"p{d}"), "v"))


def k_index(d, b, c):
    v = f"v{d}"
    return let(v, ("vec", "int"), g.vec("int", *(I(k) for k in range(9)))), put(g.idx(V(v), value_of(d, b, c)), B("+", I(70), I(d))), ("mostra", V(v))


def define(d, b, c, params=(), ret=None, alvo=None, name=None):
    name = name or c.fresh()
    ps = (("r", "P"),) + params
    if alvo:
        c.funcs.append(("met", alvo, name, ps[1:] if alvo == "P" else ps, ret, b))
    else:
        c.funcs.append(("func", name, ps, ret, b))
    return name


def k_func(d, b, c):
    a, z = own(d)
    f = define(d, (a,) + b + (z, ("mostra", V("k"))), c, (("k", "int"),))
    return do(call(f, V("r"), I(d))), ("mostra", I(d))


def k_func_value(d, b, c):
    a, z = own(d)
    f = define(d, (a,) + b + (z, g.ret(B("+", V("k"), V(f"a{d}")))), c, (("k", "int"),), "int")
    return (("mostra", B("-", I(1000), call(f, V("r"), I(d)))),)


def k_func_arguments(d, b, c):
    a, z = own(d)
    f = define(d, (a,) + b + (z, g.ret(V("k"))), c, (("k", "int"),), "int")
    return (("mostra", call("soma", call(f, V("r"), I(1)), I(5), call(f, V("r"), I(2)))),)


def k_func_condition(d, b, c):
    a, z = own(d)
    f = define(d, (a,) + b + (z, g.ret(B("<", V("k"), I(1)))), c, (("k", "int"),), "bool")
    x = f"c{d}"
    return let(x, "int", I(0)), ("enquanto", call(f, V("r"), V(x)), (put(x, I(1), "+="), ("mostra", V(x)))), ("mostra", V(x))


def k_func_text(d, b, c):
    a, z = own(d)
    f = define(d, (a,) + b + (z, g.ret(V("k"))), c, (("k", "int"),), "int")
    return (("mostra", ("fstr", ("<", I(d), "|", call(f, V("r"), I(d)), ">"))),)


def k_method(d, b, c):
    a, z = own(d)
    f = define(d, (a,) + b + (z, ("mostra", ("alvo",)), g.ret(B("+", V("k"), ("alvo",)))), c, (("k", "int"),), "int", "int")
    return let(f"m{d}", "int", I(d)), ("mostra", ("mcall", V(f"m{d}"), f, (V("r"), I(50)))), ("mostra", V(f"m{d}"))


def k_recursion(d, b, c):
    a, z = own(d)
    name = c.fresh()
    define(d, (a, ("se", B(">", V("k"), I(0)), (do(call(name, V("r"), B("-", V("k"), I(1)))),), (), None)) + b + (z, ("mostra", V("k"))), c, (("k", "int"),), None, None, name)
    return do(call(name, V("r"), I(1))), ("mostra", I(d))


def k_optional(d, b, c):
    o = f"o{d}"
    return let(o, ("opt", "int"), I(d)), ("se", B("!=", V(o), g.NULO), b + (("mostra", get(V(o), "valor")),), (), None), ("mostra", V(o))


SE_LIKE = {k.__name__[2:]: k for k in (k_se, k_senao, k_senaose, k_enquanto, k_para, k_para_value, k_escolha, k_escolha_senao, k_iguala, k_iguala_int, k_seiguala, k_seiguala_senao, k_optional)}
OPERANDS = {k.__name__[2:]: k for k in (k_operand, k_element, k_argument, k_field, k_index)}
CALLS = {k.__name__[2:]: k for k in (k_func, k_func_value, k_func_arguments, k_func_condition, k_func_text, k_method, k_recursion)}
ALL = {**SE_LIKE, **OPERANDS, **CALLS}
LOOPS = {"enquanto", "para", "para_value"}

TICK = (put(N, I(1), "+="), ("mostra", N))
ODD = B("==", B("%", N, I(2)), I(1))
LEAVES = {
    "store": lambda d: TICK,
    "declare": lambda d: (put(N, I(1), "+="), let(f"a{d}", "int", N), let(f"b{d}", "texto", T("b")), ("mostra", V(f"a{d}")), ("mostra", V(f"b{d}"))),
    "hide": lambda d: (let(f"a{d - 1}", "texto", T("inner")), ("mostra", V(f"a{d - 1}"))),
    "outer": lambda d: (put(f"a{d - 1}", I(5), "+="), ("mostra", V(f"a{d - 1}"))),
    "append": lambda d: TICK + (do(call("anexa", VEC, B("*", N, I(d)))), ("mostra", VEC)),
    "loop": lambda d: (("para", "j", I(0), I(2), None, TICK), ("mostra", N)),
    "match": lambda d: (("mostra", B("+", I(1), ("match", ("variant", "U", "C", (N, T("w"))), ((("pcon", "U", "A", (("pvar", "x"),)), ("expr", V("x"))), (("pcon", "U", "C", (("pvar", "x"), ("pvar", "y"))), ("block", (("mostra", V("y")),) + TICK, B("*", V("x"), I(3)))), (("pcon", "U", "B", None), ("expr", I(0))))))),),
    "deep": lambda d: (("mostra", call("soma", B("+", I(1), call("id", N)), call("soma", I(1), I(2), call("id", B("*", N, I(2)))), B("-", I(9), call("id", I(4))))),) + TICK,
    "types": lambda d: (("registo", f"L{d}", (("m", "int"), ("u", "texto"))), ("uniao", "W", (("A", ("int",)), ("Z", ("texto",)))), let(f"l{d}", f"L{d}", ("new", f"L{d}", (("m", N), ("u", T("u"))))), put(get(V(f"l{d}"), "m"), I(5), "+="), ("mostra", get(V(f"l{d}"), "m"))) + TICK + (let(f"w{d}", "W", ("variant", "W", "Z", (get(V(f"l{d}"), "u"),))), ("mostra", ("match", V(f"w{d}"), ((("pcon", "W", "A", (("pvar", "x"),)), ("expr", T("no"))), (("pcon", "W", "Z", (("pvar", "x"),)), ("expr", V("x")))))), ("seiguala", ("variant", "U", "A", (N,)), ("pcon", "U", "A", (("pvar", "q"),)), (("mostra", V("q")),), (("mostra", T("no")),))),
    "error": lambda d: TICK + (("mostra", g.idx(VEC, N)),),
    "late error": lambda d: TICK + (("mostra", B("//", I(7), B("-", I(3), N))),),
    "return": lambda d: TICK + (("retorna", None),),
    "return value": lambda d: TICK + (("se", ODD, (g.ret(N),), (), None),),
    "return bool": lambda d: TICK + (("se", ODD, (g.ret(g.FALSE),), (), None),),
    "quebra": lambda d: TICK + (("se", ODD, (("quebra",),), (), None),),
    "continua": lambda d: TICK + (("se", ODD, (("continua",),), (), None), ("mostra", T("on"))),
}
RET = {"func": "return", "recursion": "return", "func_value": "return value", "func_arguments": "return value", "func_text": "return value", "method": "return value", "func_condition": "return bool"}


def fits(chain, leaf):
    """The leaves that leave a construct need one: the same function, and no operand that waits."""
    if leaf in ("quebra", "continua"):
        for k in reversed(chain):
            if k in LOOPS:
                return True
            if k in CALLS or k in OPERANDS:
                return False
        return False
    if leaf.startswith("return"):
        for k in reversed(chain):
            if k in CALLS:
                return RET[k] == leaf
            if k in OPERANDS:
                return False
        return False
    if leaf in ("hide", "outer"):
        return chain[-1] not in ("enquanto", "para", "iguala", "iguala_int", "seiguala", "optional") and chain[-1] not in OPERANDS
    return True


def wrap(chain, leaf, d, c):
    if not chain:
        return tuple(leaf(d))
    inner = wrap(chain[1:], leaf, d + 1, c)
    return tuple(ALL[chain[0]](d, inner, c))




def case(label, n, body, c, entry=False):
    end = (("mostra", N), ("mostra", VEC))
    if entry:
        return Packed(label, (), PRE + tuple(c.funcs) + (let("r", "P", NEW),) + body + end)
    f = f"main{n}"
    return Packed(label, PRE, tuple(c.funcs) + (g.func(f, (), None, let("r", "P", NEW), let("z", "int", I(9)), *body, *end, ("mostra", V("z"))), do(call(f))))


def nests(depth, kinds, leaves, entry=(False, True)):
    def gen():
        n = 0
        for chain in itertools.product(kinds, repeat=depth):
            for leaf in leaves:
                if not fits(chain, leaf):
                    continue
                for e in entry:
                    n += 1
                    c = Ctx(f"f{n}")
                    yield case(f"{leaf} in {' in '.join(reversed(chain))}", n, wrap(chain, LEAVES[leaf], 1, c), c, e)
    return gen


def sequences(length, outer, kinds, leaf, entry=(False,)):
    """Constructs one after another, inside of another one: what one leaves behind must not be seen by the next."""
    def gen():
        n = 0
        for o in outer:
            for seq in itertools.product(kinds, repeat=length):
                for e in entry:
                    n += 1
                    c = Ctx(f"s{n}")
                    body = ()
                    for i, k in enumerate(seq):
                        body += wrap((k,), LEAVES[leaf], 2 + i, c)
                    yield case(f"{' ; '.join(seq)} in {o}", n, tuple(ALL[o](1, body, c)) if o else body, c, e)
    return gen


def deep(depths, pairs, leaves):
    """Two constructs that take turns, many levels deep."""
    def gen():
        n = 0
        for depth in depths:
            for pair in pairs:
                chain = tuple(pair[i % len(pair)] for i in range(depth))
                if sum(k in LOOPS for k in chain) > 9 or sum(k in ("func_arguments", "func_text", "recursion", "func_condition") for k in chain) > 6:
                    continue  # the number of steps doubles with each of them
                for leaf in leaves:
                    if fits(chain, leaf):
                        n += 1
                        c = Ctx(f"d{n}")
                        yield case(f"{leaf} in {depth} of {' in '.join(pair)}", n, wrap(chain, LEAVES[leaf], 1, c), c, n % 3 == 0)
    return gen


BEFORE = ("mostra 0", "func f(): int\n  retorna 1\nfim", "func f()\n  mostra 1\nfim", "func f()\n  retorna\nfim", "func f(x: int): int\n  enquanto verdadeiro faca\n    se x > 2 entao\n      quebra\n    fim\n    x += 1\n  fim\n  retorna x\nfim",
          "met int::m(alvo): int\n  retorna alvo\nfim", "met bool::m(alvo)\n  mostra alvo\nfim", "enquanto verdadeiro faca\n  quebra\nfim", "para i de 0..3 faca\n  se i == 1 entao\n    continua\n  fim\nfim", "para i de 0..2 faca\n  para j de 0..2 faca\n    quebra\n  fim\n  continua\nfim",
          "q: int = iguala 1\n  k => faca\n    produz k\n  fim\nfim", "q: int = iguala 1\n  k => faca\n    w: int = iguala k\n      z => faca\n        produz z\n      fim\n    fim\n    produz w\n  fim\nfim", "iguala 1\n  k => faca\n    mostra k\n  fim\nfim",
          "func f(x: int): int\n  iguala x\n    1 => faca\n      retorna 3\n    fim\n    k => faca\n      retorna k\n    fim\n  fim\nfim", "registo R\n  n: int\nfim\nmet R::g(alvo): int\n  para i de 0..3 faca\n    quebra\n  fim\n  retorna alvo.n\nfim", "uniao U\n  A(int),\n  B\nfim",
          "se iguala 1 => 1 entao\n  mostra 1\nfim", "usa \"m\" => m", "usa \"m\"", "escolha 1:\n  caso 1:\n    mostra 1\nfim", "se verdadeiro entao\n  mostra 1\nsenao\n  mostra 2\nfim", "mostra f\"{1 + 1}\"", "a: int = 1; b: int = 2")
OTHER = "func deles(x: int): int\n  para i de 0..3 faca\n    se i == x entao\n      quebra\n    fim\n  fim\n  retorna x\nfim\nmet texto::meu(alvo): int\n  retorna tam(alvo)\nfim\n"
# what a statement may not be outside of, and the blocks that do not help
WRONG = {"retorna": ("loop", "block", "arm"), "retorna 1": ("loop", "block", "arm"), "quebra": ("block", "func", "met", "vfunc"), "continua": ("block", "func", "met", "vfunc"), "produz 1": ("loop", "block", "func", "met", "vfunc"), "mostra alvo": ("loop", "block", "func", "arm", "vfunc"), "alvo": ("block", "vfunc")}
AROUND = {None: ("", ""), "loop": ("enquanto falso faca\n", "\nfim"), "block": ("se verdadeiro entao\n", "\nfim"), "arm": ("iguala 1\n  k9 => faca\n", "\n  fim\nfim"), "func": ("func f9(): int\n", "\nretorna 1\nfim"), "vfunc": ("func f9()\n", "\nfim"), "met": ("met real::m9(alvo): int\n", "\nretorna 1\nfim")}


def misplaced(n):
    """Statements out of the constructs that they belong to are rejected, whatever comes before them."""
    def run():
        for before in itertools.chain.from_iterable(itertools.product(BEFORE, repeat=k) for k in range(n + 1)):
            names = [l.split("(")[0] for b in before for l in b.split("\n") if l.startswith(("func", "met", "uniao", "registo", "q:"))]
            if len(set(names)) < len(names) or len(set(before)) < len(before):
                continue
            if any(b.startswith("usa") and not a.startswith("usa") for a, b in zip(before, before[1:])):
                continue
            for st, places in WRONG.items():
                for place in (None,) + places:
                    a, z = AROUND[place]
                    top = "".join(b + "\n" for b in before) + a
                    files = {"main.ama": top + st + z + "\nmostra 5\n", "m.ama": OTHER}
                    yield Text(f"{st} in {place}", files, ("reject", "main.ama", top.count("\n") + 1))
    return run


def spaces(tier):
    q = tier == "quick"
    plain = tuple(LEAVES)
    few = ("se", "para", "enquanto", "escolha", "iguala", "seiguala", "operand", "argument", "func_value", "method", "recursion")
    yield Space("one", f"each of {len(ALL)} constructs around each of {len(LEAVES)} statements, in functions and entry code", nests(1, ALL, plain), judge_packed, 40)
    yield Space("two", f"each of {len(ALL)} constructs in each other, around each of {len(LEAVES)} statements, in functions{'' if q else ' and entry code'}", nests(2, ALL, plain, (False,) if q else (False, True)), judge_packed, 80)
    yield Space("two, entry code", f"each of {len(ALL)} constructs in each other, around 3 statements, in entry code", nests(2, ALL, ("declare", "match", "error"), (True,)), judge_packed, 80)
    yield Space("three", f"nests of 3 of {len(few) if q else len(ALL)} constructs around {3 if q else 5} statements", nests(3, few if q else ALL, ("declare", "match", "continua") if q else ("declare", "match", "continua", "deep", "error"), (False,)), judge_packed, 120)
    if not q:
        yield Space("four", f"nests of 4 of {len(few)} constructs around 2 statements", nests(4, few, ("declare", "continua"), (False,)), judge_packed, 120)
    yield Space("misplaced", f"7 statements out of place in up to 6 blocks, after each pair of {len(BEFORE)} constructs", misplaced(2), judge_texts, 60)
    yield Space("sequences", f"each of {len(ALL)} constructs after each other, inside of {3 if q else len(ALL) + 1}", sequences(2, (None, "para", "operand") if q else (None,) + tuple(ALL), ALL, "declare"), judge_packed, 120)
    yield Space("longer sequences", f"sequences of 3 of {len(few)} constructs, in a function{'' if q else ' and in 4 constructs'}", sequences(3, (None,) if q else (None, "se", "para", "operand", "method"), few, "match"), judge_packed, 120)
    yield Space("modules", "each construct around 8 statements, divided in modules in 5 ways", modular((nests(1, ALL, ("declare", "append", "match", "error", "late error", "return value", "quebra", "continua"), (False, True)),), ("whole", "global", "items", "alias", "variables")), judge_programs, 60)
    pairs = [(a, b) for a in ALL for b in (few if q else ALL)]
    yield Space("deep", f"nests of {6 if q else '5 to 16'} of 2 constructs in turns, each pair, around {2 if q else 4} statements", deep((6,) if q else (5, 6, 7, 8, 9, 12, 16), pairs, ("declare", "match") if q else ("declare", "match", "continua", "deep")), judge_packed, 20)
