"""C16: a runtime error stops the program at once and tells where it happened."""
import itertools

from mc import gen as g
from mc.trees import Num, build, forests
from mc.harness import Case, Space, Text, judge_programs, judge_texts
from mc.modular import modular

PROP = "C16"
LEVEL = "exploration"
RULE = ("every failing operation in every place of an expression and of a statement, every tree of statements with the failure at each of its steps, "
        "every chain of calls of the stated kinds and every layout: what is shown before the error, the line of the error, and the function and the line of each call "
        "that was being made are compared with the model; two cases are distinct when their sources differ")
V, I, B, T, R, call, get, put, idx, NULO = g.V, g.I, g.B, g.T, g.R, g.call, g.get, g.put, g.idx, g.NULO

PRE = (
    ("registo", "P", (("n", "int"), ("r", "real"))), ("uniao", "U", (("A", ()), ("C", ("int",)))),
    g.func("fi", (("x", "int"),), "int", g.ret(B("//", I(1), V("x")))),
    g.func("mv", (("x", "int"),), None, ("mostra", T("mv")), ("se", B("==", V("x"), I(0)), (("mostra", idx(g.vec("int"), V("x"))),), (), None)),
    ("met", "int", "inv", (), "int", (("mostra", T("inv")), g.ret(B("%", I(5), ("alvo",))))),
    ("met", "P", "el", (("k", "int"),), "int", (g.let("v", ("vec", "int"), g.vec("int", I(1), I(2))), g.ret(("idx", V("v"), B("+", V("k"), get(("alvo",), "n")))))),
    g.let("z", "int", I(0)), g.let("o", ("opt", "int"), NULO), g.let("v", ("vec", "int"), g.vec("int", I(4), I(5))), g.let("m", ("vec", ("vec", "int")), g.vec(("vec", "int"), g.vec("int", I(1)))),
    g.let("s", "texto", T("abc")), g.let("big", "int", I(g.INT_MAX)), g.let("p", "P", ("new", "P", (("n", I(3)), ("r", I(0))))), g.let("w", "indef", T("q")),
)
# operations of type int that fail
FAIL = {
    "//": B("//", I(6), V("z")), "%": B("%", I(6), V("z")), "overflow +": B("+", V("big"), I(1)), "overflow *": B("*", V("big"), I(2)), "overflow -": B("-", ("un", "-", V("big")), I(2)),
    "index": idx(V("v"), 2), "negative index": idx(V("v"), -1), "inner index": idx(V("m"), 0, 1), "outer index": idx(V("m"), 1, 0), "valor": get(V("o"), "valor"),
    "function": call("fi", V("z")), "method": ("mcall", V("z"), "inv", ()), "method of a record": ("mcall", V("p"), "el", (I(2),)), "cast": ("cast", ("cast", V("w"), "texto"), "int"), "remova": call("remova", V("v"), I(5)),
    "text index": call("tam", idx(V("s"), 9)), "real": ("cast", B("/", I(1), get(V("p"), "r")), "int"), "nested": call("fi", call("fi", V("z"))),
}


def over(x, t=None):
    """A value in a match, which takes several lines, and the operation comes after them."""
    return ("par", ("match", I(1), ((("pint", 7), ("expr", t or I(8))), (("pint", 1), ("expr", x)), (("pvar", "_"), ("expr", t or I(3))))))


FAIL.update({
    "// after lines": B("//", I(6), over(V("z"))), "overflow after lines": B("+", V("big"), over(I(1))), "% between lines": B("%", over(I(5)), over(V("z"))), "index after lines": ("idx", V("v"), over(I(9))), "index of lines": ("idx", over(V("v"), V("v")), I(9)),
    "valor after lines": get(over(V("o"), V("o")), "valor"), "cast after lines": ("cast", over(T("q"), T("r")), "int"), "call after lines": call("fi", over(V("z"))), "method after lines": ("mcall", over(V("z")), "inv", ()),
    "text index after lines": call("tam", ("idx", V("s"), over(I(9)))), "remova after lines": call("remova", V("v"), over(I(9))), "size after lines": call("tam", ("vec", "int", (over(I(-1)),))),
})
PASS = {k: v for k, v in (("//", B("//", I(6), I(2))), ("function", call("fi", I(1))), ("method", ("mcall", ("par", I(2)), "inv", ())))}


def places(x):
    """Statements that evaluate x (an int) once, in every place."""
    yield "mostra", (("mostra", x),)
    yield "declaration", (g.let("y", "int", x), ("mostra", V("y")))
    yield "assignment", (g.let("y", "int", I(1)), put("y", x), ("mostra", V("y")))
    yield "compound", (g.let("y", "int", I(1)), put("y", x, "+="), ("mostra", V("y")))
    yield "element store", (g.let("y", ("vec", "int"), g.vec("int", I(1))), put(idx(V("y"), 0), x))
    yield "element index", (g.let("y", ("vec", "int"), g.vec("int", I(1))), put(("idx", V("y"), x), I(1)))
    yield "field store", (put(get(V("p"), "n"), x),)
    yield "field compound", (put(get(V("p"), "n"), x, "-="),)
    yield "left operand", (("mostra", B("-", x, I(1))),)
    yield "right operand", (("mostra", B("-", I(1), x)),)
    yield "deep operand", (("mostra", B("+", B("*", I(2), I(3)), B("*", I(4), ("par", B("-", I(1), x))))),)
    yield "unary", (("mostra", ("un", "-", x)),)
    yield "comparison", (("mostra", B("<", I(1), x)),)
    yield "logic", (("mostra", B("e", g.FALSE, ("par", B("==", x, I(1))))),)
    yield "argument", (("mostra", call("fi", x)),)
    yield "second argument", (g.func("k2", (("a", "int"), ("b", "int")), None, ("mostra", V("a"))), g.do(call("k2", I(1), x)))
    yield "target", (("mostra", ("mcall", ("par", x), "inv", ())),)
    yield "method argument", (("mostra", ("mcall", V("p"), "el", (x,))),)
    yield "initial value", (("mostra", get(("new", "P", (("r", I(1)), ("n", x))), "n")),)
    yield "variant", (("mostra", ("match", ("variant", "U", "C", (x,)), ((("pvar", "_"), ("expr", I(1))),))),)
    yield "element", (("mostra", g.vec("int", I(1), x, I(2))),)
    yield "size", (("mostra", ("vec", "int", (x,))),)
    yield "index", (("mostra", ("idx", V("v"), x)),)
    yield "f-string", (("mostra", ("fstr", ("a", x, "b"))),)
    yield "cast", (("mostra", ("cast", x, "real")),)
    yield "valor_ou", (("mostra", ("mcall", V("o"), "valor_ou", (x,))),)
    yield "anexa", (g.do(call("anexa", V("v"), x)),)
    yield "tam", (("mostra", call("tam", ("vec", "int", (x,)))),)
    yield "expression", (g.do(x),)
    yield "se", (("se", B("==", x, I(1)), (("mostra", I(1)),), (), (("mostra", I(2)),)),)
    yield "senaose", (("se", g.FALSE, (("mostra", I(1)),), ((B("==", x, I(1)), (("mostra", I(3)),)),), None),)
    yield "second senaose", (("se", g.FALSE, (("mostra", I(1)),), ((g.FALSE, (("mostra", I(3)),)), (B("==", x, I(1)), (("mostra", I(3)),))), (("mostra", I(4)),)),)
    yield "then", (("se", g.TRUE, (("mostra", I(1)), ("mostra", x)), (), (("mostra", I(2)),)),)
    yield "else", (("se", g.FALSE, (("mostra", I(1)),), (), (("mostra", I(2)), ("mostra", x))),)
    yield "enquanto", (("enquanto", B("==", x, I(1)), (("quebra",),)),)
    yield "body", (g.let("k", "int", I(0)), ("enquanto", B("<", V("k"), I(2)), (put("k", I(1), "+="), ("mostra", x))))
    yield "first limit", (("para", "i", x, I(2), None, (("mostra", V("i")),)),)
    yield "last limit", (("para", "i", I(0), x, None, (("mostra", V("i")),)),)
    yield "step", (("para", "i", I(0), I(2), x, (("quebra",),)),)
    yield "body of para", (("para", "i", I(0), I(2), None, (("mostra", V("i")), ("mostra", x))),)
    yield "later in a loop", (("para", "i", I(0), I(3), None, (("mostra", V("i")), ("se", B("==", V("i"), I(2)), (("mostra", x),), (), None))),)
    yield "after a loop", (("para", "i", I(0), I(2), None, (("mostra", V("i")),)), ("mostra", x))
    yield "escolha", (("escolha", x, ((I(9), (("mostra", I(1)),)),), None),)
    yield "caso", (("escolha", I(3), ((x, (("mostra", I(1)),)), (I(3), (("mostra", I(5)),))), None),)
    yield "second caso", (("escolha", I(3), ((I(2), ()), (x, (("mostra", I(1)),))), (("mostra", I(4)),)),)
    yield "block of caso", (("escolha", I(3), ((I(3), (("mostra", I(5)), ("mostra", x))),), None),)
    yield "default", (("escolha", I(3), ((I(4), (("mostra", I(5)),)),), (("mostra", x),)),)
    yield "iguala", (("mostra", ("match", x, ((("pint", 9), ("expr", I(1))), (("pvar", "_"), ("expr", I(2)))))),)
    yield "arm", (("mostra", ("match", I(1), ((("pint", 2), ("expr", I(1))), (("pvar", "_"), ("expr", x))))),)
    yield "first arm", (("mostra", ("match", I(1), ((("pint", 1), ("expr", x)), (("pvar", "_"), ("expr", I(3)))))),)
    yield "block of an arm", (("mostra", ("match", I(1), ((("pint", 1), ("block", (("mostra", I(7)), ("mostra", x)), I(1))), (("pvar", "_"), ("expr", I(3)))))),)
    yield "produz", (("mostra", ("match", I(1), ((("pint", 1), ("block", (("mostra", I(7)),), x)), (("pvar", "_"), ("expr", I(3)))))),)
    yield "se iguala", (("seiguala", ("variant", "U", "C", (x,)), ("pcon", "U", "C", (("pvar", "q"),)), (("mostra", V("q")),), (("mostra", I(0)),)),)
    yield "body of se iguala", (("seiguala", ("variant", "U", "C", (I(1),)), ("pcon", "U", "C", (("pvar", "q"),)), (("mostra", V("q")), ("mostra", x)), (("mostra", I(0)),)),)
    yield "chained", (g.let("y", "int", I(1)), g.let("y2", "int", I(1)), ("assign", V("y"), "=", ("assign", V("y2"), "=", x)))


def contexts(st, k=0):
    """Where the statements are."""
    fs = tuple(s for s in st if s[0] == "func")
    st = tuple(s for s in st if s[0] != "func")
    yield "entry", fs + st
    yield "function", fs + (g.func("f", (("a", "int"),), None, ("mostra", T("f")), *st), ("mostra", T("main")), g.do(call("f", I(1))))
    yield "function with a result", fs + (g.func("f", (), "int", *st, g.ret(I(1))), ("mostra", B("+", I(1), call("f"))))
    yield "method", fs + (("met", "P", "faz", (("a", "int"),), None, (("mostra", T("f")),) + st), g.do(("mcall", V("p"), "faz", (I(2),))))
    yield "two functions", fs + (g.func("f", (), None, *st), g.func("g", (), None, ("mostra", T("g")), g.do(call("f")), ("mostra", I(8))), ("para", "i", I(0), I(2), None, (("mostra", V("i")), g.do(call("g")))))
    yield "block", fs + (("se", g.TRUE, (("mostra", T("b")),) + st, (), None),)


def everywhere(fails, first):
    def run():
        for fn, x in fails.items():
            for pl, st in places(x):
                for i, (cl, p) in enumerate(contexts(st)):
                    if first and i not in first:
                        continue
                    yield Case(f"{fn} in {pl} in {cl}", PRE + p + (("mostra", T("end")),))
    return run


def tree_space(n, leaves, blocks):
    """Every tree; the failure happens at each of the steps in turn."""
    d = g.func("d", (("k", "int"),), "int", ("se", B("==", V("k"), V("alvo_")), (g.ret(I(0)),), (), None), g.ret(V("k")))
    t = g.func("t", (("k", "int"),), None, ("mostra", V("k")), ("se", B("==", V("k"), V("alvo_")), (("mostra", idx(g.vec("int"), V("k"))),), (), None))

    def run():
        for size in range(1, n + 1):
            for f in forests(size, leaves, blocks):
                num = Num()
                body = build(f, num)
                steps = num.n if hasattr(num, "n") else size
                for k in range(1, steps + 1):
                    pre = (g.let("alvo_", "int", I(k)), d, t)
                    yield Case(f"step {k}", pre + (g.func("f", (("a0", "int"),), None, *body), g.do(call("f", I(1))), ("mostra", T("end"))))
                    yield Case(f"step {k}", pre + body + (("mostra", T("end")),))
    return run


def leaf_op(n):
    return (("mostra", B("//", I(60), call("d", n()))),)


def leaf_call(n):
    return (g.do(call("t", n())),)


def leaf_decl(n):
    k = n()
    return (g.let(f"x{k[1]}", "int", B("%", I(60), call("d", k))),)


LEAVES = (leaf_op, leaf_call)
BLOCKS = (
    ("se", 1, lambda n, b: (("se", g.TRUE, b, (), None),)), ("senao", 2, lambda n, b, c: (("se", g.FALSE, b, (), c),)),
    ("se cond", 1, lambda n, b: (("se", B("<", B("//", I(60), call("d", n())), I(90)), b, (), None),)),
    ("para", 1, lambda n, b: (("para", "i", I(0), I(2), None, b),)),
    ("escolha", 1, lambda n, b: (("escolha", call("d", n()), ((I(99), ()),), b),)),
    ("arm", 1, lambda n, b: (("mostra", ("match", I(1), ((("pint", 1), ("block", b, I(5))), (("pvar", "_"), ("expr", I(3)))))),)),
    ("enq", 1, lambda n, b: (("enquanto", g.TRUE, b + (("quebra",),)),)),
)


def chains():
    """Calls through every sequence of kinds of calls, with the failure at the end, and in a later call."""
    kinds = ("function", "procedure", "method", "argument", "operand", "loop", "branch", "arm", "result")
    n = len(kinds)
    # short chains of every kind; long ones in which the kinds take turns
    long = [tuple(kinds[(i * s + o) % n] for i in range(size)) for size in (6, 12, 20, 45) for s in (1, 2, 4, 0) for o in range(n) if not (s == 0 and kinds[o] == "loop" and size > 9)]
    for n in (1, 2, 3, None):
        for ks in itertools.product(kinds, repeat=n) if n else long:
            defs = [g.func("c0", (("x", "int"),), "int", ("mostra", T("c0")), g.ret(B("//", I(9), V("x"))))]
            prev = lambda x: call("c0", x)
            for i, k in enumerate(ks, 1):
                name = f"c{i}"
                x = V("x")
                inner = prev(x)
                body = {
                    "function": (("mostra", T(name)), g.ret(inner)),
                    "procedure": (g.do(inner), g.ret(I(1))),
                    "method": (g.ret(inner),),
                    "argument": (g.ret(call("c0", inner)),),
                    "operand": (g.let("y", "int", I(2)), g.ret(B("+", V("y"), B("*", V("y"), inner)))),
                    "loop": (("para", "i", I(0), I(2), None, (("mostra", V("i")), ("mostra", prev(x)))), g.ret(I(1))),
                    "branch": (("se", B("==", V("x"), I(0)), (g.ret(inner),), (), None), g.ret(I(4))),
                    "arm": (g.ret(("match", V("x"), ((("pint", 0), ("expr", inner)), (("pvar", "_"), ("expr", I(3)))))),),
                    "result": (g.let("r", "int", inner), ("mostra", V("r")), g.ret(V("r"))),
                }[k]
                if k == "method":
                    body = (g.ret(prev(("alvo",))),)
                    defs.append(("met", "int", name, (), "int", body))
                    prev = lambda x, name=name: ("mcall", x, name, ())
                else:
                    defs.append(g.func(name, (("x", "int"),), "int", *body))
                    prev = lambda x, name=name: call(name, x)
            yield Case("chain " + " ".join(ks), tuple(defs) + (g.let("um", "int", I(1)), g.let("nada", "int", I(0)), ("mostra", prev(V("um"))), ("mostra", prev(V("nada"))), ("mostra", T("end"))))


def recursion():
    for d in (0, 1, 2, 10, 100, 500, 997, 998, 999, 1000, 1200):
        f = g.func("r", (("x", "int"),), "int", ("se", B("==", V("x"), I(0)), (g.ret(B("//", I(1), V("x"))),), (), None), g.ret(B("+", call("r", B("-", V("x"), I(1))), I(1))))
        m = ("met", "int", "r", (), "int", (("se", B("==", ("alvo",), I(0)), (g.ret(B("//", I(1), ("alvo",))),), (), None), g.ret(("mcall", ("par", B("-", ("alvo",), I(1))), "r", ()))))
        yield Case(f"depth {d}", (f, ("mostra", T("a")), ("mostra", call("r", I(d))), ("mostra", T("b"))), None, "main.ama", 10**6)
        yield Case(f"method depth {d}", (m, ("mostra", T("a")), ("mostra", ("mcall", ("par", I(d)), "r", ())), ("mostra", T("b"))), None, "main.ama", 10**6)
        yield Case(f"depth {d} in a function", (f, g.func("h", (), None, ("mostra", T("h")), ("mostra", call("r", I(d)))), g.do(call("h"))), None, "main.ama", 10**6)


INSERT = ("\n", "\n\n\n", "# 1 // 0\n", "  # fim\n\n", "\t\n", "mostra \"a\n\n", )
BASE = (
    ("mostra 1", "z: int = 0", "mostra 6 // z", "mostra 2"),
    ("func f(x: int): int", "  y: int = x * 2", "  retorna 6 // x", "fim", "mostra f(1)", "mostra f(0)"),
    ("v: [int] = [int: 1]", "para i de 0..3 faca", "  mostra i", "  se i == 1 entao", "    mostra v[i]", "  senao", "    mostra 5", "  fim", "fim"),
    ("uniao U", "  A,", "  B(int)", "fim", "u: U = U::B(0)", "mostra iguala u", "  U::A => 1", "  U::B(n) => 6 % n", "fim"),
    ("registo P", "  a: int", "  b: int", "fim", "met P::m(alvo): int", "  retorna alvo.a // alvo.b", "fim", "p: P = P(a: 1, b: 0)", "escolha 3:", "caso 3:", "  mostra p.m()", "fim"),
    ("o: int? = nulo", "k: int = 0", "enquanto k < 2 faca", "  k += 1", "  mostra f\"{k}\"", "  mostra o.valor", "fim"),
)
# the line of the entry code where the error is, and its trace (function, line)
AT = ((3, ()), (6, (("f", 3),)), (5, ()), (8, ()), (11, (("P::m", 6),)), (6, ()))


def layouts():
    """Blank lines, comments and strings of several lines before every line of
    a program move the lines of its errors by exactly that much."""
    for prog, (line, trace) in zip(BASE, AT):
        clean = "\n".join(prog) + "\n"
        for j in range(len(prog) + 1):
            for ins in INSERT:
                if ins.startswith("mostra"):
                    # a string that spans lines, only where a statement can be
                    if j not in STATEMENTS[clean]:
                        continue
                    ins = 'mostra "a\n\nb"\n'
                src = "".join(l + "\n" for l in prog[:j]) + ins + "".join(l + "\n" for l in prog[j:])
                up = ins.count("\n")
                move = lambda l: l + up if j < l else l
                yield src, clean, move(line), tuple((f, move(l)) for f, l in trace), ins, j


STATEMENTS = {}
for _p, _s in zip(BASE, ((0, 1, 2, 3, 4), (0, 1, 2, 4, 5, 6), (0, 1, 2, 3, 4, 6, 8, 9), (0, 4, 5), (0, 4, 5, 7, 8, 10), (0, 1, 2, 3, 4, 5, 7))):
    STATEMENTS["\n".join(_p) + "\n"] = _s


def layout_cases():
    for src, clean, line, trace, ins, j in layouts():
        yield (src, line, trace, ins)


def judge_layout(worker, cases):
    """Only the place of the error is known beforehand."""
    from mc.harness import digest, show_result

    outs = []
    for (src, line, trace, ins), res in zip(cases, worker.run_many([{"files": {"main.ama": c[0]}} for c in cases])):
        head = "Fluxo de execução: \n" + "".join(f"    Linha {l}, na função {f}\n" for f, l in trace) if trace else ""
        got = res.err.strip("\n")
        ok = res.status == "exit" and res.code == 1 and got.startswith(head + f"Erro na linha {line}: ") and got.count("\n") == head.count("\n")
        bad = None if ok else {"what": "wrong place of the error", "label": repr(ins), "files": {"main.ama": src}, "expected": {"stderr": head + f"Erro na linha {line}: …"}, "got": show_result(res)}
        outs.append({"key": digest(src), "cls": "runtime error", "bad": bad, "obs": digest(res.err), "label": repr(ins), "sample": src})
    return outs


FAR = (1, 126, 127, 128, 253, 254, 255, 256, 257, 300, 511, 512, 1000, 4095, 4096, 32766, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 70000)


def far_lines():
    """Errors, at run time and of the compiler, on and around the lines at which the encodings of a number change."""
    zero = "não pode dividir um número por zero"
    for n in FAR:
        e = "\n" * n
        yield Text("entry code", f"a: int = 0{e}mostra 1 // a\n", ("run", "", (n + 1, zero, [])))
        yield Text("function", f"func f(a: int)\n  mostra 5{e}  mostra 1 // a\nfim{e}f(0)\n", ("run", "5\n", (2 * n + 3, zero, [("f", n + 2)])))
        yield Text("method", f"met int::m(alvo, k: int): int{e}retorna k // alvo\nfim\nx: int = {'2'}{e}mostra (0).m(x)\n", ("run", "", (2 * n + 3, zero, [("int::m", n + 1)])))
        yield Text("operand of several lines", f"func f(a: int): int\n  retorna a\nfim\nmostra [int: f({e}1),{e}1 // f(0)]\n", ("run", "", (2 * n + 4, zero, [])))
        for mode, call in (('=> m', 'm.f(0)'), ('=> [f]', 'f(0)'), ('', 'f(0)')):
            yield Text("module", {"main.ama": f"usa 'a.ama' {mode}\nmostra 1{e}mostra {call}\n", "a.ama": f"func f(a: int): int{e}retorna 1 // a\nfim\n"}, ("run", "1\n", (n + 2, zero, [("f", n + 1)])))
        yield Text("entry code of a module", {"main.ama": f"usa 'a.ama' => m{e}mostra 1\n", "a.ama": f"a: int = 0{e}mostra 1 // a\n"}, ("run", "", (n + 1, zero, [])))
        for bad in ("mostra zz", "mostra 1 +", "x: int = 'a'", "mostra 'a", "retorna 1", "fim", "f(1, 2)", "usa 'nada.ama' => k", "mostra $", "se 1 entao\nfim"):
            yield Text("rejected", f"func f()\nfim{e}{bad}\n", ("reject", "main.ama", n + 2))
            if bad != "usa 'nada.ama' => k":
                yield Text("rejected module", {"main.ama": "usa 'a.ama' => m\nmostra 1\n", "a.ama": f"func f()\nfim{e}{bad}\n"}, ("reject", "a.ama", n + 2))
        yield Text("statements", "a: int = 0\n" + "a += 1\n" * n + "mostra a\nmostra 1 // (a - a)\n", ("run", f"{n}\n", (n + 3, zero, []))) if n < 5000 else Text("lines of comments", "a: int = 0\n" + "# c\n" * n + "mostra a\nmostra 1 // (a - a)\n", ("run", "0\n", (n + 3, zero, [])))


def spaces(tier):
    q = tier == "quick"
    few = {k: FAIL[k] for k in ("//", "index", "valor", "function", "method", "overflow +", "nested", "// after lines", "index of lines", "valor after lines")}
    if q:
        yield Space("places", f"{len(few)} failing operations in every place of expressions and statements, in 6 contexts", everywhere(few, None), judge_programs, 60)
        yield Space("operations", f"{len(FAIL)} failing operations in every place, in a function", everywhere(FAIL, (1,)), judge_programs, 60)
    else:
        yield Space("places", f"{len(FAIL)} failing operations in every place of expressions and statements, in 6 contexts", everywhere(FAIL, None), judge_programs, 60)
    yield Space("no failure", "the same places with operations that do not fail", everywhere(PASS, (0, 1, 4)), judge_programs, 60)
    yield Space("trees", f"every tree of up to {3 if q else 4} statements and blocks, with the failure at each of its steps", tree_space(3 if q else 4, LEAVES, BLOCKS), judge_programs, 80)
    yield Space("chains", "calls through every sequence of up to 3 of 9 kinds of calls, and of 6 to 45 that take turns", chains, judge_programs, 60)
    yield Space("recursion", "failures 0 to 1200 calls deep", recursion, judge_programs, 2)
    yield Space("layout", f"{len(INSERT)} insertions before every line of {len(BASE)} programs", layout_cases, judge_layout, 40)
    yield Space("far lines", f"errors of 18 kinds, of the program and of the compiler, beyond {len(FAR)} numbers of lines, of up to 70,000", far_lines, judge_texts, 6)
    yield Space("modules", "the chains and the places of 7 operations in one context, divided in modules in 5 ways", modular((chains, everywhere(few, (0, 1))), ("whole", "global", "items", "alias", "variables")), judge_programs, 60)
