"""C22: input and output: each read takes the next line, in the order in which the program runs."""
import itertools

from mc import gen as g
from mc.harness import Case, Space, judge_programs

PROP = "C22"
LEVEL = "model_checking"
RULE = ("a state is the input that is left and what was written, a transition is a read or a write; every sequence of operations of the stated sets with every input of the "
        "stated sets is run on the real compiler and VM and compared with the model; two cases are distinct when their sources or inputs differ")
V, I, B, T, R, call, idx, put, get = g.V, g.I, g.B, g.T, g.R, g.call, g.idx, g.put, g.get
READ = {"leia": "texto", "leia_int": "int", "leia_real": "real"}
LINES = ["", "5", "-7", "2.5", "a b", " 5", "+3", "99999999999999999999", "inf", "é👩\u200d👧", "x\r", "-"]
ZERO = {"leia": T("?"), "leia_int": I(1), "leia_real": R("1.5")}


def inputs(lines, n):
    """Every list of up to n lines, with and without an end of the last one."""
    for k in range(n + 1):
        for ls in itertools.product(lines, repeat=k):
            s = "\n".join(ls)
            yield s.encode()
            if k:
                yield (s + "\n").encode()


def show_read(i, f):
    x = f"x{i}"
    return (g.let(x, READ[f], call(f, T(f"{i}: "))), ("mostra", ("fstr", ("<", V(x), ">"))))


def histories(depth, lines, n):
    def gen():
        for fs in itertools.product(READ, repeat=depth):
            body = ()
            for i, f in enumerate(fs):
                body += show_read(i, f)
            for data in inputs(lines, n):
                yield Case(" ".join(fs), body + (("mostra", T("fim")),), stdin=data)
    return gen


def writes(depth):
    """Reads between writes of each kind: the prompts and what is shown come in order."""
    ops = [g.do(call("escreva", T("a"))), g.do(call("escrevaln", T("b"))), ("mostra", I(3)), g.do(call("leia", T("p "))), ("mostra", call("leia_int", T("i "))), g.do(call("escreva", ("fstr", ("[", call("leia", T("", "'")), "]")))),
           g.do(call("escrevaln", g.vec("int", call("leia_int", T("v1")), call("leia_int", T("v2"))))), g.do(call("f"))]
    f = g.func("f", (), None, ("se", B(">", call("leia_int", T("f ")), I(5)), (("mostra", T("maior")),), (), (g.do(call("escreva", T("menor "))),)))

    def gen():
        for seq in itertools.product(ops, repeat=depth):
            yield Case("writes", (f,) + seq + (("mostra", T("fim")),), stdin=b"1\n20\n3\n40\n5\n60\n7\n")
    return gen


def single(e):
    """The expression with its texts between single quotes."""
    return ("txt", e[1], "'") if isinstance(e, tuple) and len(e) == 3 and e[0] == "txt" else tuple(map(single, e)) if isinstance(e, tuple) else e


def values():
    """What each kind of value is written as, by each of the ways of writing."""
    pre = (("registo", "P", (("n", "int"),)), ("uniao", "U", (("A", ()), ("C", ("int",)))), g.func("nada", (), None))
    es = [I(0), I(-5), I(2 ** 63 - 1), R("0.1"), R("-0.0"), R("100000000000000000000.0"), g.TRUE, g.FALSE, T(""), T("a\nb"), T("é"), g.vec("int"), g.vec("int", I(1), I(2)), g.vec("texto", T("a"), T("")), g.vec(("vec", "int"), g.vec("int"), g.vec("int", I(1))),
          ("new", "P", (("n", I(1)),)), g.vec("P", ("new", "P", (("n", I(1)),)), ("new", "P", (("n", I(2)),))), ("cast", g.NULO, ("opt", "int")), ("cast", I(4), ("opt", "int")), g.vec(("opt", "int"), g.NULO, I(3)), g.vec("real", I(1), R("2.5")), g.vec("bool", g.TRUE), ("vec", "real", (I(2), I(2))), ("vec", "texto", (I(2),)),
          g.vec("indef", I(1), T("a"), R("1.0"), g.TRUE), call("nada")]
    for e in es:
        for st in (("mostra", e), g.do(call("escreva", e)), g.do(call("escrevaln", e)), ("mostra", ("fstr", (single(e),))), g.let("x", "indef", e), g.do(call("leia", e)), g.do(call("leia_int", e)), ("mostra", ("cast", e, "texto"))):
            yield Case("values", pre + (st, ("mostra", T("|"))) + ((("mostra", V("x")),) if st[0] == "decl" else ()), stdin=b"8\n")


def places(lines):
    """A read in each place that an expression can be in."""
    def gen():
        for f, t in READ.items():
            r, rq = call(f, T("> ")), call(f, T("> ", "'"))
            pre = (("registo", "P", (("a", t), ("b", t))), g.func("dois", (("a", t), ("b", t)), t, ("mostra", V("b")), g.ret(V("a"))), ("met", t, "eu", (), t, (g.ret(("alvo",)),)))
            z = ZERO[f]
            ps = [(("mostra", B("==", r, r)),), (("mostra", call("dois", r, r)),), (g.let("p", "P", ("new", "P", (("b", r), ("a", r)))), ("mostra", get(V("p"), "a")), ("mostra", get(V("p"), "b"))), (("mostra", g.vec(t, r, r, r)),), (("mostra", ("mcall", r, "eu", ())),),
                  (g.let("o", ("opt", t), r), ("mostra", ("mcall", V("o"), "valor_ou", (r,)))), (("se", B("==", r, z), (("mostra", I(1)),), ((B("==", r, z), (("mostra", I(2)),)),), (("mostra", I(3)),)),), (g.let("x", "indef", r), ("mostra", ("cast", V("x"), t))),
                  (g.let("v", ("vec", t), g.vec(t, z, z)), put(idx(V("v"), I(1)), r), put(idx(V("v"), 0), r), ("mostra", V("v"))), (("mostra", ("fstr", (rq, "/", rq))),), (g.func("g", (), t, g.ret(r)), ("mostra", call("g")), ("mostra", call("g"))),
                  (("mostra", ("match", r, ((("pvar", "q"), ("block", (("mostra", V("q")),), r)),))),), (g.let("n", "int", I(0)), ("enquanto", B("e", B("<", V("n"), I(4)), B("!=", r, z)), (put("n", B("+", V("n"), I(1))),)), ("mostra", V("n"))), (g.do(r), g.do(r), ("mostra", r)),
                  (("mostra", call("dois", ("par", r), call("dois", r, r))),)]
            if t != "texto":
                ps += [(("mostra", B("-", r, r)),), (("mostra", ("un", "-", r)),), (g.let("x", t, r), put("x", r, "+="), put("x", r, "-="), ("mostra", V("x"))), (g.let("w", ("vec", t), g.vec(t, z)), put(idx(V("w"), 0), r, "*="), ("mostra", V("w"))), (("mostra", B("<", r, r)),)]
            if t == "int":
                ps += [(("mostra", idx(g.vec("int", I(7), I(8), I(9)), r)),), (("para", "i", r, r, None, (("mostra", V("i")),)),), (("mostra", ("vec", "int", (r, r))),), (("mostra", B("//", r, r)),), (("escolha", r, ((I(1), (("mostra", T("um")),)), (I(2), (("mostra", T("dois")),))), (("mostra", T("outro")),)),)]
            for p in ps:
                for data in lines:
                    yield Case(f"{f} in a place", pre + p, stdin=data)
                    yield Case(f"{f} in a function", pre + (g.func("corpo", (), None, *[s for s in p if s[0] != "func"]),) + (g.do(call("corpo")),), stdin=data) if not any(s[0] == "func" for s in p) else Case("f", pre + p + p[1:], stdin=data)
    return gen


def large():
    """Long lines and many lines."""
    loop = (g.let("n", "int", I(0)), g.let("t", "int", I(0)), g.let("s", "texto", call("leia", T(""))), ("enquanto", B("!=", V("s"), T("")), (put("n", B("+", V("n"), I(1))), put("t", B("+", V("t"), call("tam", V("s")))), put("s", call("leia", T(""))))), ("mostra", V("n")), ("mostra", V("t")))
    for n in (0, 1, 10, 1000, 9000):
        for line in ("x", "é" * 5, "ab" * 40):
            yield Case("lines", loop, stdin=(line + "\n").encode() * n, step_limit=10 ** 6)
    for n in (1, 4095, 4096, 8191, 8192, 8193, 65535, 65536, 200000):
        for ch in ("a", "é"):
            yield Case("long line", (("mostra", call("tam", call("leia", T("")))), ("mostra", call("leia", T("")))), stdin=(ch * n + "\nz").encode())


ODD = "\ufeff\x01\x04\x08\x0b\x0c\x1a\x1b\x1c\x1e\x1f\x7f\x85\xa0\u2028\u2029\u3000\u200b\u200e\xad\ufffd\ue000\uffff\U0010ffff#'\"\\{}%"


def odd_characters():
    """Each character that something else could take for a mark, a space or the end of a line, at each place of a line."""
    for c in ODD:
        for f, body in (("leia", "a"), ("leia_int", "5"), ("leia_real", "2.5")):
            for line in (c, c + body, body + c, body + c + body, c + c, c + body + c):
                for data in (line + "\n" + body + "\n", body + "\n" + line, "\n" + line + "\n" if f == "leia" else body + "\n" + line + "\n" + body):
                    yield Case(f"U+{ord(c):04X}, {f}", show_read(0, f) + show_read(1, f) + show_read(2, "leia"), stdin=data.encode())


def elements():
    """Texts that come from the input, with each of their elements."""
    points = ["a", "\r", "\u0301", "\u200d", "\U0001F469", "\U0001F1E6", "\u0000", "\t"]
    for k in range(4):
        for t in itertools.product(points, repeat=k):
            yield Case("elements", (g.let("s", "texto", call("leia", T(""))), g.let("n", "int", call("tam", V("s"))), ("mostra", V("n")), ("para", "i", I(0), V("n"), None, (("mostra", ("fstr", ("<", idx(V("s"), V("i")), ">"))), ("mostra", call("tam", idx(V("s"), V("i")))), ("mostra", call("txt_contem", V("s"), idx(V("s"), V("i")))))),
                       ("mostra", B("==", V("s"), call("leia", T("")))), ("mostra", idx(V("s"), V("n")))), stdin=("".join(t) + "\n" + "".join(t)).encode())


def bad():
    """Input that is not valid UTF-8: an error of the read that meets it, and of no other."""
    lines = [b"a", b"1", b"\xff", b"\xc3", b"a\xe9b", b"\xf0\x9f", b"\xed\xa0\x80", b""]
    for fs in itertools.product(READ, repeat=2):
        body = ()
        for i, f in enumerate(fs):
            body += show_read(i, f)
        for ls in itertools.product(lines, repeat=2):
            for end in (b"", b"\n"):
                yield Case("not UTF-8", body + (("mostra", T("fim")),), stdin=b"\n".join(ls) + end)


def spaces(tier):
    q = tier == "quick"
    yield Space("two reads", f"every pair of reads, every input of up to 2 of {len(LINES)} lines", histories(2, LINES, 2), judge_programs, 40)
    few = ["", "5", "2.5", "a"] if q else ["", "5", "-2", "2.5", "a"]
    yield Space("more reads", f"every sequence of {3 if q else 4} reads, every input of up to 3 of {len(few)} lines", histories(3 if q else 4, few, 3), judge_programs, 40)
    yield Space("reads and writes", f"every sequence of {3 if q else 4} of 8 operations", writes(3 if q else 4), judge_programs, 40)
    yield Space("values", "26 kinds of values, written in 8 ways", values, judge_programs, 40)
    yield Space("places", "reads in up to 25 places, 6 inputs", places([b"", b"1\n2\n0\n1\n", b"2\n1\n1\n0", b"1\n1\n", b"0\n3\n5\n2\n1\n", b"a\nb\nc\nd\n"]), judge_programs, 40)
    yield Space("not UTF-8", "every pair of reads, every pair of 8 lines, 6 of them not UTF-8", bad, judge_programs, 40)
    yield Space("sizes", "up to 9,000 lines, lines of up to 200,000 characters", large, judge_programs, 4)
    yield Space("odd characters", f"{len(ODD)} characters in 6 places of a line, 3 kinds of reads, 3 inputs", odd_characters, judge_programs, 60)
    yield Space("elements", "every text of up to 3 of 8 code points, read", elements, judge_programs, 40)
