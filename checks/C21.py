"""C21: literals and texts: what the source says is the value, character by character."""
import itertools

from mc import gen as g
from mc import model as m
from mc.harness import Case, Space, Text, judge_programs, judge_texts

PROP = "C21"
LEVEL = "exploration"
RULE = ("every text literal, f-string and number literal over the stated alphabets up to a length, every text over the stated code points up to a length with each of its "
        "indices, and every pair of literals in one program: what is shown (or the rejection and its line) is compared with the model; "
        "two cases are distinct when their sources differ")
V, I, B, T, R, call, idx = g.V, g.I, g.B, g.T, g.R, g.call, g.idx


def unescape(body, q):
    """The value of a literal with that body, or None if the delimiter ends it
    earlier."""
    out, i = "", 0
    while i < len(body):
        if body[i] == "\\" and i + 1 < len(body) and body[i + 1] in "n'\"":
            out += {"n": "\n"}.get(body[i + 1], body[i + 1])
            i += 2
        elif body[i] == "\\" and i + 1 == len(body):
            return None  # escapes the delimiter
        elif body[i] == q:
            return None
        else:
            out += body[i]
            i += 1
    return out


def groups(pairs, size, label, head="", tail=""):
    """Programs with `size` lines each, from (source of an expression, value)."""
    pairs = iter(pairs)
    while True:
        part = list(itertools.islice(pairs, size))
        if not part:
            return
        src, out = head, ""
        for e, v in part:
            src += f"mostra {e}\n"
            out += v + "\n"
        yield Text(f"{label} {part[0][0]}", src + tail, ("run", out, None))


def literals(n, alphabet):
    def pairs():
        for k in range(n + 1):
            for t in itertools.product(alphabet, repeat=k):
                body = "".join(t)
                for q in "'\"":
                    v = unescape(body, q)
                    if v is not None:
                        yield q + body + q, v

    def gen():
        yield from groups(pairs(), 10, "literal")
        # where each literal is used: the value must not depend on the place
        places = ("x: texto = {}\nmostra x\n", "func f(): texto\n  retorna {}\nfim\nmostra f()\n", "v: [texto] = [texto: {}]\nmostra v[0]\n", "func f(t: texto)\n  mostra t\nfim\nf({})\n",
                  "registo P\n  t: texto\nfim\np: P = P(t: {})\nmostra p.t\n", "x: indef = {}\nmostra x :> texto\n", "se verdadeiro entao\n  y: texto = {}\n  mostra y\nfim\n", "x: texto? = {}\nmostra x.valor\n",
                  "iguala {}\n  t => faca\n    mostra t\n  produz 1\n  fim\nfim\n", "escolha {}:\n  caso 'zzz':\n    mostra 1\n  senao:\n    mostra 'outro'\nfim\n")
        for t in itertools.chain.from_iterable(itertools.product(alphabet, repeat=k) for k in range(3)):
            for q in "'\"":
                v = unescape("".join(t), q)
                if v is not None:
                    for p in places[:-2]:
                        yield Text("place", p.format(q + "".join(t) + q), ("run", v + "\n", None))
    return gen


def unfinished():
    """Texts without an end are rejected on the line where they begin."""
    for q, body, before, after in itertools.product("'\"", ("", "a", "a b", "\\", "\\\\n", "a\nb", "\n\n", "#", "é", "{", "fim"), ("", "mostra 1\n", "mostra 'a'\n\n# c\n", "mostra \"a\nb\"\n", "x: int = 1;"), ("", "\n", "\nmostra 1\n")):
        src = before + "mostra " + q + body + after
        line = before.count("\n") + 1
        yield Text("unfinished", src, ("reject", "main.ama", line))
        yield Text("unfinished f", before + "mostra f" + q + body + after, ("reject", "main.ama", line))


PARTS = [("a", "a"), (" ", " "), ("{{", "{"), ("}", "}"), ("\\n", "\n"), ("é", "é"), ("\\", "\\"), ("{x}", "7"), ("{ y }", "2.5"), ("{s}", "ab"), ("{x + 1}", "8"), ("{f(x)}", "70"), ("{s[1]}", "b"), ("{v[0] * 2}", "6"), ("{p.n}", "9"),
         ("{-x}", "-7"), ("{(x + 1) * 2}", "16"), ("{b e nao b}", "falso"), ("{'z'}", "z"), ("{x == 7}", "verdadeiro"), ("#", "#"), (";", ";"), ("{x :> texto}", "7"), ("{o.valor_ou(3)}", "3")]
FHEAD = ("x: int = 7\ny: real = 2.5\ns: texto = \"ab\"\nv: [int] = [int: 3]\nb: bool = verdadeiro\no: int? = nulo\nregisto P\n  n: int\nfim\np: P = P(n: 9)\nfunc f(n: int): int\n  retorna n * 10\nfim\n")


def fstrings(n):
    def pairs():
        for k in range(n + 1):
            for ps in itertools.product(PARTS if k < 3 else PARTS[:14:1], repeat=k):
                src = "".join(a for a, _ in ps)
                # a backslash before the delimiter, or before an escape letter, is an escape
                # sequence, and '{' next to '{{' is not the grouping meant here
                if any(a == "\\" and (i + 1 == k or ps[i + 1][0][0] in "n'\"") for i, (a, _) in enumerate(ps)):
                    continue
                for q in "'\"":
                    if q not in src:
                        yield "f" + q + src + q, "".join(v for _, v in ps)

    def gen():
        yield from groups(pairs(), 10, "f-string", FHEAD)
        for e, v in pairs():
            if e.count("{") == 1:
                # inside of a function, on locals, after other lines
                inner = "func g(x: int, s: texto): texto\n" + FHEAD.replace("x: int = 7\n", "").replace("s: texto = \"ab\"\n", "").split("registo")[0].replace("\n", "\n  ").rstrip(" ")
                src = "registo P\n  n: int\nfim\np: P = P(n: 9)\nfunc f(n: int): int\n  retorna n * 10\nfim\n" + inner + f"  retorna {e}\nfim\nmostra g(7, 'ab')\nmostra tam(g(7, 'ab')) > -1\n"
                yield Text("f-string in a function", src, ("run", v + "\nverdadeiro\n", None))
    return gen


def bad_fstrings():
    bad = ["{", "{}", "{ }", "{x", "{x y}", "{x;}", "{x =}", "{zz}", "{x + }", "{x + 's'}", "{mostra x}", "{f}", "{g(x)}", "{s[s]}", "{f(1, 2)}", "{p.z}", "{x.y}", "{se}", "{1 2}", "{)}", "{(x}", "{x)}", "{x[0]}", "{nao x}", "{x: int}", "{x, y}", "{f'a'}", "{{{", "a {"]
    for b, before, after, q, place in itertools.product(bad, ("", "ok ", "{x} ", "\\n"), ("", " z", " {s}"), "\"'", ("mostra {}", "t: texto = {}", "se {} == s entao\nfim", "func h(): texto\n  retorna {}\nfim")):
        if q in b or (q in after) or (b.count("{") != b.count("}") and after):
            continue
        e = "f" + q + before + b + after + q
        src = FHEAD + place.replace("{}", e) + "\n"
        line = FHEAD.count("\n") + 1 + place.split("{}")[0].count("\n")
        yield Text(f"bad {b}", src, ("reject", "main.ama", line))


POINTS = ["a", "é", "e", "\u0301", "\u200d", "\U0001F469", "\U0001F467", "\U0001F1E6", "\U0001F1F4", "\U0001F3FD", "\u1100", "\u1161", "\u11a8", "\uac00", "\uac01", "\u200b", "\t", " ", "\ufe0f", "\u0903"]


def texts(points, n):
    """Size and each element of every text, stored as a literal and built."""
    def gen():
        for k in range(n + 1):
            for t in itertools.product(points, repeat=k):
                s = "".join(t)
                gs = m.graphemes(s)
                src = f"s: texto = \"{s}\"\nx: texto = \"x\"\nz: texto = f\"{{x}}{s}\"\nmostra tam(s)\nmostra tam(z)\n"
                out = f"{len(gs)}\n{len(m.graphemes('x' + s))}\n"
                for w, name in ((s, "s"), ("x" + s, "z")):
                    for i, c in enumerate(m.graphemes(w)):
                        src += f"mostra f\"<{{{name}[{i}]}}>\"\nmostra tam({name}[{i}])\nmostra {name}[{i}][0] == {name}[{i}]\nmostra {name}[{i}] == \"{c}\"\n"
                        out += f"<{c}>\n1\nverdadeiro\nverdadeiro\n"
                yield Text("text", src, ("run", out, None))
                far = tuple(w + d for w in (2**8, 2**16, 2**31, 2**32, 2**53, 2**63 - 2) for d in (-1, 0, 1)) if k == 1 or k == 2 and t[0] == t[1] else ()
                for i in (-1, len(gs), len(gs) + 1) + far + tuple(-j for j in far):
                    msg = "Erro de índice inválido. Strings só podem ser indexadas com inteiros positivos" if i < 0 else f"Erro de índice inválido. O tamanho da string é {len(gs)}, mas o índice é {i}"
                    if k < 3 and i != len(gs) + 1:
                        yield Text("out of the text", f"s: texto = \"{s}\"\nmostra 1\nmostra s[{i}]\n", ("run", "1\n", (3, msg, [])))
                        yield Text("out of a built text", f"x: texto = \"\"\ns: texto = f\"{{x}}{s}\"\nmostra 1\nmostra s[{i}]\n", ("run", "1\n", (4, msg, [])))
    return gen


def long_texts(sizes):
    """Long texts of ASCII characters but one: the size and every element, of a literal, of a built text and of a line of the input."""
    def gen():
        for n in sizes:
            for odd in ("", "é", "e\u0301", "\U0001F469\u200d\U0001F467", "\U0001F1E6\U0001F1F4"):
                for p in sorted({0, 1, 8, 16, 32, 64, 128, n // 2, n - 2, n - 1} & set(range(n))):
                    chars = [chr(97 + i * 7 % 26) for i in range(n)]
                    if odd:
                        chars[p] = odd
                    s = "".join(chars)
                    out = f"{n}\n" + "".join(f"<{c}>" for c in chars) + f"\n{'verdadeiro' if odd else 'falso'}\n"
                    rest = f"mostra tam(s)\npara i de 0..{n} faca\n  escreva(f\"<{{s[i]}}>\")\nfim\nescrevaln(\"\")\nmostra txt_contem(s, \"{odd or 'Z'}\")\nmostra s[{n}]\n"
                    err = lambda line: (line, f"Erro de índice inválido. O tamanho da string é {n}, mas o índice é {n}", [])
                    yield Text("long literal", f"s: texto = \"{s}\"\n" + rest, ("run", out, err(8)))
                    h = "".join(chars[:n // 2])
                    yield Text("long built text", f"h: texto = \"{h}\"\ns: texto = f\"{{h}}{s[len(h):]}\"\n" + rest, ("run", out, err(9)))
                    yield Text("long line", "s: texto = leia(\"\")\n" + rest, ("run", out, err(8)), stdin=(s + "\n").encode())
                    if not odd:
                        break
    return gen


def pairs_of_texts(alphabet, n):
    """Comparison and search, on literals and on built texts."""
    ts = ["".join(t) for k in range(n + 1) for t in itertools.product(alphabet, repeat=k)]
    b = lambda v: "verdadeiro" if v else "falso"

    def gen():
        for a in ts:
            for part in range(0, len(ts), 20):
                src, out = f"a: texto = \"{a}\"\nv: texto = \"\"\nc: texto = f\"{{a}}{{v}}\"\n", ""
                for d in ts[part:part + 20]:
                    src += f"mostra f\"{{a == '{d}'}} {{'{d}' == c}} {{a != f('{d}')}} {{txt_contem(a, '{d}')}} {{txt_contem(c, f('{d}'))}} {{txt_contem('{d}', a)}}\"\n"
                    out += " ".join(b(x) for x in (a == d, a == d, a != d, d in a, d in a, a in d)) + "\n"
                yield Text("pairs", "func f(x: texto): texto\n  retorna f\"{x}\"\nfim\n" + src, ("run", out, None))
        # as the cases of 'escolha' and of 'iguala'
        for a, d in itertools.product(ts, repeat=2):
            if len(a) + len(d) <= 3:
                yield Text("cases", f"func f(x: texto): texto\n  retorna f\"{{x}}\"\nfim\nescolha f(\"{a}\"):\n  caso \"{d}\":\n    mostra 1\n  caso '{a}':\n    mostra 2\n  senao:\n    mostra 3\nfim\n"
                           f"mostra iguala f(\"{a}\")\n  \"{d}\" => 1\n  '{a}' => 2\n  _ => 3\nfim\n" if d != a else
                           f"func f(x: texto): texto\n  retorna f\"{{x}}\"\nfim\nescolha f(\"{a}\"):\n  caso \"{d}\":\n    mostra 1\n  senao:\n    mostra 3\nfim\nmostra iguala f(\"{a}\")\n  \"{d}\" => 1\n  _ => 3\nfim\n",
                           ("run", "1\n1\n" if a == d else "2\n2\n", None))
    return gen


def numbers(n):
    """Every sequence of digits and points as the source of a number."""
    import re

    def gen():
        good = []
        for k in range(1, n + 1):
            for t in itertools.product("0193.", repeat=k):
                s = "".join(t)
                if re.fullmatch(r"[0-9]+", s):
                    good.append((s, str(int(s))))
                elif re.fullmatch(r"[0-9]+\.[0-9]+", s):
                    good.append((s, m.fmt_real(float(s))))
                else:
                    yield Text("not a number", f"mostra {s}\n", ("reject", "main.ama", 1))
        yield from groups(good, 20, "number")
    return gen


def big_numbers():
    ints = [2 ** k + d for k in (7, 8, 15, 16, 31, 32, 52, 53, 62, 63, 64, 65, 100) for d in (-2, -1, 0, 1)] + [10 ** k + d for k in range(1, 40) for d in (-1, 0, 1)] + [10 ** 400]
    for v in ints:
        for pre in ("", "0", "000"):
            if v <= m.INT_MAX:
                yield Text("int", f"mostra {pre}{v}\nmostra -{pre}{v}\n", ("run", f"{v}\n{-v}\n", None))
            else:
                for src in ("mostra {}", "x: int = {}", "mostra -{}", "mostra [int: {}]", "mostra iguala 1\n{} => 1\n_ => 2\nfim"):
                    yield Text("large int", src.format(pre + str(v)) + "\n", ("reject", "main.ama", 1 + ("\n" in src)))
    for n in (4299, 4300, 4301, 10000):
        yield Text("very large int", f"mostra 1{'0' * n}\n", ("reject", "main.ama", 1))
        yield Text("many zeros", f"mostra 0{'0' * n}\n", ("run", "0\n", None) if n < 4300 else ("reject", "main.ama", 1))
    reals = ["0." + "0" * k + d for k in (0, 1, 5, 10, 20, 100, 300, 322, 323, 330, 400) for d in ("1", "5", "49", "123456789012345678901234567890")] + [d + "0" * k + ".0" for k in (0, 5, 15, 16, 17, 20, 22, 100, 300, 307, 308) for d in ("1", "17", "123456789012345678901234567890", "9007199254740993")] + \
            ["0.1", "0.2", "0.3", "1.1", "2.675", "1.005", "3.14159265358979323846", "123456.789", "4.35", "0.000001", "1234567890.0987654321", "9999999999999999.0", "99999999999999999.9", "2.2250738585072014", "5e0".replace("e0", ".0")]
    for v in reals:
        f = float(v)
        yield Text("real", f"mostra {v}\nmostra -{v}\nx: real = {v}\nmostra x == {v}\nmostra x :> texto\n", ("run", f"{m.fmt_real(f)}\n{m.fmt_real(-f)}\nverdadeiro\n{m.fmt_real(f)}\n", None))


def built(n):
    """Texts with ends of lines, put together out of what is read."""
    def gen():
        for k in range(1, n + 1):
            for t in itertools.product(["a", "\r", "\n", "é"], repeat=k):
                parts = "".join(t).split("\n")
                body, join = (), ()
                for i, x in enumerate(parts):
                    body += (g.let(f"x{i}", "texto", call("leia", T(""))),)
                    join += (("\n",) if i else ()) + (V(f"x{i}"),)
                body += (g.let("t", "texto", ("fstr", join)), g.let("n", "int", call("tam", V("t"))), ("mostra", V("n")), ("para", "i", I(0), V("n"), None, (("mostra", ("fstr", ("<", idx(V("t"), V("i")), ">"))),)), ("mostra", idx(V("t"), V("n"))))
                yield Case("built", body, stdin=("".join(t) + "\n").encode())
    return gen


LITS = [("'verdadeiro'", "verdadeiro", "texto"), ("'falso'", "falso", "texto"), ("'nulo'", "nulo", "texto"), ("'1'", "1", "texto"), ("'1.0'", "1.0", "texto"), ("'inf'", "inf", "texto"), ("'NaN'", "NaN", "texto"), ("''", "", "texto"), ("\"''\"", "''", "texto"),
        ("'\"\"'", "\"\"", "texto"), ("\"1\"", "1", "texto"), ("\"'1'\"", "'1'", "texto"), ("'\\'1\\''", "'1'", "texto"), ("\"a\"", "a", "texto"), ("'a'", "a", "texto"), ("' '", " ", "texto"), ("'-1'", "-1", "texto"), ("'1e5'", "1e5", "texto"), ("'_inicio_'", "_inicio_", "texto"),
        ("1", "1", "int"), ("0", "0", "int"), ("01", "1", "int"), ("1.0", "1.0", "real"), ("0.0", "0.0", "real"), ("1.00", "1.0", "real"), ("verdadeiro", "verdadeiro", "bool"), ("falso", "falso", "bool"), ("9223372036854775807", "9223372036854775807", "int"), ("9223372036854775807.0", "9223372036854776000.0", "real"), ("'\\n'", "\n", "texto"), ("'é'", "é", "texto"), ("'\u0000'", "\u0000", "texto")]


def together():
    """Two literals in one program are two values, each with its own type."""
    for (a, va, ta), (b, vb, tb) in itertools.product(LITS, repeat=2):
        same = ta == tb and va == vb
        src = f"x: {ta} = {a}\ny: {tb} = {b}\nmostra x\nmostra y\nmostra {b}\nmostra {a}\nz: indef = {a}\nmostra z :> {ta}\nz = {b}\nmostra z :> {tb}\n"
        out = f"{va}\n{vb}\n{vb}\n{va}\n{va}\n{vb}\n"
        if ta == tb:
            src += f"mostra x == y\nmostra {a} != {b}\n"
            out += ("verdadeiro\nfalso\n" if same else "falso\nverdadeiro\n")
        if ta == tb == "texto":
            src += "mostra f\"{x}{y}\" == f\"{y}{x}\"\nmostra tam(f\"{x}{y}\")\n"
            out += ("verdadeiro\n" if va + vb == vb + va else "falso\n") + f"{len(m.graphemes(va + vb))}\n"
        yield Text(f"{a} and {b}", src, ("run", out, None))


def fstring_size():
    """f-strings with many parts and long texts."""
    for n in (1, 2, 10, 127, 128, 254, 255, 256, 257, 300, 600):
        for part, v in (("{x}", "7"), ("a{x}", "a7"), ("{x} ", "7 "), ("{s}{x}", "é7")):
            k = n * (1 + (part not in ("{x}",)))
            src = "x: int = 7\ns: texto = 'é'\n" + "mostra f\"" + part * n + "\"\nmostra x\n"
            # more than 255 parts: rejected, or with the right value; never another value
            yield Text(f"{n} parts {part}", src, ("run", v * n + "\n7\n", None) if k <= 255 else ("reject", "main.ama", 3))
    for n in (1, 255, 256, 65535, 65536, 100000):
        for c in ("a", "é", "\U0001F469"):
            yield Text(f"{n} long", f"s: texto = \"{c * n}\"\nmostra tam(s)\nmostra s[{n - 1}]\nmostra s == f\"{{s}}\"\n", ("run", f"{n}\n{c}\nverdadeiro\n", None))


def spaces(tier):
    q = tier == "quick"
    al = ["a", "n", "\\", "'", '"', "{", "}", "#", "é", ";", "\n"]
    yield Space("literals", f"every literal of up to {4 if q else 5} of {len(al)} symbols; up to 2 in 8 places", literals(4 if q else 5, al), judge_texts, 60)
    yield Space("unfinished texts", "11 texts without an end, in 15 contexts", unfinished, judge_texts, 60)
    yield Space("f-strings", f"every sequence of up to 2 of {len(PARTS)} parts{'' if q else ', and of 3 of 14'}", fstrings(2 if q else 3), judge_texts, 60)
    yield Space("wrong f-strings", "29 wrong expressions, in 48 contexts", bad_fstrings, judge_texts, 60)
    yield Space("elements of texts", f"every text of up to {2 if q else 3} of {len(POINTS)} code points", texts(POINTS, 2 if q else 3), judge_texts, 40)
    yield Space("elements of long texts", f"every text of {4 if q else 5} of 6 code points", texts(["a", "\u0301", "\u200d", "\U0001F469", "\U0001F1E6", "\u1161"], 4 if q else 5), judge_texts, 40)
    yield Space("long texts", "texts of up to 257 characters, one of which is not ASCII, in 10 places: every element of a literal, of a built text, of a line of the input", long_texts((9, 17, 33, 65, 129, 257) if q else (9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 513, 1025)), judge_texts, 30)
    yield Space("built texts", f"every text of up to {4 if q else 6} of a, é, CR and LF, built out of what is read", built(4 if q else 6), judge_programs, 40)
    yield Space("comparison and search", f"every pair of texts of up to {3 if q else 4} of 3 symbols", pairs_of_texts(["a", "b", "é"], 3 if q else 4), judge_texts, 20)
    yield Space("numbers", f"every sequence of up to {5 if q else 6} of 5 symbols", numbers(5 if q else 6), judge_texts, 60)
    yield Space("limits of numbers", "numbers around powers of 2 and of 10, long reals", big_numbers, judge_texts, 60)
    yield Space("pairs of literals", f"every pair of {len(LITS)} literals in one program", together, judge_texts, 60)
    yield Space("sizes", "f-strings of up to 600 parts and texts of up to 100,000 elements", fstring_size, judge_texts, 4)
