"""C27: the module mat computes the functions it names."""
import itertools
import math
import struct

from mc.harness import Space, digest, reject_problem

PROP = "C27"
LEVEL = "exploration"
ULPS = 4
RULE = ("every function of mat on every argument (and pair of arguments) of the stated sets, every composition of two functions, each through every kind of import and in every kind of "
        f"place, is compiled and run, and the value shown compared with that of the mathematical function (within {ULPS} units in the last place; exactly for abs, raizqd, piso, teto and "
        "arredonda); two cases are distinct when their expressions differ")

TEXTS = ["0.0", "-0.0", "0.5", "-0.5", "1.0", "-1.0", "1.5", "-1.5", "2.0", "-2.0", "2.5", "-2.5", "3.0", "8.0", "10.0", "-10.0", "0.1", "-0.1", "100.0", "0.49999999999999994", "0.9999999999999999",
         "1.0000000000000002", "-0.49999999999999994", "3.141592653589793", "-3.141592653589793", "1.5707963267948966", "0.7853981633974483", "2.718281828459045", "45.0", "90.0", "180.0", "360.0", "-90.0", "1e-10",
         "1e10", "4503599627370495.5", "4503599627370496.5", "4503599627370497.5", "9007199254740992.0", "-9007199254740993.0", "9223372036854774784.0", "9223372036854775808.0", "-9223372036854775808.0",
         "-9223372036854777856.0", "1e19", "1e22", "1e100", "-1e100", "1e300", "1e308", "1e-300", "1e-308", "5e-324", "2.2250738585072014e-308", "1.7976931348623157e308", "inf", "-inf", "NaN"]
FEW = ["0.0", "-0.0", "0.5", "-0.5", "1.0", "-1.0", "2.0", "-2.0", "2.5", "3.0", "10.0", "0.1", "45.0", "1e10", "1e19", "1e300", "-1e300", "1e-300", "inf", "-inf", "NaN"]
INTS = ["0", "1", "-1", "2", "-2", "3", "10", "100", "-7", "9007199254740993", "9223372036854775807"]


def to_int(x):
    if math.isnan(x):
        return 0
    if math.isinf(x):
        return 2**63 - 1 if x > 0 else -(2**63)
    return max(-(2**63), min(2**63 - 1, int(x)))


def whole(f):
    return lambda x: to_int(x if math.isinf(x) or math.isnan(x) or abs(x) >= 2**53 else float(f(x)))


def away(x):
    n = math.floor(abs(x))
    if abs(x) - n >= 0.5:
        n += 1
    return math.copysign(n, x)


def power(x, y):
    try:
        return math.pow(x, y)
    except OverflowError:
        return -math.inf if x < 0 and float(y).is_integer() and y % 2 else math.inf
    except ValueError:
        if x == 0:
            return math.copysign(math.inf, x) if float(y).is_integer() and y % 2 else math.inf
        return math.nan


def ln(x):
    return math.nan if x < 0 else -math.inf if x == 0 else math.log(x)


def ieee_div(a, b):
    if b == 0:
        return math.nan if a == 0 or math.isnan(a) else math.copysign(math.inf, a) * math.copysign(1, b)
    return a / b


def trig(f):
    return lambda x: math.nan if math.isinf(x) else f(x)


def scaled(a, b):
    return lambda x: x * a / b if abs(x) < 1e300 else x * (a / b)


FUNCTIONS = {  # name: (number of parameters, exact, function)
    "abs": (1, True, abs),
    "raizqd": (1, True, lambda x: math.nan if x < 0 else math.sqrt(x)),
    "arredonda": (1, True, whole(away)),
    "piso": (1, True, whole(math.floor)),
    "teto": (1, True, whole(math.ceil)),
    "sen": (1, False, trig(math.sin)),
    "cos": (1, False, trig(math.cos)),
    "tan": (1, False, trig(math.tan)),
    "grausprad": (1, False, math.radians),
    "radpgraus": (1, False, math.degrees),
    "expoente": (2, False, power),
    "log": (2, False, lambda x, b: ieee_div(ln(x), ln(b))),
}
GIVES_INT = ("arredonda", "piso", "teto")


def order(x):
    (n,) = struct.unpack("<q", struct.pack("<d", x))
    return n if n >= 0 else -(2**63) - n


def same(text, want, exact):
    if isinstance(want, int):
        return text == str(want)
    try:
        got = float(text)
    except ValueError:
        return False
    if math.isnan(want) or math.isnan(got):
        return math.isnan(want) and math.isnan(got)
    if math.isinf(want) and not math.isinf(got) or text in ("inf", "-inf") and not math.isinf(want):
        return not exact and abs(got) > 1.79e308 and (got > 0) == (want > 0)
    if "." not in text and not math.isinf(got):
        return False
    if want == got:
        return True
    return not exact and abs(order(want) - order(got)) <= ULPS


def arg(t):
    """An expression for a real given as text, or for an int."""
    if t.lstrip("-").isdigit():
        return t
    if set(t) <= set("-.0123456789"):
        return t
    return f"('{t}' :> real)"


def value(t):
    return int(t) if t.lstrip("-").isdigit() else float(t)


class Case:
    def __init__(self, label, expr, want, exact, prelude="usa \"mat\" => m\n", body="mostra {}\n"):
        self.label, self.expr, self.want, self.exact, self.prelude, self.body = label, expr, want, exact, prelude, body


def source(cs):
    return cs[0].prelude + "".join(c.body.format(c.expr) for c in cs)


def judge(worker, cases):
    out = []
    groups = []
    for c in cases:
        if groups and groups[-1][0].prelude == c.prelude:
            groups[-1].append(c)
        else:
            groups.append([c])
    for cs in groups:
        r = worker.run({"files": {"main.ama": source(cs)}, "entry": "main.ama"})
        got = r.out.splitlines()
        whole_ok = r.status == "exit" and r.code == 0 and not r.err and len(got) == len(cs)
        for i, c in enumerate(cs):
            if whole_ok and same(got[i], c.want, c.exact):
                why, text = None, got[i]
            else:
                r = worker.run({"files": {"main.ama": source([c])}, "entry": "main.ama"})
                text = r.out.strip()
                why = None if r.status == "exit" and r.code == 0 and not r.err and same(text, c.want, c.exact) else f"{c.expr} should be {c.want}"
            o = {"key": digest(source([c])), "cls": c.label, "obs": digest(text), "bad": None, "label": f"{c.label}: {c.expr}", "sample": source([c])}
            if why:
                o["bad"] = {"what": why, "label": o["label"], "files": {"main.ama": source([c])}, "entry": "main.ama", "stdin": None, "more": {}, "expected": str(c.want),
                            "got": {"status": r.status, "code": r.code, "out": r.out[-500:], "err": r.err[-1500:]}}
            out.append(o)
    return out


def values_of(name, deep):
    k, exact, f = FUNCTIONS[name]
    if k == 1:
        for t in TEXTS + INTS:
            yield (t,), f(float(value(t)))
    else:
        for a, b in itertools.product(TEXTS + INTS if deep else FEW + INTS, repeat=2):
            yield (a, b), f(float(value(a)), float(value(b)))


def all_values(deep):
    for name, (k, exact, f) in FUNCTIONS.items():
        for ts, w in values_of(name, True):
            yield Case(name, f"m.{name}({', '.join(map(arg, ts))})", w, exact)
    yield Case("PI", "m.PI", math.pi, True)


def by_hand(limit):
    """Every multiple of 1/8 in a range, and every multiple of 15 degrees."""
    for i in range(-limit * 8, limit * 8 + 1):
        x = i / 8
        for name in ("abs", "raizqd", "arredonda", "piso", "teto", "sen", "cos", "tan"):
            k, exact, f = FUNCTIONS[name]
            yield Case(name + " in a range", f"m.{name}({x!r})", f(x), exact)
    for d in range(-720, 721, 15):
        yield Case("grausprad in a range", f"m.grausprad({d})", math.radians(d), False)
        yield Case("radpgraus in a range", f"m.radpgraus({d})", math.degrees(d), False)
    for b in range(2, 17):
        for e in range(-8, 13):
            yield Case("expoente in a range", f"m.expoente({b}, {e})", power(float(b), e), False)
            yield Case("log in a range", f"m.log(m.expoente({b}, {e}), {b})", math.log(power(float(b), e)) / math.log(b), False)


def compositions():
    for (f, (kf, ef, ff)), (h, (kh, eh, fh)) in itertools.product(FUNCTIONS.items(), repeat=2):
        for t in FEW:
            for extra in (("2.0",) if kf + kh > 2 else (None,)):
                v = fh(float(t)) if kh == 1 else fh(float(t), 2.0)
                if not (ef and eh) and isinstance(v, float) and (not math.isfinite(v) or abs(v) > 1e3 or abs(v) < 1e-3) and v != 0:
                    continue  # the last bits of an argument matter too much
                if not eh:
                    continue
                w = ff(float(v)) if kf == 1 else ff(float(v), 2.0)
                inner = f"m.{h}({arg(t)}{', 2.0' if kh == 2 else ''})"
                yield Case(f"{f} of {h}", f"m.{f}({inner}{', 2' if kf == 2 else ''})", w, ef)


MODES = [
    ("alias", 'usa "mat" => m\n', "m.{}"),
    ("global", 'usa "mat"\n', "{}"),
    ("item", 'usa "mat" => [{}]\n', "{}"),
    ("items", 'usa "mat" => [PI, abs, expoente, raizqd, arredonda, piso, teto, sen, cos, tan, log, grausprad, radpgraus]\n', "{}"),
    ("twice", 'usa "mat" => m\nusa "mat" => n\n', "n.{}"),
    ("alias and items", 'usa "mat" => m\nusa "mat" => [PI, abs, sen]\n', "m.{}"),
]
R = "v: real = {0}\nmostra v\n"
PLACES = [
    ("shown", "mostra {}\n"), ("variable", "{v}: {t} = {}\nmostra {v}\n"), ("argument", "mostra id_{t}({})\n"), ("result", "func {v}(): {t}\n  retorna {}\nfim\nmostra {v}()\n"),
    ("element", "mostra [{t}: {}][0]\n"), ("operand", "mostra 0 + {}\n"), ("condition", "se {} == {} entao\n  mostra {}\nfim\n"), ("field", "{v}: R{t} = R{t}(x: {})\nmostra {v}.x\n"),
    ("branch", "se verdadeiro entao\n  {v}: {t} = {}\n  mostra {v}\nfim\n"), ("loop", "para {v} de 0..1 faca\n  mostra {}\nfim\n"), ("optional", "{v}: {t}? = {}\nmostra {v}.valor\n"),
    ("iguala", "mostra iguala 1\n  1 => {}\n  _ => {}\nfim\n"), ("f-string", "mostra f'{{{}}}'\n"), ("converted", "mostra ({}) :> {t}\n"), ("method", "met bool::{v}(alvo): {t}\n  retorna {}\nfim\nmostra verdadeiro.{v}()\n"),
]
DEFS = "func id_real(x: real): real\n  retorna x\nfim\nfunc id_int(x: int): int\n  retorna x\nfim\nregisto Rreal\n  x: real\nfim\nregisto Rint\n  x: int\nfim\n"


def places():
    for mode, prelude, path in MODES:
        for k, (name, (n, exact, f)) in enumerate([*FUNCTIONS.items(), ("PI", (0, True, lambda: math.pi))]):
            ts = ("0.5", "3.0")[:n]
            e = path.format(name) + (f"({', '.join(ts)})" if n else "")
            t = "int" if name in GIVES_INT else "real"
            for place, body in PLACES:
                b = body.replace("{v}", f"v_{name}_{place.replace(' ', '_').replace('-', '_')}").replace("{t}", t).replace("{}", "{0}")
                yield Case(f"{mode}: {place}", e, f(*map(float, ts)), exact, prelude.format(name) + DEFS, b)


def mistakes():
    """What must be rejected: wrong numbers and types of arguments, and results where they do not fit."""
    for name, (n, _, _) in FUNCTIONS.items():
        ok = ["0.5", "3.0"][:n]
        for k in range(4):
            if k != n:
                yield f"m.{name} with {k} arguments", f"mostra m.{name}({', '.join(['1.0'] * k)})"
        for i in range(n):
            for w in ("'a'", "verdadeiro", "nulo", "[real: 1.0]", "vazia()", "m", f"m.{name}"):
                a = list(ok)
                a[i] = w
                yield f"m.{name} of {w}", f"mostra m.{name}({', '.join(a)})"
        e = f"m.{name}({', '.join(ok)})"
        for t in ("texto", "bool", "[real]") + (() if name in GIVES_INT else ("int",)):
            yield f"m.{name} as {t}", f"x: {t} = {e}"
        yield f"{name} without its module", f"mostra {e[2:]}"
    yield "m.nada", "mostra m.nada(1.0)"
    yield "PI as an int", "x: int = m.PI"
    yield "PI called", "mostra m.PI()"


def judge_mistakes(worker, cases):
    out = []
    for label, stmt in cases:
        files = {"main.ama": f'usa "mat" => m\nfunc vazia()\nfim\nmostra 1\n{stmt}\nmostra 2\n'}
        r = worker.run({"files": files, "entry": "main.ama"})
        why = reject_problem(r, files, "main.ama", 5)
        o = {"key": digest(stmt), "cls": "rejected" if r.code else "accepted", "obs": digest(r.err), "bad": None, "label": label, "sample": files["main.ama"]}
        if why:
            o["bad"] = {"what": why, "label": label, "files": files, "entry": "main.ama", "stdin": None, "more": {}, "expected": "rejected at line 5",
                        "got": {"status": r.status, "code": r.code, "out": r.out[-500:], "err": r.err[-1500:]}}
        out.append(o)
    return out


def spaces(tier):
    deep = tier != "quick"
    yield Space("values", f"every function on each of {len(TEXTS + INTS)} values, or each pair of them", lambda: all_values(deep), judge, 120)
    limit = 32 if not deep else 512
    yield Space("ranges", f"every multiple of 1/8 from -{limit} to {limit}, every multiple of 15 degrees up to two turns, powers of 2 to 16", lambda: by_hand(limit), judge, 120)
    yield Space("compositions", f"every function applied to the exact result of another, on each of {len(FEW)} values", compositions, judge, 120)
    yield Space("imports and places", f"every function through {len(MODES)} kinds of imports in {len(PLACES)} kinds of places", places, judge, 15)
    yield Space("mistakes", "wrong numbers and types of arguments, results in places of other types, names that do not exist", lambda: mistakes(), judge_mistakes, 24)
