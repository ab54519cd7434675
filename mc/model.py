"""Reference model of Amanda: a pretty printer, a static checker and an
evaluator, written from the language's rules, independent of /repo's code.

Programs are nested tuples.

Types      'int' 'real' 'bool' 'texto' 'indef' 'vazio', ('vec', T), ('opt', T),
           'P' (a registo or a união), ('app', 'Par', (T, ...)),
           ('path', 'M', 'P')
Expressions
  ('int', n) ('real', text) ('txt', s[, quote]) ('bool', b) ('nulo',) ('var', x)
  ('bin', op, l, r) ('un', op, e) ('par', e) ('call', f, args) ('get', e, name)
  ('mcall', e, name, args) ('idx', e, i) ('list', T, es) ('vec', T, dims)
  ('new', P, ((field, e), ...)) ('variant', U, V, args|None) ('cast', e, T)
  ('fstr', (str|expr, ...)[, quote]) ('match', e, ((pat, body), ...)) ('alvo',)
  ('text', source)  -- printed as it is; cannot be evaluated
Bodies     ('expr', e) or ('block', stmts, e|None)
Patterns   ('pvar', x) ('pint', n) ('ptxt', s) ('pcon', U, V, pats|None)
Statements
  ('decl', names, T, init|None) ('assign', lvalue, op, e) ('expr', e)
  ('mostra', e) ('se', c, blk, ((c, blk), ...), else|None) ('enquanto', c, blk)
  ('para', i, a, b, inc|None, blk) ('escolha', e, ((k, blk), ...), default|None)
  ('seiguala', e, pat, blk, else|None) ('quebra',) ('continua',)
  ('retorna', e|None) ('produz', e)
  ('func', name, ((p, T), ...), R|None, blk)
  ('met', T, name, ((p, T), ...), R|None, blk[, generic params])
  ('registo', name, ((f, T), ...)[, generic params])
  ('uniao', name, ((V, (T, ...)), ...)) ('usa', path, mode, arg)
  ('raw', text) -- printed as it is, can not be evaluated
"""
import struct
import sys

sys.setrecursionlimit(200000)

INT_MIN, INT_MAX = -(2**63), 2**63 - 1
PRIMS = ("int", "real", "bool", "texto", "indef", "vazio", "nulo")
OVERFLOW = "Erro ao realizar operação aritmética. Resultado fora do intervalo de inteiros representáveis"
DIV0 = "não pode dividir um número por zero"
MOD0 = "não pode calcular o resto da divisão de um número por zero"
NULO_ACCESS = "Não pode aceder uma referência nula"
RECURSION = "Limite máximo de recursão atingido"
MAX_FRAMES = 1000


class Reject(Exception):
    """The program must be rejected by the compiler."""

    def __init__(self, msg, line=None, file=None):
        super().__init__(msg)
        self.msg, self.line, self.file = msg, line, file


class RT(Exception):
    """A runtime error."""

    def __init__(self, msg, line):
        super().__init__(msg)
        self.msg, self.line, self.trace = msg, line, []


class Unsupported(Exception):
    """The model does not define this program."""


# ---------------------------------------------------------------- printing
PREC = {"==": 1, "!=": 1, "<": 2, ">": 2, "<=": 2, ">=": 2, "+": 3, "-": 3, "ou": 3,
        "*": 4, "/": 4, "//": 4, "%": 4, "e": 4}


def ty_src(t):
    if isinstance(t, str):
        return t
    if t[0] == "vec":
        return f"[{ty_src(t[1])}]"
    if t[0] == "opt":
        if isinstance(t[1], tuple) and t[1][0] == "opt":
            raise Unsupported("an optional type of an optional type")
        return ty_src(t[1]) + "?"
    if t[0] == "app":
        return f"{t[1]}[{', '.join(ty_src(a) for a in t[2])}]"
    if t[0] == "path":
        return ".".join(t[1:])
    raise Unsupported(t)


def quote_txt(s, q='"'):
    return q + s.replace("\n", "\\n").replace(q, "\\" + q) + q


class Printer:
    """Prints a program; annotates its statements with their lines."""

    def __init__(self, indent="  "):
        self.buf = []
        self.line = 1
        self.indent = indent
        self.depth = 0

    def w(self, s):
        self.buf.append(s)
        self.line += s.count("\n")

    def nl(self):
        self.w("\n" + self.indent * self.depth)

    def text(self):
        return "".join(self.buf)

    # expressions; return the annotated node
    def e(self, n, prec=0):
        k = n[0]
        if k == "bin":
            p = PREC[n[1]]
            if p < prec:
                return self.parens(n)
            l = self.e(n[2], p)
            line = self.line
            self.w(f" {n[1]} ")
            r = self.e(n[3], p + 1)
            return ("bin", n[1], l, r, line)
        if k == "un":
            if prec > 5:
                return self.parens(n)
            line = self.line
            self.w(n[1] + (" " if n[1] == "nao" else ""))
            return ("un", n[1], self.e(n[2], 5), line)
        if k == "cast":
            # a cast binds tighter than a unary operator, but nothing can be
            # applied to its result
            if prec > 5:
                return self.parens(n)
            e = self.e(n[1], 6)
            line = self.line
            self.w(" :> " + ty_src(n[2]))
            return ("cast", e, n[2], line)
        if k == "par":
            return self.parens(n[1])
        if k == "int":
            if n[1] < 0:
                raise Unsupported("negative literal")
            self.w(str(n[1]))
            return n
        if k in ("real", "text"):
            self.w(n[1])
            return n
        if k == "txt":
            self.w(quote_txt(n[1], n[2] if len(n) > 2 else '"'))
            return n
        if k == "bool":
            self.w("verdadeiro" if n[1] else "falso")
            return n
        if k == "nulo":
            self.w("nulo")
            return n
        if k == "var":
            self.w(n[1])
            return n
        if k == "alvo":
            self.w("alvo")
            return n
        if k == "call":
            line = self.line
            self.w(n[1])
            return ("call", n[1], self.args(n[2]), line)
        if k == "get":
            t = self.e(n[1], 6)
            self.w("." + n[2])
            return ("get", t, n[2], self.line)
        if k == "mcall":
            t = self.e(n[1], 6)
            self.w("." + n[2])
            line = self.line
            return ("mcall", t, n[2], self.args(n[3]), line)
        if k == "idx":
            t = self.e(n[1], 6)
            self.w("[")
            i = self.e(n[2])
            self.w("]")
            return ("idx", t, i, self.line)
        if k == "list":
            self.w(f"[{ty_src(n[1])}: " if n[2] else f"[{ty_src(n[1])}:")
            es = self.seq(n[2])
            self.w("]")
            return ("list", n[1], es)
        if k == "vec":
            self.w(f"vec({ty_src(n[1])}, ")
            es = self.seq(n[2])
            self.w(")")
            return ("vec", n[1], es)
        if k == "new":
            self.w(ty_src(n[1]) + "(")
            out = []
            for i, (f, x) in enumerate(n[2]):
                if i:
                    self.w(", ")
                self.w(f + ": ")
                out.append((f, self.e(x)))
            self.w(")")
            return ("new", n[1], tuple(out))
        if k == "variant":
            self.w(f"{n[1]}::{n[2]}")
            if n[3] is None:
                return n
            return ("variant", n[1], n[2], self.args(n[3]))
        if k == "fstr":
            q = n[2] if len(n) > 2 else '"'
            self.w("f" + q)
            parts = []
            for p in n[1]:
                if isinstance(p, str):
                    self.w(p.replace("{", "{{").replace("\n", "\\n").replace(q, "\\" + q))
                    parts.append(p)
                else:
                    before = len(self.buf)
                    self.w("{")
                    parts.append(self.e(p))
                    self.w("}")
                    if any(q in x or 'f"' in x or "f'" in x for x in self.buf[before:]):
                        raise Unsupported("the delimiter inside of an f-string")
            self.w(q)
            return ("fstr", tuple(parts))
        if k == "match":
            self.w("iguala ")
            t = self.e(n[1])
            self.depth += 1
            arms = []
            line = self.line
            for pat, body in n[2]:
                self.nl()
                aline = self.line
                self.w(pat_src(pat) + " => ")
                arms.append((pat, self.body(body), aline))
            self.depth -= 1
            self.nl()
            self.w("fim")
            return ("match", t, tuple(arms), line)
        raise Unsupported(n)

    def body(self, b):
        if b[0] == "expr":
            line = self.line
            return ("expr", self.e(b[1]), line)
        self.w("faca")
        stmts = list(b[1])
        if b[2] is not None:
            stmts.append(("produz", b[2]))
        out = self.block(stmts)
        self.nl()
        self.w("fim")
        return ("block", out)

    def parens(self, n):
        self.w("(")
        r = self.e(n)
        self.w(")")
        return r

    def seq(self, es):
        out = []
        for i, x in enumerate(es):
            if i:
                self.w(", ")
            out.append(self.e(x))
        return tuple(out)

    def args(self, es):
        self.w("(")
        out = self.seq(es)
        self.w(")")
        return out

    # statements; return (line, annotated)
    def block(self, stmts):
        self.depth += 1
        out = []
        for s in stmts:
            self.nl()
            out.append(self.s(s))
        self.depth -= 1
        return tuple(out)

    def end(self):
        self.nl()
        self.w("fim")

    def params(self, params):
        return ", ".join(f"{p}: {ty_src(t)}" for p, t in params)

    def s(self, n):
        line = self.line
        return (line, self.s_(n))

    def s_(self, n):
        k = n[0]
        if k == "decl":
            self.w(f"{', '.join(n[1])}: {ty_src(n[2])}")
            if n[3] is None:
                return n
            self.w(" = ")
            return ("decl", n[1], n[2], self.e(n[3]))
        if k == "assign":
            l = self.e(n[1])
            self.w(f" {n[2]} ")
            return ("assign", l, n[2], self.assigned(n[3]))
        if k == "expr":
            return ("expr", self.e(n[1]))
        if k == "mostra":
            self.w("mostra ")
            return ("mostra", self.e(n[1]))
        if k == "produz":
            self.w("produz ")
            return ("produz", self.e(n[1]))
        if k == "se":
            self.w("se ")
            c = self.e(n[1])
            self.w(" entao")
            b = self.block(n[2])
            elifs = []
            for ec, eb in n[3]:
                self.nl()
                el = self.line
                self.w("senaose ")
                ec = self.e(ec)
                self.w(" entao")
                elifs.append((el, ec, self.block(eb)))
            els = None
            if n[4] is not None:
                self.nl()
                self.w("senao")
                els = self.block(n[4])
            self.end()
            return ("se", c, b, tuple(elifs), els)
        if k == "enquanto":
            self.w("enquanto ")
            c = self.e(n[1])
            self.w(" faca")
            b = self.block(n[2])
            self.end()
            return ("enquanto", c, b)
        if k == "para":
            self.w(f"para {n[1]} de ")
            a = self.e(n[2])
            self.w("..")
            b = self.e(n[3])
            inc = None
            if n[4] is not None:
                self.w(" inc ")
                inc = self.e(n[4])
            self.w(" faca")
            blk = self.block(n[5])
            self.end()
            return ("para", n[1], a, b, inc, blk)
        if k == "escolha":
            self.w("escolha ")
            e = self.e(n[1])
            self.w(":")
            cases = []
            for ke, kb in n[2]:
                self.nl()
                kl = self.line
                self.w("caso ")
                ke = self.e(ke)
                self.w(":")
                cases.append((kl, ke, self.block(kb)))
            d = None
            if n[3] is not None:
                self.nl()
                self.w("senao:")
                d = self.block(n[3])
            self.end()
            return ("escolha", e, tuple(cases), d)
        if k == "seiguala":
            self.w("se iguala ")
            e = self.e(n[1])
            self.w(" => " + pat_src(n[2]) + " entao")
            b = self.block(n[3])
            els = None
            if n[4] is not None:
                self.nl()
                self.w("senao")
                els = self.block(n[4])
            self.end()
            return ("seiguala", e, n[2], b, els)
        if k in ("quebra", "continua"):
            self.w(k)
            return n
        if k == "retorna":
            self.w("retorna")
            if n[1] is None:
                return n
            self.w(" ")
            return ("retorna", self.e(n[1]))
        if k == "func":
            r = f": {ty_src(n[3])}" if n[3] is not None else ""
            self.w(f"func {n[1]}({self.params(n[2])}){r}")
            b = self.block(n[4])
            self.end()
            return ("func", n[1], n[2], n[3], b)
        if k == "met":
            r = f": {ty_src(n[4])}" if n[4] is not None else ""
            g = f"[{', '.join(n[6])}] " if len(n) > 6 and n[6] else ""
            ps = ", ".join(["alvo"] + [f"{p}: {ty_src(t)}" for p, t in n[3]])
            self.w(f"met{g or ' '}{ty_src(n[1])}::{n[2]}({ps}){r}")
            b = self.block(n[5])
            self.end()
            return ("met", n[1], n[2], n[3], n[4], b, n[6] if len(n) > 6 else ())
        if k == "registo":
            g = f"[{', '.join(n[3])}]" if len(n) > 3 and n[3] else ""
            self.w(f"registo {n[1]}{g}")
            self.depth += 1
            for f, t in n[2]:
                self.nl()
                self.w(f"{f}: {ty_src(t)}")
            self.depth -= 1
            self.end()
            return ("registo", n[1], n[2], n[3] if len(n) > 3 else ())
        if k == "uniao":
            self.w(f"uniao {n[1]}")
            self.depth += 1
            for i, (v, ts) in enumerate(n[2]):
                self.nl()
                self.w(v + (f"({', '.join(map(ty_src, ts))})" if ts else ""))
                if i < len(n[2]) - 1:
                    self.w(",")
            self.depth -= 1
            self.end()
            return n
        if k == "usa":
            self.w(f'usa "{n[1]}"')
            if n[2] == "alias":
                self.w(f" => {n[3]}")
            elif n[2] == "items":
                self.w(f" => [{', '.join(n[3])}]")
            return n
        if k == "raw":
            self.w(n[1])
            return n
        raise Unsupported(n)

    def assigned(self, e):
        if e[0] == "assign":  # chained
            l = self.e(e[1])
            self.w(f" {e[2]} ")
            return ("assign", l, e[2], self.assigned(e[3]))
        return self.e(e)

    def program(self, stmts):
        out = []
        for s in stmts:
            out.append(self.s(s))
            self.w("\n")
        return tuple(out)


def pat_src(p):
    if p[0] == "pvar":
        return p[1]
    # The third part, when there is one, is another spelling of the same value
    if p[0] == "pint":
        return p[2] if len(p) > 2 else str(p[1])
    if p[0] == "ptxt":
        return p[2] if len(p) > 2 else quote_txt(p[1])
    if p[0] == "pcon":
        s = f"{p[1]}::{p[2]}"
        if p[3] is not None:
            if not p[3]:
                raise Unsupported("empty list of patterns")
            s += f"({', '.join(map(pat_src, p[3]))})"
        return s
    if p[0] == "ptext":
        return p[1]
    raise Unsupported(p)


def show(stmts):
    pr = Printer()
    ann = pr.program(stmts)
    return pr.text(), ann


def expr_src(e):
    pr = Printer()
    pr.e(e)
    return pr.text()


# ------------------------------------------------------------------ values
class Vec:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items


class Obj:
    __slots__ = ("ty", "fields")

    def __init__(self, ty, fields):
        self.ty, self.fields = ty, fields


class Var:
    __slots__ = ("uni", "tag", "args")

    def __init__(self, uni, tag, args):
        self.uni, self.tag, self.args = uni, tag, args


def fmt_real(x):
    if x != x:
        return "NaN"
    if x in (float("inf"), float("-inf")):
        return "inf" if x > 0 else "-inf"
    from decimal import Decimal

    r = repr(x)
    # which of two shortest texts, when the number is just between them, is not
    # defined (an exact tie needs the last digit to be worth at least 2^-52)
    if abs(x) > 1e6 and x != int(x) or abs(x) >= 1e15:
        d, exact = Decimal(r), Decimal(x)
        other = exact + exact - d
        if d != exact and len(other.normalize().as_tuple().digits) <= len(d.normalize().as_tuple().digits) and float(other) == x:
            raise Unsupported("two shortest texts of a number")
    if "e" in r or "E" in r:
        r = format(Decimal(r), "f")
    if "." not in r:
        r += ".0"
    return r


def display(v):
    if v is None:
        return "nulo"
    if v is True:
        return "verdadeiro"
    if v is False:
        return "falso"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, float):
        return fmt_real(v)
    if isinstance(v, str):
        return v
    if isinstance(v, Vec):
        return "[" + ", ".join(display(x) for x in v.items) + "]"
    if isinstance(v, Obj):
        return f"<Instância do tipo {v.ty.name}>"
    if isinstance(v, Var):
        return f"<Variante({v.tag})>"
    raise Unsupported(v)


def kind(v):
    if v is None:
        return "nulo"
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "int"
    if isinstance(v, float):
        return "real"
    if isinstance(v, str):
        return "texto"
    if isinstance(v, Vec):
        return "Vector"
    if isinstance(v, Obj):
        return "Registo"
    return "Uniao"


def equal(a, b):
    ka, kb = kind(a), kind(b)
    if ka in ("int", "real") and kb in ("int", "real"):
        if ka != kb:
            return float(a) == float(b)
        return a == b
    if ka != kb:
        return False
    if ka == "Uniao":
        return a.tag == b.tag and all(equal(x, y) for x, y in zip(a.args, b.args))
    if ka in ("Vector", "Registo"):
        return a is b
    return a == b


def grapheme_class(ch):
    import unicodedata

    o, cat = ord(ch), unicodedata.category(ch)
    if ch in "\r\n":
        return "CR" if ch == "\r" else "LF"
    if ch == "\u200d":
        return "ZWJ"
    if ch == "\u200c" or cat in ("Mn", "Me") or 0x1F3FB <= o <= 0x1F3FF:
        return "Extend"
    if cat in ("Cc", "Cf", "Zl", "Zp"):
        return "Control"
    if 0x1F1E6 <= o <= 0x1F1FF:
        return "RI"
    if cat == "Mc":
        return "SpacingMark"
    if 0x1100 <= o <= 0x115F:
        return "L"
    if 0x1160 <= o <= 0x11A7:
        return "V"
    if 0x11A8 <= o <= 0x11FF:
        return "T"
    if 0xAC00 <= o <= 0xD7A3:
        return "LV" if (o - 0xAC00) % 28 == 0 else "LVT"
    if 0x1F300 <= o <= 0x1FAFF or o in (0x2764, 0x2640, 0x2642, 0xA9, 0xAE):
        return "Pictograph"
    return "Other"


def graphemes(s):
    """The extended grapheme clusters of a text (Unicode, annex 29), without
    the rules for prepended marks and for Indic conjuncts."""
    out, classes = [], []
    for ch in s:
        c = grapheme_class(ch)
        if out:
            prev = classes[-1]
            p = prev[-1]
            if p in ("CR", "LF", "Control") or c in ("CR", "LF", "Control"):
                joined = p == "CR" and c == "LF"
            elif c in ("Extend", "ZWJ", "SpacingMark"):
                joined = True
            elif p == "L":
                joined = c in ("L", "V", "LV", "LVT")
            elif p in ("LV", "V"):
                joined = c in ("V", "T")
            elif p in ("LVT", "T"):
                joined = c == "T"
            elif c == "Pictograph" and p == "ZWJ":
                before = [x for x in prev[:-1] if x != "Extend"]
                joined = bool(before) and before[-1] == "Pictograph"
            elif c == "RI" and p == "RI":
                joined = len(prev) % 2 == 1 and all(x == "RI" for x in prev)
            else:
                joined = False
            if joined:
                out[-1] += ch
                prev.append(c)
                continue
        out.append(ch)
        classes.append([c])
    return out


def fdiv(a, b):
    return a / b


def ffmod(a, b):
    import math

    if a in (float("inf"), float("-inf")) or a != a or b != b:
        return float("nan")
    return math.fmod(a, b)


def to_i64(x):
    if x != x:
        return 0
    if x >= 9.223372036854775807e18:
        return INT_MAX
    if x <= -9.223372036854775808e18:
        return INT_MIN
    return int(x)


def parse_i64(s):
    import re

    if not re.fullmatch(r"[+-]?[0-9]+", s):
        return None
    v = int(s)
    return v if INT_MIN <= v <= INT_MAX else None


def parse_f64(s):
    import re

    if re.fullmatch(r"[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?", s):
        return float(s)
    if re.fullmatch(r"[+-]?(inf|infinity|nan)", s, re.I):
        return float(s)
    return None


def arith(op, a, b, line):
    """Operands are both int or both float (already promoted)."""
    if isinstance(a, float) or isinstance(b, float):
        a, b = float(a), float(b)
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "%":
            if b == 0.0:
                raise RT(MOD0, line)
            return ffmod(a, b)
        if b == 0.0:
            raise RT(DIV0, line)
        if op == "/":
            return ieee_div(a, b)
        q = ieee_div(a, b)
        if q != q or q in (float("inf"), float("-inf")):
            return q
        import math

        t = float(math.trunc(q))
        return math.copysign(0.0, q) if t == 0 else t
    if op == "+":
        r = a + b
    elif op == "-":
        r = a - b
    elif op == "*":
        r = a * b
    elif op == "/":
        if b == 0:
            raise RT(DIV0, line)
        return ieee_div(float(a), float(b))
    elif op == "//":
        if b == 0:
            raise RT(DIV0, line)
        r = abs(a) // abs(b)
        r = r if (a < 0) == (b < 0) else -r
    elif op == "%":
        if b == 0:
            raise RT(MOD0, line)
        if a == INT_MIN and b == -1:
            raise RT(OVERFLOW, line)
        r = abs(a) % abs(b)
        r = -r if a < 0 else r
    if not INT_MIN <= r <= INT_MAX:
        raise RT(OVERFLOW, line)
    return r


def ieee_div(a, b):
    try:
        return a / b
    except OverflowError:
        raise Unsupported("division overflow")


def ieee_mul(a, b):
    return a * b


# ------------------------------------------------------------------- types
class RegTy:
    def __init__(self, name, fields, params=()):
        self.name, self.fields, self.params = name, fields, tuple(params)
        self.methods = {}

    def __repr__(self):
        return self.name


class UniTy:
    def __init__(self, name, variants):
        self.name, self.variants = name, variants  # {V: [types]}
        self.methods = {}
        self.tags = {v: i for i, v in enumerate(variants)}

    def __repr__(self):
        return self.name


def is_opt(t):
    return isinstance(t, tuple) and t[0] == "opt"


def is_vec(t):
    return isinstance(t, tuple) and t[0] == "vec"


def is_prim(t):
    return isinstance(t, str)


PROM = {"int": ("real", "indef"), "real": ("indef",), "bool": ("indef",), "texto": ("indef",)}


def promotes(a, b):
    if is_prim(b):
        if is_prim(a):
            return b in PROM.get(a, ())
        return b == "indef"
    if is_opt(b):
        return b[1] == a or promotes(a, b[1]) or a == "nulo"
    return False


def match_ty(exp, got):
    return exp == got or promotes(got, exp)


def can_cast(a, b):
    if is_prim(a) and is_prim(b):
        if a == b:
            return True
        conv = ("int", "real", "bool", "texto", "indef")
        if a in ("int", "real", "texto", "indef"):
            return b in conv
        return a == "bool" and b in ("texto", "indef")
    if is_opt(b):
        return is_prim(a) and (a == "nulo" or can_cast(a, b[1]))
    return False


def num(t):
    return t in ("int", "real")


def binop_ty(op, a, b):
    eq = op in ("==", "!=")
    if is_prim(a):
        if not is_prim(b) or b in ("vazio", "indef"):
            return None
        if op in ("+", "-", "*", "/", "//", "%"):
            if num(a) and num(b):
                return "int" if a == b == "int" and op != "/" else "real"
            return None
        if op in ("<", ">", "<=", ">="):
            return "bool" if num(a) and num(b) else None
        if eq:
            return "bool" if (num(a) and num(b)) or a == b or promotes(a, b) or promotes(b, a) else None
        return "bool" if a == b == "bool" else None
    if is_opt(a):
        return "bool" if eq else None
    if isinstance(a, RegTy):
        return "bool" if eq and isinstance(b, RegTy) else None
    if isinstance(a, tuple) and a[0] == "app":
        return "bool" if eq and (isinstance(b, RegTy) or is_opt(b) or (isinstance(b, tuple) and b[0] == "app")) else None
    return None


def promote_val(v, frm, to):
    """int values become real when they are promoted to real or real?"""
    while is_opt(to):
        to = to[1]
    if frm == "int" and to == "real":
        return float(v)
    return v


def cast_val(v, frm, to, line):
    if is_opt(to):
        if v is None:
            return None
        return cast_val(v, frm, to[1], line)
    if frm == to or to == "indef":
        return v
    if frm == "indef":
        if kind(v) != to:
            raise RT(f"Conversão inválida. O tipo original do valor é '{kind(v)}', mas tentou converter o valor para o tipo '{to}'", line)
        return v
    if to == "texto":
        return display(v)
    if to == "int":
        if isinstance(v, float):
            return to_i64(v)
        r = parse_i64(v)
        if r is None:
            raise RT(f"A sequência de caracteres '{v}' não é um inteiro válido", line)
        return r
    if to == "real":
        if isinstance(v, int):
            return float(v)
        r = parse_f64(v)
        if r is None:
            raise RT(f"A sequência de caracteres '{v}' não é um número real válido", line)
        return r
    if to == "bool":
        return v != "" if isinstance(v, str) else v != 0
    raise Unsupported((frm, to))


def zero(t):
    return {"int": 0, "real": 0.0, "bool": False, "texto": ""}[t]


ZEROED = ("int", "real", "bool", "texto")


# ------------------------------------------------- static check + evaluation
class VSym:
    __slots__ = ("name", "ty", "glob", "module")

    def __init__(self, name, ty, glob, module):
        self.name, self.ty, self.glob, self.module = name, ty, glob, module


class FSym:
    __slots__ = ("name", "params", "ret", "run", "module", "native", "is_met", "target")

    def __init__(self, name, params, ret, module, native=None):
        self.name, self.params, self.ret, self.module = name, params, ret, module
        self.run, self.native, self.is_met, self.target = None, native, False, None


class MSym:
    __slots__ = ("name", "mod")

    def __init__(self, name, mod):
        self.name, self.mod = name, mod


class Scope:
    __slots__ = ("names", "up", "depth")

    def __init__(self, up):
        self.names, self.up = {}, up
        self.depth = 0 if up is None else up.depth + 1

    def find(self, n):
        s = self
        while s is not None:
            if n in s.names:
                return s.names[n]
            s = s.up
        return None


class Frame:
    __slots__ = ("v", "alvo")

    def __init__(self):
        self.v = {}
        self.alvo = None


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Return(Exception):
    def __init__(self, v):
        self.v = v


class World:
    """Everything that a run has: output, input, call depth, modules."""

    def __init__(self, stdin=b"", step_limit=200000):
        self.out = []
        self.depth = 1
        self.stdin = stdin
        self.pos = 0
        self.steps = 0
        self.step_limit = step_limit

    def tick(self):
        self.steps += 1
        if self.steps > self.step_limit:
            raise Unsupported("step limit")

    def read_line(self, line):
        rest = self.stdin[self.pos:]
        i = rest.find(b"\n")
        raw = rest if i < 0 else rest[: i + 1]
        self.pos += len(raw)
        try:
            s = raw.decode("utf-8")
        except UnicodeDecodeError:
            raise RT("Não foi possível ler o valor introduzido", line)
        return s[:-1] if s.endswith("\n") else s


def w_leia(w, args, line):
    w.out.append(display(args[0]))
    return w.read_line(line)


def w_leia_int(w, args, line):
    r = parse_i64(w_leia(w, args, line))
    if r is None:
        raise RT("Valor introduzido não é um inteiro válido", line)
    return r


def w_leia_real(w, args, line):
    r = parse_f64(w_leia(w, args, line))
    if r is None:
        raise RT("Valor introduzido não é um número real válido", line)
    return r


def w_escreva(w, args, line):
    w.out.append(display(args[0]))
    return False


def w_escrevaln(w, args, line):
    w.out.append(display(args[0]) + "\n")
    return False


NATIVE = {
    "leia": ((("mensagem", "texto"),), "texto", w_leia),
    "leia_int": ((("mensagem", "texto"),), "int", w_leia_int),
    "leia_real": ((("mensagem", "texto"),), "real", w_leia_real),
    "escreva": ((("item", "indef"),), "vazio", w_escreva),
    "escrevaln": ((("item", "indef"),), "vazio", w_escrevaln),
    "txt_contem": ((("palheiro", "texto"), ("agulha", "texto")), "bool", lambda w, a, l: a[1] in a[0]),
}
SPECIAL = ("vec", "anexa", "remova", "tam")


class Module:
    def __init__(self, name):
        self.name = name
        self.scope = None
        self.globals = {}
        self.loaded = False
        self.entry = None  # closure that runs the entry code


class Program:
    """A program: {file name: statements}. `compile` raises Reject."""

    def __init__(self, files, entry="main.ama"):
        if not isinstance(files, dict):
            files = {"main.ama": files}
        self.src = {}
        self.ann = {}
        self.broken = None
        for name, stmts in files.items():
            pr = Printer()
            try:
                self.ann[name] = pr.program(stmts)
            except Unsupported as u:
                self.broken = u
            self.src[name] = pr.text()
        self.entry = entry
        self.modules = {}
        self.order = []
        self.prim_methods = {}

    def compile(self):
        if self.broken:
            raise self.broken
        root = Scope(None)
        c = Compiler(self, self.entry, root)
        m = self.modules[self.entry] = Module(self.entry)
        m.scope = root
        m.entry = c.module(self.ann[self.entry])
        m.loaded = True
        self.order.append(m)
        return self

    def run(self, stdin=b"", step_limit=200000):
        """Returns (stdout, None | (line, msg, trace))."""
        w = World(stdin, step_limit)
        for m in self.modules.values():
            m.globals = {}
        try:
            for m in self.order:
                m.entry(w)
        except RT as e:
            return "".join(w.out), (e.line, e.msg, e.trace)
        return "".join(w.out), None


def expected_err(err):
    """The text that the VM prints for a runtime error."""
    line, msg, trace = err
    s = ""
    if trace:
        s = "Fluxo de execução: \n" + "".join(f"    Linha {l}, na função {f}\n" for f, l in trace)
    return s + f"Erro na linha {line}: {msg}."


class Compiler:
    def __init__(self, prog, file, root):
        self.prog, self.file = prog, file
        self.scope = root
        self.root = root
        self.line = 1
        self.func = None  # (ret type, is method, target)
        self.loop = 0
        self.tyvars = {}
        self.yield_ty = None
        self.in_reg = False
        if not root.names:
            for n, (ps, r, fn) in NATIVE.items():
                root.names[n] = FSym(n, ps, r, "<builtin>", fn)
            for n in SPECIAL:
                root.names[n] = ("special", n)
            for t in PRIMS:
                root.names[t] = ("prim", t)
            root.names["Opcao"] = ("opcao",)

    def rej(self, msg, line=None):
        raise Reject(msg, line or self.line, self.file)

    # ---- types
    def ty(self, t):
        if t is None:
            return "vazio"
        if isinstance(t, str):
            s = self.scope.find(t)
            if s is None:
                s = self.tyvars.get(t)
                if s is not None:
                    return s
            if t in ("vazio", "nulo"):
                self.rej("not a type that can be written")
            if isinstance(s, tuple) and s[0] == "prim":
                return t
            if isinstance(s, (RegTy, UniTy)):
                return s
            self.rej(f"unknown type {t}")
        if t[0] == "vec":
            return ("vec", self.ty(t[1]))
        if t[0] == "opt":
            return ("opt", self.ty(t[1]))
        if t[0] == "path":
            s = self.scope.find(t[1])
            if not isinstance(s, MSym):
                self.rej("not a module")
            r = s.mod.scope.names.get(t[2])
            if isinstance(r, tuple) and r[0] == "prim":
                return t[2]
            if not isinstance(r, (RegTy, UniTy)):
                self.rej("no such type")
            return r
        if t[0] == "app":
            s = self.scope.find(t[1])
            if not isinstance(s, RegTy):
                self.rej("not generic")
            if len(s.params) != len(t[2]):
                self.rej("wrong number of type arguments")
            return ("app", s, tuple(self.ty(a) for a in t[2]))
        raise Unsupported(t)

    # ---- scopes
    def push(self):
        self.scope = Scope(self.scope)

    def pop(self):
        self.scope = self.scope.up

    def declare(self, name, ty):
        if name in self.scope.names:
            self.rej(f"'{name}' already declared")
        glob = self.scope.depth == 0
        s = VSym(name, ty, glob, self.file)
        self.scope.names[name] = s
        return s

    # ---- program
    def module(self, stmts):
        self.syntax(stmts, True)
        code = self.stmts(stmts)

        def run(w):
            f = Frame()
            for c in code:
                c(w, f)

        return run

    def syntax(self, stmts, top=False):
        """Statements that the grammar only allows in some places: the first
        of them is reported before anything else."""
        for line, s in stmts:
            if s[0] == "usa" and not top:
                self.rej("syntax: 'usa' after another statement", line)
            if s[0] == "decl" and len(s[1]) > 1 and s[3] is not None:
                self.rej("syntax: initial value of several variables", line)
            top = top and s[0] == "usa"
            self.inner(s)

    def inner(self, x):
        if not isinstance(x, tuple) or not x:
            return
        if len(x) == 2 and type(x[0]) is int and isinstance(x[1], tuple) and x[1] and x[1][0] in ("decl", "usa"):
            self.syntax((x,))
            return
        for y in x:
            if isinstance(y, tuple):
                self.inner(y)

    def block(self, stmts, setup=None):
        """Compiles a block in its own scope; `setup` declares names in it."""
        self.push()
        syms = setup() if setup else None
        code = self.stmts(stmts)
        self.pop()
        if len(code) == 1:
            run = code[0]
        else:
            def run(w, f):
                for c in code:
                    c(w, f)
        return (run, syms) if setup else run

    def stmts(self, stmts):
        return [self.stmt(line, s) for line, s in stmts]

    # ---- statements
    def stmt(self, line, s):
        self.line = line
        return getattr(self, "s_" + s[0])(s, line)

    def store(self, sym):
        if sym.glob:
            mod = self.prog.modules.get(sym.module)
            name = sym.name

            def st(w, f, v):
                mod.globals[name] = v
        else:
            def st(w, f, v):
                f.v[sym] = v
        return st

    def s_decl(self, s, line):
        _, names, t, init = s
        codes = []
        for name in names:
            if name in self.scope.names:
                self.rej(f"'{name}' already declared")
            ty = self.ty(t)
            sym = self.declare(name, ty)
            if init is None:
                if ty not in ZEROED:
                    self.rej("must be initialised")
                z = zero(ty)
                codes.append((self.store(sym), None, z))
            else:
                if mentions(init, name, self, sym):
                    self.rej("self reference")
                ity, ie = self.e(init)
                if not match_ty(ty, ity):
                    self.rej("bad initialiser")
                codes.append((self.store(sym), self.prom(ie, ity, ty), None))

        def run(w, f):
            for st, ie, z in codes:
                st(w, f, ie(w, f) if ie else z)

        return run

    def prom(self, ex, frm, to):
        base = to
        while is_opt(base):
            base = base[1]
        if frm == "int" and base == "real":
            return lambda w, f: float(ex(w, f))
        return ex

    def s_expr(self, s, line):
        _, ex = self.e(s[1])
        return lambda w, f: ex(w, f) and None

    def s_mostra(self, s, line):
        t, ex = self.e(s[1])

        def run(w, f):
            w.tick()
            w.out.append(display(ex(w, f)) + "\n")

        return run

    def s_assign(self, s, line):
        st, ty = self.assign(s)
        return lambda w, f: st(w, f) and None

    def assign(self, s):
        """Compiles an assignment; returns (closure giving the value, type)."""
        _, lv, op, rhs = s
        line = self.line
        if lv[0] == "var":
            sym = self.scope.find(lv[1])
            if sym is None:
                self.rej("not declared")
            if isinstance(sym, MSym):
                self.rej("assignment to module")
            if not isinstance(sym, VSym):
                self.rej("not a variable")
            if sym.module != self.file:
                self.rej("global of another module")
            ty = sym.ty
            st = self.store(sym)
            if op != "=":
                rhs = ("bin", op[0], lv, rhs)
            rt, rx = self.rvalue(rhs)
            if not match_ty(ty, rt):
                self.rej("assignment type")
            rx = self.prom(rx, rt, ty)

            def run(w, f):
                v = rx(w, f)
                st(w, f, v)
                return v

            return run, ty
        if lv[0] == "idx":
            tt, tx = self.e(lv[1])
            it, ix = self.e(lv[2])
            ety = self.index_ty(tt, it)
            if tt == "texto":
                self.rej("texto is immutable")
            rx, _ = self.assigned_value(op, rhs, ety, lambda tv, w, f: index_get(tv[0], tv[1], line))

            def run(w, f):
                t = tx(w, f)
                i = ix(w, f)
                v = rx(w, f, (t, i))
                index_check(t, i, line)
                t.items[i] = v
                return v

            return run, ety
        if lv[0] == "get":
            tt = self.static(lv[1])
            if isinstance(tt, MSym):
                self.rej("global of another module")
            tt, tx = self.e(lv[1])
            if is_opt(tt):
                self.rej("option is immutable")
            fty = self.field_ty(tt, lv[2])
            name = lv[2]
            rx, _ = self.assigned_value(op, rhs, fty, lambda tv, w, f: tv[0].fields[name])

            def run(w, f):
                t = tx(w, f)
                v = rx(w, f, (t,))
                t.fields[name] = v
                return v

            return run, fty
        self.rej("invalid assignment target")

    def assigned_value(self, op, rhs, ty, read):
        line = self.line
        rt, rx = self.rvalue(rhs)
        if op == "=":
            if not match_ty(ty, rt):
                self.rej("assignment type")
            rx = self.prom(rx, rt, ty)
            return (lambda w, f, tv: rx(w, f)), rt
        o = op[0]
        res = binop_ty(o, ty, rt)
        if res is None or not match_ty(ty, res):
            self.rej("compound assignment type")

        def run(w, f, tv):
            a = read(tv, w, f)
            b = rx(w, f)
            v = arith(o, a, b, line)
            return promote_val(v, res, ty)

        return run, res

    def rvalue(self, e):
        if e[0] == "assign":
            run, ty = self.assign(e)
            return ty, run
        return self.e(e)

    def cond(self, e):
        t, ex = self.e(e)
        if t != "bool":
            self.rej("condition must be bool")
        return ex

    def s_se(self, s, line):
        _, c, b, elifs, els = s
        cx = self.cond(c)
        bx = self.block(b)
        arms = [(cx, bx)]
        for el, ec, eb in elifs:
            self.line = el
            ecx = self.cond(ec)
            arms.append((ecx, self.block(eb)))
        ex = self.block(els) if els is not None else None

        def run(w, f):
            for cx, bx in arms:
                if cx(w, f):
                    bx(w, f)
                    return
            if ex:
                ex(w, f)

        return run

    def s_enquanto(self, s, line):
        cx = self.cond(s[1])
        self.loop += 1
        bx = self.block(s[2])
        self.loop -= 1

        def run(w, f):
            while cx(w, f):
                w.tick()
                try:
                    bx(w, f)
                except Continue:
                    pass
                except Break:
                    break

        return run

    def s_para(self, s, line):
        _, i, a, b, inc, blk = s
        exs = []
        for x in (a, b, inc):
            if x is None:
                exs.append(None)
                continue
            t, ex = self.e(x)
            exs.append(ex)
            if t != "int":
                self.rej("range must be int")
        ax, bx, ix = exs
        self.loop += 1
        run_blk, sym = self.block(blk, lambda: self.declare(i, "int"))
        self.loop -= 1

        def run(w, f):
            f.v[sym] = ax(w, f)
            while f.v[sym] < bx(w, f):
                w.tick()
                try:
                    run_blk(w, f)
                except Continue:
                    pass
                except Break:
                    break
                r = f.v[sym] + (ix(w, f) if ix else 1)
                if not INT_MIN <= r <= INT_MAX:
                    raise RT(OVERFLOW, line)
                f.v[sym] = r

        return run

    def s_escolha(self, s, line):
        _, e, cases, d = s
        t, ex = self.e(e)
        if t not in ("int", "texto"):
            self.rej("escolha needs int or texto")
        arms = []
        for kl, ke, kb in cases:
            self.line = kl
            kt, kx = self.e(ke)
            if not match_ty(t, kt):
                self.rej("case type")
            arms.append((kx, self.block(kb)))
        dx = self.block(d) if d is not None else None

        def run(w, f):
            v = ex(w, f)
            for kx, bx in arms:
                if equal(kx(w, f), v):
                    bx(w, f)
                    return
            if dx:
                dx(w, f)

        return run

    def s_seiguala(self, s, line):
        _, e, pat, b, els = s
        t, ex = self.e(e)
        self.push()
        names = {}
        pm = self.pattern(pat, t, names)
        run_b = self.block_in_current(b)
        self.pop()
        ex2 = self.block(els) if els is not None else None

        def run(w, f):
            v = ex(w, f)
            binds = []
            if pm(v, binds):
                for sym, x in binds:
                    f.v[sym] = x
                run_b(w, f)
            elif ex2:
                ex2(w, f)

        return run

    def block_in_current(self, stmts):
        code = self.stmts(stmts)

        def run(w, f):
            for c in code:
                c(w, f)

        return run

    def s_quebra(self, s, line):
        if not self.loop:
            self.rej("quebra outside of a loop")

        def run(w, f):
            raise Break()

        return run

    def s_continua(self, s, line):
        if not self.loop:
            self.rej("continua outside of a loop")

        def run(w, f):
            raise Continue()

        return run

    def s_retorna(self, s, line):
        if self.func is None:
            self.rej("retorna outside of a function")
        ret = self.func[0]
        if self.yield_ty is not None:
            self.yield_ty["ret"] = True
        if s[1] is None:
            if ret != "vazio":
                self.rej("empty return")

            def run(w, f):
                raise Return(False)

            return run
        if ret == "vazio":
            self.rej("value returned by a vazio function")
        t, ex = self.e(s[1])
        if not match_ty(ret, t):
            self.rej("return type")
        ex = self.prom(ex, t, ret)

        def run(w, f):
            raise Return(ex(w, f))

        return run

    def fn_scope(self, params, alvo=None):
        seen = set()
        tys = []
        for p, t in params:
            if p in seen:
                self.rej("duplicate parameter")
            seen.add(p)
            tys.append((p, self.ty(t)))
        return tys

    def s_func(self, s, line):
        _, name, params, ret, body = s
        if self.scope.depth > 0:
            self.rej("local function")
        if name in self.scope.names:
            self.rej("name in use")
        rty = "vazio" if ret == "vazio" else self.ty(ret)
        tys = self.fn_scope(params)
        fs = FSym(name, tuple(tys), rty, self.file)
        self.scope.names[name] = fs
        if rty != "vazio" and not returns(body):
            self.rej("no return", line)
        fs.run = self.fn_body(tys, rty, body, None)
        return lambda w, f: None

    def fn_body(self, tys, rty, body, target):
        prev, prev_loop, prev_y = self.func, self.loop, self.yield_ty
        self.func, self.loop, self.yield_ty = (rty, target), 0, None
        self.push()
        syms = []
        for p, t in tys:
            sym = VSym(p, t, False, self.file)
            self.scope.names[p] = sym
            syms.append(sym)
        # the parameters and the body share one scope
        code = self.stmts(body)
        self.pop()
        self.func, self.loop, self.yield_ty = prev, prev_loop, prev_y

        def run(w, args, alvo=None):
            f = Frame()
            f.alvo = alvo
            for sym, a in zip(syms, args):
                f.v[sym] = a
            try:
                for c in code:
                    c(w, f)
            except Return as r:
                return r.v
            return False if rty == "vazio" else UNDEFINED

        return run

    def s_met(self, s, line):
        _, tt, name, params, ret, body, gen = s
        prev = self.tyvars
        if gen:
            raise Unsupported("generic methods")
        target = self.ty(tt)
        if isinstance(target, tuple):
            self.rej("method of a constructed type")
        if self.member(target, name) is not None:
            self.rej("member already declared")
        if self.scope.depth > 0:
            self.rej("local method")
        rty = "vazio" if ret == "vazio" else self.ty(ret)
        tys = self.fn_scope(params)
        fs = FSym(name, tuple(tys), rty, self.file)
        fs.is_met, fs.target = True, target
        if rty != "vazio" and not returns(body):
            self.rej("no return", line)
        # methods are only visible after their declaration
        fs.run = self.fn_body(tys, rty, body, target)
        if is_prim(target):
            self.prog.prim_methods.setdefault(target, {})[name] = fs
        else:
            target.methods[name] = fs
        return lambda w, f: None

    def member(self, ty, name):
        if is_prim(ty):
            return self.prog.prim_methods.get(ty, {}).get(name)
        if isinstance(ty, RegTy):
            return ty.fields.get(name) or ty.methods.get(name)
        if isinstance(ty, UniTy):
            return ty.methods.get(name)
        if is_opt(ty):
            return None
        return None

    def s_registo(self, s, line):
        _, name, fields, gen = s
        if name in self.scope.names:
            self.rej("name in use")
        r = RegTy(name, {}, gen)
        self.scope.names[name] = r
        fl, prev = self.line, self.tyvars
        self.tyvars = {p: ("tyvar", p) for p in gen or ()}
        for i, (fn, ft) in enumerate(fields):
            self.line = line + 1 + i
            if fn in r.fields:
                self.rej("field already declared")
            r.fields[fn] = self.ty(ft)
        self.line, self.tyvars = fl, prev
        return lambda w, f: None

    def s_uniao(self, s, line):
        _, name, variants = s
        if name in self.scope.names:
            self.rej("name in use")
        u = UniTy(name, {})
        self.scope.names[name] = u
        for i, (v, ts) in enumerate(variants):
            self.line = line + 1 + i
            if v in u.variants:
                self.rej("variant already declared")
            u.variants[v] = [self.ty(t) for t in ts]
            u.tags[v] = i
        return lambda w, f: None

    # ---- modules
    def s_usa(self, s, line):
        _, path, mode, arg = s
        name = path if path.endswith(".ama") else path + ".ama"
        prog = self.prog
        if name not in prog.ann:
            self.rej("no such module")
        m = prog.modules.get(name)
        if m is not None and not m.loaded:
            # reported at any of the imports of the cycle
            raise Reject("import cycle")
        if m is None:
            m = prog.modules[name] = Module(name)
            root = Scope(None)
            sub = Compiler(prog, name, root)
            m.builtin = dict(root.names)
            m.scope = root
            m.entry = sub.module(prog.ann[name])
            m.loaded = True
            prog.order.append(m)
        if mode == "global":
            for it, sym in m.scope.names.items():
                if it in m.builtin or self.scope.names.get(it) is sym:
                    continue
                if it in self.scope.names:
                    self.rej("name in use")
                self.scope.names[it] = sym
        elif mode == "alias":
            if arg in self.scope.names:
                self.rej("name in use")
            self.scope.names[arg] = MSym(arg, m)
        elif mode == "items":
            for it in arg:
                sym = m.scope.names.get(it)
                if sym is None:
                    self.rej("no such item")
                if it in self.scope.names:
                    self.rej("name in use")
                self.scope.names[it] = sym
        return lambda w, f: None

    # ---- expressions: return (type, closure)
    def e(self, n):
        saved = self.line
        r = getattr(self, "e_" + n[0])(n)
        self.line = saved
        return r

    def at(self, n):
        """Errors are on the line of the operation itself, which is not the
        first line of its statement when an operand spans several."""
        if isinstance(n[-1], int) and not isinstance(n[-1], bool):
            self.line = n[-1]
        return self.line

    def static(self, n):
        """The symbol of a variable, or of a module in a module, if it is one."""
        if n[0] == "get":
            m = self.static(n[1])
            s = m.mod.scope.names.get(n[2]) if isinstance(m, MSym) else None
            return s if isinstance(s, MSym) else None
        return self.scope.find(n[1]) if n[0] == "var" else None

    def e_int(self, n):
        v = n[1]
        if v > INT_MAX:
            self.rej("integer too large")
        return "int", lambda w, f: v

    def e_real(self, n):
        v = float(n[1])
        return "real", lambda w, f: v

    def e_txt(self, n):
        v = n[1]
        return "texto", lambda w, f: v

    def e_bool(self, n):
        v = n[1]
        return "bool", lambda w, f: v

    def e_nulo(self, n):
        return "nulo", lambda w, f: None

    def e_var(self, n):
        s = self.scope.find(n[1])
        if s is None:
            self.rej(f"'{n[1]}' not declared")
        if isinstance(s, MSym):
            self.rej("a module is not a value")
        if not isinstance(s, VSym):
            self.rej("not a value")
        return s.ty, self.load(s)

    def load(self, s):
        if s.glob:
            mod = self.prog.modules[s.module]
            name = s.name
            return lambda w, f: mod.globals[name]
        return lambda w, f: f.v[s]

    def e_alvo(self, n):
        if self.func is None or self.func[1] is None:
            self.rej("alvo outside of a method")
        return self.func[1], lambda w, f: f.alvo

    def e_bin(self, n):
        op = n[1]
        lt, lx = self.e(n[2])
        rt, rx = self.e(n[3])
        t = binop_ty(op, lt, rt)
        # an operator is on its own line, when an operand spans several
        line = n[4] if len(n) > 4 else self.line
        if t is None:
            self.rej(f"{lt} {op} {rt}", line)
        if op == "e":
            def run(w, f):
                a = lx(w, f)
                b = rx(w, f)
                return a and b
        elif op == "ou":
            def run(w, f):
                a = lx(w, f)
                b = rx(w, f)
                return a or b
        elif op in ("==", "!="):
            eq = op == "=="
            lx, rx = self.prom(lx, lt, rt), self.prom(rx, rt, lt)
            def run(w, f):
                a = lx(w, f)
                b = rx(w, f)
                return equal(a, b) == eq
        elif op in ("<", ">", "<=", ">="):
            lx, rx = self.prom(lx, lt, rt), self.prom(rx, rt, lt)
            def run(w, f):
                a = lx(w, f)
                b = rx(w, f)
                return a < b if op == "<" else a > b if op == ">" else a <= b if op == "<=" else a >= b
        else:
            lx, rx = self.prom(lx, lt, rt), self.prom(rx, rt, lt)
            def run(w, f):
                a = lx(w, f)
                b = rx(w, f)
                return arith(op, a, b, line)
        return t, run

    def e_un(self, n):
        op = n[1]
        t, ex = self.e(n[2])
        line = self.at(n)
        if op == "nao":
            if t != "bool":
                self.rej("nao")
            return "bool", lambda w, f: not ex(w, f)
        if not (is_prim(t) and num(t)):
            self.rej("unary sign")
        if op == "+":
            return t, ex

        def run(w, f):
            v = ex(w, f)
            if v == INT_MIN and not isinstance(v, float):
                raise RT(OVERFLOW, line)
            return -v

        return t, run

    def e_cast(self, n):
        t, ex = self.e(n[1])
        self.at(n)
        to = self.ty(n[2])
        if not can_cast(t, to):
            self.rej(f"cast {t} {to}")
        line = self.line
        return to, lambda w, f: cast_val(ex(w, f), t, to, line)

    def index_ty(self, tt, it):
        if tt != "texto" and not is_vec(tt):
            self.rej("not indexable")
        if it != "int":
            self.rej("index must be int")
        return "texto" if tt == "texto" else tt[1]

    def e_idx(self, n):
        tt, tx = self.e(n[1])
        it, ix = self.e(n[2])
        line = self.at(n)
        t = self.index_ty(tt, it)

        def run(w, f):
            a = tx(w, f)
            i = ix(w, f)
            return index_get(a, i, line)

        return t, run

    def e_list(self, n):
        ety = self.ty(n[1])
        xs = []
        for x in n[2]:
            t, ex = self.e(x)
            if not match_ty(ety, t):
                self.rej("list element")
            xs.append(self.prom(ex, t, ety))
        return ("vec", ety), lambda w, f: Vec([x(w, f) for x in xs])

    def e_vec(self, n):
        xs = []
        if not n[2]:
            self.rej("vec needs a size")
        for d in n[2]:
            t, ex = self.e(d)
            if t != "int":
                self.rej("vec size")
            xs.append(ex)
        ety = self.ty(n[1])
        if ety not in ZEROED:
            self.rej("vec element type")
        z = zero(ety)
        ty = ety
        for _ in n[2]:
            ty = ("vec", ty)
        line = self.line

        def build(ds):
            if len(ds) == 1:
                return Vec([z] * ds[0])
            return Vec([build(ds[1:]) for _ in range(ds[0])])

        def run(w, f):
            ds = [x(w, f) for x in xs]
            if any(d < 0 for d in ds):
                raise RT("Dimensões de um vector devem ser especificidas por números inteiros positivos", line)
            return build(ds)

        return ty, run

    def e_fstr(self, n):
        parts = []
        for p in n[1]:
            if isinstance(p, str):
                parts.append(lambda w, f, p=p: p)
            else:
                t, ex = self.e(p)
                if not can_cast(t, "texto"):
                    self.rej("f-string part")
                parts.append(lambda w, f, ex=ex: display(ex(w, f)))
        return "texto", lambda w, f: "".join([p(w, f) for p in parts])

    def e_new(self, n):
        if isinstance(n[1], tuple):
            m = self.scope.find(n[1][1])
            if not isinstance(m, MSym):
                self.rej("not a module")
            s = m.mod.scope.names.get(n[1][2])
        else:
            s = self.scope.find(n[1])
        if s is None:
            self.rej("unknown registo")
        return self.new(s, n[2])

    def new(self, s, inits):
        if not isinstance(s, RegTy):
            self.rej("not a registo")
        if s.params:
            raise Unsupported("generic registo")
        if len(inits) != len(s.fields):
            self.rej("number of initialisers")
        seen = set()
        xs = []
        for fn, x in inits:
            t, ex = self.e(x)
            if fn not in s.fields:
                self.rej("unknown field")
            if fn in seen:
                self.rej("repeated field")
            seen.add(fn)
            if not match_ty(s.fields[fn], t):
                self.rej("field type")
            xs.append((fn, self.prom(ex, t, s.fields[fn])))

        def run(w, f):
            return Obj(s, {fn: ex(w, f) for fn, ex in xs})

        return s, run

    def e_variant(self, n):
        u = self.scope.find(n[1])
        if not isinstance(u, UniTy):
            self.rej("not an union")
        if n[2] not in u.variants:
            self.rej("unknown variant")
        ps = u.variants[n[2]]
        tag = u.tags[n[2]]
        if n[3] is None:
            if ps:
                self.rej("variant needs arguments")
            v = Var(u, tag, ())
            return u, lambda w, f: Var(u, tag, ())
        if not ps:
            self.rej("variant takes no arguments")
        if len(ps) != len(n[3]):
            self.rej("number of arguments")
        xs = []
        tys = [self.e(a) for a in n[3]]
        for (t, ex), p in zip(tys, ps):
            if not match_ty(p, t):
                self.rej("argument type")
            xs.append(self.prom(ex, t, p))
        return u, lambda w, f: Var(u, tag, tuple([x(w, f) for x in xs]))

    def field_ty(self, tt, name):
        if isinstance(tt, RegTy):
            if name in tt.fields:
                return tt.fields[name]
            self.rej("unknown field")
        if isinstance(tt, tuple) and tt[0] == "app":
            reg, args = tt[1], tt[2]
            if name not in reg.fields:
                self.rej("unknown field")
            ft = reg.fields[name]
            if isinstance(ft, tuple) and ft[0] == "tyvar":
                return args[reg.params.index(ft[1])]
            return ft
        self.rej("no fields")

    def e_get(self, n):
        s = self.static(n[1])
        name = n[2]
        if isinstance(s, MSym):
            g = s.mod.scope.names.get(name)
            if g is None:
                self.rej("no such item")
            if isinstance(g, MSym):
                self.rej("a module is not a value")
            if not isinstance(g, VSym):
                self.rej("not a value")
            return g.ty, self.load(g)
        tt, tx = self.e(n[1])
        line = self.at(n)
        if is_opt(tt):
            if name != "valor":
                self.rej("unknown member")

            def run(w, f):
                v = tx(w, f)
                if v is None:
                    raise RT(NULO_ACCESS, line)
                return v

            return tt[1], run
        ft = self.field_ty(tt, name)
        return ft, lambda w, f: tx(w, f).fields[name]

    def e_call(self, n):
        self.at(n)
        name, args = n[1], n[2]
        s = self.scope.find(name)
        if s is None:
            self.rej("unknown function")
        if isinstance(s, tuple) and s[0] == "special":
            return self.special(name, args)
        if not isinstance(s, FSym):
            self.rej("not a function")
        return self.invoke(s, args)

    def invoke(self, s, args, target=None):
        if isinstance(args, tuple) and args and isinstance(args[0], tuple) and args[0][0] == "named":
            self.rej("named arguments")
        tys = [self.e(a) for a in args]
        if len(tys) != len(s.params):
            self.rej("number of arguments")
        xs = []
        for (t, ex), (_, p) in zip(tys, s.params):
            if not match_ty(p, t):
                self.rej("argument type")
            xs.append(self.prom(ex, t, p))
        line = self.line
        name = s.name if s.target is None else f"{s.target if isinstance(s.target, str) else s.target.name}::{s.name}"
        if s.native:
            nat = s.native
            return s.ret, lambda w, f: nat(w, [x(w, f) for x in xs], line)

        def run(w, f):
            if target is not None:
                alvo = target(w, f)
                vals = [x(w, f) for x in xs]
            else:
                alvo = None
                vals = [x(w, f) for x in xs]
            w.tick()
            if w.depth == MAX_FRAMES:
                raise RT(RECURSION, line)
            w.depth += 1
            try:
                v = s.run(w, vals, alvo)
                if v is UNDEFINED:
                    raise Unsupported("function did not return a value")
                return v
            except RT as e:
                e.trace.append((name, e.line))
                e.line = line
                raise
            finally:
                w.depth -= 1

        return s.ret, run

    def special(self, name, args):
        line = self.line
        if name == "vec":
            raise Unsupported("use the vec node")
        if len(args) != (1 if name == "tam" else 2):
            self.rej("number of arguments")
        tys = [self.e(a) for a in args]
        if name == "tam":
            t, ex = tys[0]
            if t != "texto" and not is_vec(t):
                self.rej("tam")

            def run(w, f):
                v = ex(w, f)
                return len(graphemes(v)) if isinstance(v, str) else len(v.items)

            return "int", run
        (vt, vx), (at, ax) = tys
        if not is_vec(vt):
            self.rej("not a vector")
        if name == "anexa":
            if not match_ty(vt[1], at):
                self.rej("element type")
            ax = self.prom(ax, at, vt[1])

            def run(w, f):
                v = vx(w, f)
                x = ax(w, f)
                v.items.append(x)
                return None

            return "vazio", run
        if at != "int":
            self.rej("index type")

        def run(w, f):
            v = vx(w, f)
            i = ax(w, f)
            index_check(v, i, line)
            return v.items.pop(i)

        return vt[1], run

    def e_mcall(self, n):
        _, te, name, args = n[:4]
        s = self.static(te)
        if isinstance(s, MSym):
            g = s.mod.scope.names.get(name)
            if g is None:
                self.rej("no such item")
            if isinstance(g, RegTy):
                self.rej("initial values without names")
            if isinstance(g, tuple) and g[0] == "special":
                self.at(n)
                return self.special(name, args)
            if not isinstance(g, FSym):
                self.rej("not a function")
            return self.invoke(g, args)
        tt, tx = self.e(te)
        self.at(n)
        if is_opt(tt):
            if name != "valor_ou":
                self.rej("unknown method")
            if len(args) != 1:
                self.rej("number of arguments")
            dt, dx = self.e(args[0])
            if not match_ty(tt[1], dt):
                self.rej("argument type")
            dx = self.prom(dx, dt, tt[1])

            def run(w, f):
                v = tx(w, f)
                d = dx(w, f)
                return d if v is None else v

            return tt[1], run
        m = self.member(tt, name)
        if m is None:
            self.rej("unknown method")
        if not isinstance(m, FSym):
            self.rej("not a method")
        return self.invoke(m, args, tx)

    # ---- patterns
    def pattern(self, p, ty, names):
        """Returns match(value, bindings) -> bool; declares its variables in
        the current scope."""
        if p[0] == "pvar":
            if p[1] in names:
                self.rej("repeated binding")
            sym = VSym(p[1], ty, False, self.file)
            names[p[1]] = sym
            self.scope.names[p[1]] = sym

            def m(v, b):
                b.append((sym, v))
                return True

            return m
        if p[0] == "pint":
            if ty != "int":
                self.rej("pattern type")
            if p[1] > INT_MAX:
                self.rej("integer too large")
            return lambda v, b: v == p[1]
        if p[0] == "ptxt":
            if ty != "texto":
                self.rej("pattern type")
            return lambda v, b: v == p[1]
        if p[0] == "pcon":
            u = self.scope.find(p[1])
            if not isinstance(u, UniTy):
                self.rej("not an union")
            if p[2] not in u.variants:
                self.rej("unknown variant")
            ps = u.variants[p[2]]
            args = p[3] or ()
            if len(args) > len(ps):
                self.rej("too many arguments")
            if u is not ty:
                self.rej("pattern type")
            subs = [self.pattern(a, t, names) for a, t in zip(args, ps)]
            tag = u.tags[p[2]]

            def m(v, b):
                return v.tag == tag and all(s(x, b) for s, x in zip(subs, v.args))

            return m
        raise Unsupported(p)

    def e_match(self, n):
        _, te, arms, line = n
        self.push()
        tt, tx = self.e(te)
        if tt == "vazio":
            self.rej("match on vazio")
        compiled = []
        for pat, body, aline in arms:
            # all of the patterns are checked before the bodies
            self.push()
            self.line = aline
            pm = self.pattern(pat, tt, {})
            compiled.append((pm, body, self.scope, aline))
            self.pop()
        missing = uncovered([a[0] for a in arms], tt)
        if missing:
            self.rej("not exhaustive", line)
        reach = reachable([a[0] for a in arms], tt)
        outs = []
        ty = None
        for i, (pm, body, scope, aline) in enumerate(compiled):
            if not reach[i]:
                outs.append(None)
                continue
            saved = self.scope
            self.scope = scope
            self.line = aline
            bt, bx = self.match_body(body)
            self.scope = saved
            if ty is None:
                ty = bt
            elif bt != ty:
                self.rej("arm types", (aline, 10**9))
            outs.append((pm, bx))
        self.pop()
        self.line = line

        def run(w, f):
            v = tx(w, f)
            for o in outs:
                if o is None:
                    continue
                b = []
                if o[0](v, b):
                    for sym, x in b:
                        f.v[sym] = x
                    return o[1](w, f)
            raise AssertionError("no arm matched")

        return ty, run

    def match_body(self, body):
        if body[0] == "expr":
            self.line = body[2]
            return self.e(body[1])
        prev, self.yield_ty = self.yield_ty, {"ret": False}
        stmts = body[1]
        code = []
        ty, px = "vazio", None
        for i, (line, s) in enumerate(stmts):
            self.line = line
            if s[0] == "produz":
                if i != len(stmts) - 1:
                    self.rej("produz must be last")
                ty, px = self.e(s[1])
            else:
                code.append(self.stmt(line, s))
        if px is not None and self.yield_ty["ret"]:
            self.rej("produz and retorna", (0, 10**9))
        self.yield_ty = prev

        def run(w, f):
            for c in code:
                c(w, f)
            return px(w, f) if px else None

        return ty, run

    def s_produz(self, s, line):
        self.rej("produz outside of a block")

    def s_raw(self, s, line):
        raise Unsupported("raw")

    def e_text(self, n):
        raise Unsupported("text")


UNDEFINED = object()


def index_check(v, i, line):
    if i < 0:
        raise RT("Erro de índice inválido. Vectores só podem ser indexados com inteiros positivos", line)
    if i >= len(v.items):
        raise RT(f"Erro de índice inválido. O tamanho do vector é {len(v.items)}, mas tentou aceder o índice {i}", line)


def index_get(v, i, line):
    if isinstance(v, str):
        if i < 0:
            raise RT("Erro de índice inválido. Strings só podem ser indexadas com inteiros positivos", line)
        g = graphemes(v)
        if i >= len(g):
            raise RT(f"Erro de índice inválido. O tamanho da string é {len(g)}, mas o índice é {i}", line)
        return g[i]
    index_check(v, i, line)
    return v.items[i]


def returns(stmts):
    """Whether every path through the statements returns (loops count as if
    they ran; 'escolha' never counts)."""
    return any(returns1(s) for _, s in stmts)


def returns1(s):
    k = s[0]
    if k == "retorna":
        return True
    if k == "se":
        return s[4] is not None and returns(s[2]) and all(returns(b) for _, _, b in s[3]) and returns(s[4])
    if k in ("enquanto", "para"):
        return returns(s[-1])
    if k == "seiguala":
        return s[4] is not None and returns(s[3]) and returns(s[4])
    if k == "expr" and s[1][0] == "match":
        arms = s[1][2]
        return all(b[0] == "block" and returns(b[1]) for _, b, _ in arms) and any(p[0] == "pvar" for p, _, _ in arms)
    return False


def mentions(e, name, comp, sym):
    """Whether an expression uses the variable `name` (not shadowed)."""
    if not isinstance(e, tuple) or not e:
        return False
    if e[0] == "var":
        return e[1] == name and comp.scope.find(name) is sym
    if e[0] == "match":
        # names bound by the pattern shadow it
        if mentions(e[1], name, comp, sym):
            return True
        for pat, body, *_ in e[2]:
            if name not in pat_names(pat) and mentions(body, name, comp, sym):
                return True
        return False
    if isinstance(e[0], str) and e[0] in ("txt", "int", "real", "text"):
        return False
    if e[0] == "para" and e[1] == name:
        # the control variable shadows it in the block
        return any(mentions(x, name, comp, sym) for x in e[2:5])
    if not isinstance(e[0], str):
        # a declaration in a block shadows it after that
        for x in e:
            found = mentions(x, name, comp, sym)
            if found:
                return True
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int):
                x = x[1]
            if isinstance(x, tuple) and x and x[0] == "decl" and name in x[1]:
                return False
        return False
    return any(mentions(x, name, comp, sym) for x in e if isinstance(x, tuple))


def pat_names(p):
    if p[0] == "pvar":
        return {p[1]}
    if p[0] == "pcon" and p[3]:
        return set().union(*[pat_names(x) for x in p[3]])
    return set()


# ------------------------------------------------- exhaustiveness (Maranget)
def _ctor_sig(ty):
    if isinstance(ty, UniTy):
        return [(v, ps) for v, ps in ty.variants.items()]
    return None


def _useful(rows, row, tys):
    """Is there a value matched by `row` and by none of `rows`?"""
    if not tys:
        return not rows
    ty = tys[0]
    head = row[0]
    sig = _ctor_sig(ty)
    if head[0] == "pcon":
        ps = ty.variants[head[2]]
        args = list(head[3] or ())
        args += [("pvar", "_")] * (len(ps) - len(args))
        spec = _specialize(rows, head[2], ps)
        return _useful(spec, args + list(row[1:]), list(ps) + list(tys[1:]))
    if head[0] in ("pint", "ptxt"):
        spec = [r[1:] for r in rows if r[0][0] == "pvar" or r[0][:2] == head[:2]]
        return _useful(spec, list(row[1:]), list(tys[1:]))
    # wildcard
    if sig is not None and any(r[0][0] == "pcon" for r in rows):
        for v, ps in sig:
            spec = _specialize(rows, v, ps)
            if _useful(spec, [("pvar", "_")] * len(ps) + list(row[1:]), list(ps) + list(tys[1:])):
                return True
        return False
    consts = {r[0][:2] for r in rows if r[0][0] in ("pint", "ptxt")}
    for c in consts:
        spec = [r[1:] for r in rows if r[0][0] == "pvar" or r[0][:2] == c]
        if _useful(spec, list(row[1:]), list(tys[1:])):
            return True
    default = [r[1:] for r in rows if r[0][0] == "pvar"]
    return _useful(default, list(row[1:]), list(tys[1:]))


def _specialize(rows, v, ps):
    out = []
    for r in rows:
        h = r[0]
        if h[0] == "pvar":
            out.append([("pvar", "_")] * len(ps) + list(r[1:]))
        elif h[0] == "pcon" and h[2] == v:
            args = list(h[3] or ())
            args += [("pvar", "_")] * (len(ps) - len(args))
            out.append(args + list(r[1:]))
    return out


def uncovered(pats, ty):
    return _useful([[p] for p in pats], [("pvar", "_")], [ty])


def reachable(pats, ty):
    return [_useful([[q] for q in pats[:i]], [p], [ty]) for i, p in enumerate(pats)]
