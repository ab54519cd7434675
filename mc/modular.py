"""The programs of a space, divided in modules. The statements of a program are
the same ones in the same order; what changes is the file each of them is in."""
from .harness import Case

TYPES = ("registo", "uniao")
DECLS = TYPES + ("func", "met", "decl")
Q = ("var", "q")


class Cannot(Exception):
    pass


def program(c):
    """The statements of a case of one file, and its other attributes."""
    if hasattr(c, "prelude"):
        return tuple(c.prelude) + tuple(c.tail), c.label, None, 200000
    files = c.files
    if isinstance(files, dict):
        if len(files) != 1:
            raise Cannot
        files = files[c.entry]
    return tuple(files), c.label, c.stdin, c.step_limit


def head(stmts, kinds):
    """How many of the first statements are declarations."""
    n = 0
    while n < len(stmts) and stmts[n][0] in kinds:
        n += 1
    return n


def exported(stmts):
    out = {}
    for s in stmts:
        if s[0] == "decl":
            for x in s[1]:
                out[x] = "var"
        elif s[0] in ("func", "registo", "uniao"):
            out[s[1]] = s[0]
            if len(s) > (5 if s[0] == "func" else 3):
                raise Cannot
    return out


def qualified(stmts, names):
    """The statements, with `q.` before the names."""
    used = set()

    def ty(t):
        if t is None or isinstance(t, str):
            k = names.get(t)
            if k in TYPES:
                used.add(t)
                return ("path", "q", t)
            return t
        if t[0] in ("vec", "opt"):
            return (t[0], ty(t[1]))
        raise Cannot

    def fields(ps):
        return tuple((p, ty(t)) for p, t in ps)

    def declares(*xs):
        if any(x in names for x in xs):
            raise Cannot

    def blk(b):
        return None if b is None else tuple(st(s) for s in b)

    def args(es):
        return None if es is None else tuple(ex(e) for e in es)

    def pat(p):
        if p[0] == "pvar":
            declares(p[1])
        if p[0] == "pcon":
            declares(p[1])
            for x in p[3] or ():
                pat(x)
        return p

    def body(b):
        return ("expr", ex(b[1])) if b[0] == "expr" else ("block", blk(b[1]), ex(b[2]))

    def ex(e):
        if e is None:
            return None
        k = e[0]
        if k in ("int", "real", "txt", "bool", "nulo", "alvo"):
            return e
        if k == "var":
            if e[1] in names:
                used.add(e[1])
                return ("get", Q, e[1])
            return e
        if k == "bin":
            return (k, e[1], ex(e[2]), ex(e[3]))
        if k == "un":
            return (k, e[1], ex(e[2]))
        if k == "par":
            return (k, ex(e[1]))
        if k == "call":
            if e[1] in names:
                used.add(e[1])
                return ("mcall", Q, e[1], args(e[2]))
            return (k, e[1], args(e[2]))
        if k == "get":
            return (k, ex(e[1]), e[2])
        if k == "mcall":
            return (k, ex(e[1]), e[2], args(e[3]))
        if k == "idx":
            return (k, ex(e[1]), ex(e[2]))
        if k in ("list", "vec"):
            return (k, ty(e[1]), args(e[2]))
        if k == "new":
            return (k, ty(e[1]), tuple((f, ex(x)) for f, x in e[2]))
        if k == "variant":
            declares(e[1])
            return (k, e[1], e[2], args(e[3]))
        if k == "cast":
            return (k, ex(e[1]), ty(e[2]))
        if k == "fstr":
            return (k, tuple(x if isinstance(x, str) else ex(x) for x in e[1]), *e[2:])
        if k == "match":
            return (k, ex(e[1]), tuple((pat(p), body(b)) for p, b in e[2]))
        if k == "assign":
            return (k, ex(e[1]), e[2], ex(e[3]))
        raise Cannot

    def st(s):
        k = s[0]
        if k == "decl":
            declares(*s[1])
            return (k, s[1], ty(s[2]), ex(s[3]))
        if k == "assign":
            return ex(s)
        if k in ("expr", "mostra", "produz", "retorna"):
            return (k, ex(s[1]))
        if k == "se":
            return (k, ex(s[1]), blk(s[2]), tuple((ex(c), blk(b)) for c, b in s[3]), blk(s[4]))
        if k == "enquanto":
            return (k, ex(s[1]), blk(s[2]))
        if k == "para":
            declares(s[1])
            return (k, s[1], ex(s[2]), ex(s[3]), ex(s[4]), blk(s[5]))
        if k == "escolha":
            return (k, ex(s[1]), tuple((ex(c), blk(b)) for c, b in s[2]), blk(s[3]))
        if k == "seiguala":
            return (k, ex(s[1]), pat(s[2]), blk(s[3]), blk(s[4]))
        if k in ("quebra", "continua"):
            return s
        if k == "func" and len(s) == 5:
            declares(s[1], *[p for p, _ in s[2]])
            return (k, s[1], fields(s[2]), ty(s[3]), blk(s[4]))
        if k == "met" and len(s) == 6:
            declares(*[p for p, _ in s[3]])
            return (k, ty(s[1]), s[2], fields(s[3]), ty(s[4]), blk(s[5]))
        if k == "registo" and len(s) == 3:
            declares(s[1])
            return (k, s[1], fields(s[2]))
        if k == "uniao" and len(s) == 3:
            declares(s[1])
            return (k, s[1], tuple((v, tuple(ty(t) for t in ts)) for v, ts in s[2]))
        raise Cannot

    if "q" in names:
        raise Cannot
    out = tuple(st(s) for s in stmts)
    if not used:
        raise Cannot
    return out


def _whole(stmts):
    """All of it in a module; the program only imports it."""
    return {"a.ama": stmts, "main.ama": (("usa", "a.ama", "global", None), ("mostra", ("txt", "main", '"')))}


def _split(stmts, kinds=TYPES + ("func", "met")):
    n = head(stmts, kinds)
    if not n:
        raise Cannot
    return stmts[:n], stmts[n:]


def _global(stmts):
    """The declarations it begins with in a module."""
    a, b = _split(stmts)
    return {"a.ama": a, "main.ama": (("usa", "a.ama", "global", None),) + b}


def _items(stmts):
    """The same, imported by their names."""
    a, b = _split(stmts)
    names = tuple(exported(a))
    if not names:
        raise Cannot
    return {"a.ama": a, "main.ama": (("usa", "a.ama", "items", names),) + b}


def _alias(stmts):
    """The same, through the name of the module."""
    a, b = _split(stmts)
    return {"a.ama": a, "main.ama": (("usa", "a.ama", "alias", "q"),) + qualified(b, exported(a))}


def _variables(stmts):
    """The same, with the variables (which the program may not assign)."""
    a, b = _split(stmts, DECLS)
    if not any(s[0] == "decl" for s in a):
        raise Cannot
    return {"a.ama": a, "main.ama": (("usa", "a.ama", "alias", "q"),) + qualified(b, exported(a))}


def _functions(stmts):
    """Types in one module, the other declarations in another one that refers to
    them through the name of the first, and so does the program."""
    a, rest = _split(stmts)
    n = 0
    while n < len(a) and a[n][0] in TYPES:
        n += 1
    if not n or n == len(a):
        raise Cannot
    t, d = a[:n], a[n:]
    use = ("usa", "b.ama", "alias", "q")
    q = lambda s: qualified(s, exported(t))
    try:
        rest = (use,) + q(rest)
    except Cannot:
        # it names no type
        rest = (use,) + rest
    return {"b.ama": t, "a.ama": (use,) + q(d), "main.ama": (("usa", "a.ama", "items", tuple(x for x in exported(d))),) + rest if exported(d) else (("usa", "a.ama", "alias", "z"),) + rest}


HOWS = {"whole": _whole, "global": _global, "items": _items, "alias": _alias, "variables": _variables, "types and functions": _functions}


def modular(gens, hows=tuple(HOWS)):
    """Every case of the generators, divided in each way that is possible."""
    def run():
        for gen in gens:
            for c in gen():
                for how in hows:
                    try:
                        stmts, label, stdin, limit = program(c)
                        yield Case(f"{how}: {label}", HOWS[how](stmts), stdin, "main.ama", limit)
                    except Cannot:
                        pass
    return run
