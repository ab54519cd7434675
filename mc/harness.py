"""What every check shares: spaces of cases, judging them against the model,
violations with replayable artefacts, known findings, and evidence.

A check is a module checks/Cxx.py that defines PROP, LEVEL, RULE and
`spaces(tier)`, which yields Space objects. A space is an enumerated set of
cases; a judge turns a chunk of cases into outcomes by running them on the
real compiler and the real VM. Nothing is sampled: a space is explored to its
end, or the run reports that it was cut.
"""
import hashlib
import importlib
import json
import os
import re
import sys
import time
from collections import Counter

from . import model, runner

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")
MAX_VIOLATIONS = int(os.environ.get("VERIF_MAXV", "25"))


class Space:
    """name; bound (what it contains, in words); gen() -> iterator of cases;
    judge(worker, cases) -> list of outcomes, one for each case."""

    def __init__(self, name, bound, gen, judge=None, chunk=48, level="exploration"):
        self.name, self.bound, self.gen = name, bound, gen
        self.judge = judge or judge_programs
        self.chunk = chunk


# An outcome: dict(key=bytes identifying the case, cls=class of the outcome,
# obs=hash of what was observed, bad=None|dict describing the violation,
# skip=True when the model does not define the case)


def digest(*parts):
    h = hashlib.blake2b(digest_size=8)
    for p in parts:
        if not isinstance(p, bytes):
            p = repr(p).encode("utf-8", "backslashreplace")
        h.update(p)
        h.update(b"\0")
    return h.digest()


DIAG = re.compile(
    r'\nFicheiro "(?P<file>[^\n]*)", linha (?P<line>-?\d+)(?:: coluna (?P<col>-?\d+))?\n    .*\nErro(?P<syn> sintático)?: (?P<msg>.*)\.\n',
    re.S,
)


def parse_diag(err):
    """The only diagnostic on stderr: (file, line, column|None, message)."""
    m = DIAG.fullmatch(err)
    if not m or "\nFicheiro " in err[1:]:
        return None
    return m["file"], int(m["line"]), m["col"] and int(m["col"]), m["msg"]


def reject_problem(res, files, file=None, line=None):
    """Why a result is not a proper rejection, or None. Nothing may have run,
    and the only output is one diagnostic, at a line of an existing file."""
    if res.status != "exit":
        return f"ended by {res.status} {res.code}"
    if res.code == 0:
        return "exit status 0"
    if res.out:
        return "a rejected program wrote to the standard output"
    d = parse_diag(res.err)
    if d is None:
        return "stderr is not exactly one diagnostic"
    if d[0] not in files:
        return f"the diagnostic names the file {d[0]!r}"
    src = files[d[0]]
    if isinstance(src, str):
        n = src.replace("\r\n", "\n").replace("\r", "\n").count("\n") + 1
        if not 1 <= d[1] <= n:
            return f"the diagnostic names line {d[1]} of {n}"
    if file is not None and d[0] != file:
        return f"the diagnostic is in {d[0]!r} and not in {file!r}"
    if line is not None:
        lo, hi = line if isinstance(line, tuple) else (line, line)
        if not lo <= d[1] <= hi:
            return f"the diagnostic is at line {d[1]} and not at line {line}"
    return None


def expect_of(prog, stdin=b"", step_limit=200000):
    """What the model says of a program: ("reject", file, line, why),
    ("run", stdout, err) or ("undefined", why)."""
    try:
        prog.compile()
    except model.Reject as r:
        return ("reject", r.file, r.line, r.msg)
    except model.Unsupported as u:
        return ("undefined", str(u))
    try:
        out, err = prog.run(stdin, step_limit)
    except model.Unsupported as u:
        return ("undefined", str(u))
    return ("run", out, err)


def problem(expected, res, files):
    """Compares a result with what the model says. None if they agree."""
    if expected[0] == "reject":
        return reject_problem(res, files, expected[1], expected[2])
    _, out, err = expected
    if res.status != "exit":
        return f"ended by {res.status} {res.code}"
    if VARIANT.sub("<Variante>", res.out) != VARIANT.sub("<Variante>", out):
        return "wrong standard output"
    if err is None:
        if res.err:
            return "unexpected text on stderr"
        if res.code != 0:
            return f"exit status {res.code}"
        return None
    if parse_diag(res.err):
        return "rejected by the compiler"
    if res.err.strip("\n") != model.expected_err(err).strip("\n"):
        return "wrong runtime error"
    if res.code == 0:
        return "a runtime error ended with exit status 0"
    return None


# the number that identifies a variant when it is shown means nothing
VARIANT = re.compile(r"<Variante\(\d+\)>")


def show_expected(e):
    if e[0] == "reject":
        return {"reject": {"file": e[1], "line": e[2], "why": e[3]}}
    return {"stdout": e[1], "stderr": model.expected_err(e[2]) if e[2] else "", "exit": 1 if e[2] else 0}


def show_result(r):
    return {"status": r.status, "code": r.code, "stdout": r.out[:4000], "stderr": r.err[:4000]}


class Case:
    """A model program: files is a list of statements or {file: statements};
    want may force "accept"/"reject" for cases that must not be skipped."""

    __slots__ = ("label", "files", "stdin", "entry", "step_limit")

    def __init__(self, label, files, stdin=None, entry="main.ama", step_limit=200000):
        self.label, self.files, self.stdin, self.entry = label, files, stdin, entry
        self.step_limit = step_limit


def cls_of(expected):
    if expected[0] == "reject":
        return "rejected"
    if expected[0] == "undefined":
        return "undefined by the model"
    return "runtime error" if expected[2] else "completed"


def judge_programs(worker, cases):
    progs = []
    for c in cases:
        if not isinstance(c, Case):
            c = Case(*c)
        p = model.Program(c.files, c.entry)
        progs.append((c, p, expect_of(p, c.stdin or b"", c.step_limit)))
    run = [x for x in progs if x[2][0] != "undefined"]

    def job(c, p):
        j = {"files": p.src, "entry": c.entry}
        if c.stdin is not None:
            j["stdin"] = c.stdin
        return j

    results = dict(zip((id(x[0]) for x in run), worker.run_many([job(c, p) for c, p, _ in run])))
    outs = []
    for c, p, exp in progs:
        key = digest(sorted(p.src.items()), c.stdin)
        o = {"key": key, "cls": cls_of(exp), "bad": None, "obs": b""}
        outs.append(o)
        if exp[0] == "undefined":
            o["skip"] = True
            o["why"] = exp[1]
            continue
        res = results[id(c)]
        why = problem(exp, res, p.src)
        if why:
            res = worker.run(job(c, p))
            why = problem(exp, res, p.src)
        o["obs"] = digest(res.out, res.err)
        if why:
            o["bad"] = {
                "what": why,
                "label": c.label,
                "files": p.src,
                "entry": c.entry,
                "stdin": None if c.stdin is None else c.stdin.decode("latin-1"),
                "expected": show_expected(exp),
                "got": show_result(res),
            }
        o["label"] = c.label
        o["sample"] = p.src[c.entry] if c.stdin is None else (p.src[c.entry], c.stdin.decode("latin-1"))
    return outs


class Text:
    """A program given as text, with what must happen: ("reject", file|None,
    line|None|(first, last)) or ("run", stdout, (line, msg, trace)|None)."""

    __slots__ = ("label", "files", "expect", "stdin", "entry", "more")

    def __init__(self, label, files, expect, stdin=None, entry="main.ama", **more):
        self.label, self.expect, self.stdin, self.entry, self.more = label, expect, stdin, entry, more
        self.files = files if isinstance(files, dict) else {"main.ama": files}

    def job(self):
        j = {"files": self.files, "entry": self.entry, **self.more}
        if self.stdin is not None:
            j["stdin"] = self.stdin
        return j


def judge_texts(worker, cases):
    outs = []
    for c, res in zip(cases, worker.run_many([c.job() for c in cases])):
        exp = tuple(c.expect)
        if exp[0] == "reject":
            exp = (exp + (None, None, None))[:4]
        why = problem(exp, res, c.files)
        if why:
            res = worker.run(c.job())
            why = problem(exp, res, c.files)
        o = {"key": digest(sorted(c.files.items()), c.stdin, sorted(c.more.items())), "cls": cls_of(exp), "bad": None, "obs": digest(res.out, res.err), "label": c.label,
             "sample": c.files[c.entry] if isinstance(c.files.get(c.entry), str) else repr(c.files.get(c.entry))}
        if why:
            o["bad"] = {"what": why, "label": c.label, "files": {k: v if isinstance(v, str) else v.decode("latin-1") for k, v in c.files.items()}, "entry": c.entry,
                        "stdin": None if c.stdin is None else c.stdin.decode("latin-1"), "more": c.more, "expected": show_expected(exp), "got": show_result(res)}
        outs.append(o)
    return outs


class Packed:
    """A prelude shared by many cases and the tail of one of them. The cases
    that complete are run many to a program; the others on their own."""

    __slots__ = ("label", "prelude", "tail", "ops", "lines")

    def __init__(self, label, prelude, tail, ops=None, lines=0):
        self.label, self.prelude, self.tail = label, prelude, tail
        # for a history: the names of its operations, and how many lines show
        # the state before the first and after each of them
        self.ops, self.lines = ops, lines


def histories(prelude, setup, ops, show, depth, wrap=True):
    """Every sequence of `depth` operations (name, statements) from the state
    that `setup` makes; the whole state is shown after every step. Each one is
    the body of a function of its own, or (wrap=False) a program."""
    import itertools

    setup, show = tuple(setup), tuple(show)
    for n, seq in enumerate(itertools.product(ops, repeat=depth)):
        body = setup + show
        for _, st in seq:
            body += tuple(st) + show
        names = tuple(name for name, _ in seq)
        if wrap:
            f = f"h{n}"
            tail = (("func", f, (), None, body), ("expr", ("call", f, ())))
            yield Packed(" ; ".join(names), prelude, tail, names, len(show))
        else:
            yield Packed(" ; ".join(names), (), tuple(prelude) + body, names, len(show))


def _steps(case, out):
    """States and transitions of the model in a run whose output was that of
    the implementation."""
    n = case.lines
    lines = out.split("\n")[:-1]
    shown = ["\n".join(lines[i : i + n]) for i in range(0, len(lines), n)]
    states = {digest(x) for x in shown}
    trans = set()
    for k, name in enumerate(case.ops):
        if k < len(shown):
            trans.add(digest(shown[k], name, shown[k + 1] if k + 1 < len(shown) else "error"))
    return states, trans


def judge_packed(worker, cases, pack=40):
    singles, good = [], []
    outs = [None] * len(cases)
    for i, c in enumerate(cases):
        p = model.Program(tuple(c.prelude) + tuple(c.tail))
        exp = expect_of(p)
        (good if exp[0] == "run" and exp[2] is None else singles).append((i, c, p, exp))
    groups = {}
    for x in good:
        groups.setdefault(id(x[1].prelude), []).append(x)
    jobs, packs = [], []
    for g in groups.values():
        for k in range(0, len(g), pack):
            part = g[k : k + pack]
            stmts = tuple(part[0][1].prelude)
            for _, c, _, _ in part:
                stmts += tuple(c.tail)
            p = model.Program(stmts)
            exp = expect_of(p)
            if exp[0] != "run" or exp[2] is not None:
                singles += part
                continue
            packs.append((part, p, exp))
            jobs.append({"files": p.src})
    for (part, p, exp), res in zip(packs, worker.run_many(jobs)):
        if problem(exp, res, p.src):
            singles += part
            continue
        for i, c, q, e in part:
            outs[i] = {"key": digest(q.src), "cls": "completed", "bad": None, "obs": digest(e[1]),
                       "label": c.label, "sample": q.src["main.ama"]}
            if c.ops is not None:
                outs[i]["steps"] = _steps(c, e[1])
    alone = judge_programs(worker, [Case(c.label, tuple(c.prelude) + tuple(c.tail)) for _, c, _, _ in singles])
    for (i, c, _, e), o in zip(singles, alone):
        outs[i] = o
        if c.ops is not None and e[0] == "run" and not o["bad"]:
            o["steps"] = _steps(c, e[1])
    # a pack that fails although each of its cases is right on its own
    for (part, p, exp) in packs:
        if all(any(i == s[0] for s in singles) for i, _, _, _ in part) and not any(outs[i]["bad"] for i, _, _, _ in part):
            whole = judge_programs(worker, [Case("pack of " + part[0][1].label, tuple(part[0][1].prelude) + tuple(t for x in part for t in x[1].tail))])[0]
            if whole["bad"]:
                outs[part[0][0]] = dict(outs[part[0][0]], bad=whole["bad"], key=whole["key"])
    return outs


# ------------------------------------------------------------ known findings
def known_findings(prop):
    """{key: text}. Lines: `known: property=Cxx key=<hex> <what fails>`;
    lines that start with `fixed:` suppress nothing."""
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding="utf-8") as f:
            for line in f:
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
                if m and m[1] == prop:
                    out[m[2]] = m[3]
    return out


# ------------------------------------------------------------------- running
def write_replay(prop, tier, key, bad):
    d = os.path.join(VERIF, "replay", prop)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, key + ".json")
    with open(path, "w", encoding="utf-8", errors="backslashreplace") as f:
        json.dump(dict(bad, property=prop, tier=tier, key=key), f, ensure_ascii=False, indent=1, default=repr)
    return os.path.relpath(path, VERIF)


def run_check(mod, tier, seed):
    prop = mod.PROP
    t0 = time.time()
    known = known_findings(prop)
    hit = {}
    violations = []
    spaces = []
    seen = set()
    observed = set()
    states, transitions = set(), set()
    traces = 0
    totals = Counter()
    samples = []
    extra = Counter()
    cut = None
    pool = runner.Pool(getattr(mod, "PROFILE", "debug"))
    verbose = bool(os.environ.get("VERIF_VERBOSE"))
    only = os.environ.get("VERIF_SPACE")
    try:
        for sp in mod.spaces(tier):
            if only and not re.search(only, sp.name):
                continue
            ts = time.time()
            n = 0
            cls = Counter()
            whys = Counter()
            first = None
            obs0 = len(observed)
            dist0 = len(seen)
            for _, outs in pool.map(sp.judge, sp.gen, sp.chunk):
                for o in outs:
                    n += 1
                    cls[o["cls"]] += o.get("count", 1)
                    for k, v in o.get("extra", {}).items():
                        extra[k] += v
                    if o.get("skip"):
                        whys[o.get("why")] += 1
                        continue
                    seen.add(o["key"])
                    if o.get("obs"):
                        observed.add(o["obs"])
                    if "steps" in o:
                        states |= o["steps"][0]
                        transitions |= o["steps"][1]
                        traces += 1
                    if first is None and "sample" in o:
                        first = o
                    if o["bad"]:
                        key = o["key"].hex()
                        if key in known:
                            hit[key] = known[key]
                        else:
                            violations.append((key, sp.name, o["bad"]))
                if len(violations) >= MAX_VIOLATIONS:
                    cut = f"stopped after {len(violations)} violations in the space {sp.name!r}"
                    break
            spaces.append({
                "space": sp.name, "bound": sp.bound, "cases": n, "distinct": len(seen) - dist0,
                "distinct_outcomes": len(observed) - obs0, "outcomes": dict(cls),
                "seconds": round(time.time() - ts, 1),
            })
            if verbose:
                print(json.dumps(spaces[-1], ensure_ascii=False), dict(whys.most_common(8)), flush=True)
            if first is not None and len(samples) < 12:
                samples.append({"space": sp.name, "case": first["sample"]})
            totals.update(cls)
            if cut:
                break
    finally:
        pool.close()
    for key, what in sorted(hit.items()):
        print(f"KNOWN-FINDING: property={prop} {what}")
    n = sum(s["cases"] for s in spaces)
    coverage = {
        "evaluations": n,
        "distinct_nontrivial": len(seen),
        "distinct_observed_outcomes": len(observed),
        "rule": mod.RULE,
        "outcomes": dict(totals),
        "samples": samples or ["(none)"],
        "exhaustive": cut is None and not only,
        "spaces": spaces,
        "known_findings_hit": len(hit),
    }
    if traces or mod.LEVEL == "model_checking":
        coverage.update(states=len(states), transitions=len(transitions), traces_validated_against_impl=traces)
    if extra:
        coverage.update(extra)
    if cut:
        coverage["cut"] = cut
    if hasattr(mod, "coverage"):
        coverage.update(mod.coverage(coverage))
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": coverage,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w", encoding="utf-8", errors="backslashreplace") as f:
        json.dump(ev, f, ensure_ascii=False, indent=1)
    violations.sort(key=lambda v: len(json.dumps(v[2].get("files", ""), default=repr)))
    for key, space, bad in violations[:int(os.environ.get("VERIF_REPLAYS", "10"))]:
        path = write_replay(prop, tier, key, dict(bad, space=space))
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {space}: {bad['what']}: {str(bad.get('label', ''))[:300]}")
    if not violations:
        print(f"{prop} {tier}: held on {n} cases ({len(seen)} distinct) in {ev['wall_s']} s")
    return 1 if violations else 0


def main(argv):
    name = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module(f"checks.{name}")
    return run_check(mod, tier, seed)


if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    # classes must be the same in this module and in the checks
    from mc import harness

    try:
        status = harness.main(sys.argv[1:])
    except BaseException:
        import traceback

        traceback.print_exc()
        status = 3  # an error of the check itself
    sys.exit(status)
