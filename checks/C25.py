"""C25: a program of any size runs correctly, or is rejected; below the limits it runs."""
import re

from mc.harness import Space, Text, digest, reject_problem

PROP = "C25"
LEVEL = "exploration"
RULE = ("for each dimension along which a program or a value can grow, and each size of the stated sets (all the sizes around the powers of two where an encoding can end), the program "
        "of that size is compiled and run: it must do what a program of its form does, or, above the stated size for its dimension, be rejected with one diagnostic; "
        "two cases are distinct when their dimensions or sizes differ")

DIMS = {}  # name -> (smallest size, size up to which it must run, function from size to (source or files, output))


def dim(low, floor, *kinds):
    def add(f):
        DIMS[f.__name__] = (low, floor, kinds, f)
        return f
    return add


def lines(n, f):
    return "".join(f(i) + "\n" for i in range(n))


def commas(n, f):
    return ", ".join(f(i) for i in range(n))


def some(n):
    """Indices whose values are observed: all, when there are few."""
    return list(range(n)) if n <= 300 else sorted({0, 1, n // 2, *(i for i in (126, 127, 128, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536) if i < n), n - 2, n - 1})


def shows(n, f):
    return "".join(f"mostra {f(i)}\n" for i in some(n))


def want(n, f=str):
    return "".join(f"{f(i)}\n" for i in some(n))


# ------------------------------------------------- operands of an instruction

@dim(0, 255, "u8")
def params_of_a_function(n):
    return f"func f({commas(n, lambda i: f'p{i}: int')})\n{shows(n, lambda i: f'p{i}')}fim\nf({commas(n, str)})\n", want(n)


@dim(0, 254, "u8")
def params_of_a_method(n):
    ps = commas(n, lambda i: f"p{i}: texto")
    return (f"met int::f(alvo{', ' if n else ''}{ps})\n{shows(n, lambda i: f'p{i}')}mostra alvo\nfim\n7.f({commas(n, lambda i: repr(str(i)))})\n".replace("7.f", "(7).f"),
            want(n) + "7\n")


@dim(0, 255, "u8")
def params_that_are_promoted(n):
    return f"func f({commas(n, lambda i: f'p{i}: real')})\n{shows(n, lambda i: f'p{i}')}fim\nf({commas(n, str)})\n", want(n, lambda i: f"{i}.0")


@dim(0, 255, "u8")
def params_and_a_result(n):
    return f"func f({commas(n, lambda i: f'p{i}: int')}): int\nretorna 1{''.join(f' + p{i}' for i in range(n))}\nfim\nx: int = f({commas(n, str)}) + f({commas(n, lambda i: '1')})\nmostra x\n", f"{n * (n - 1) // 2 + n + 2}\n"


@dim(1, 255, "u8")
def params_of_a_variant(n):
    return (f"uniao U\n A({commas(n, lambda i: 'int')}),\n B\nfim\nu: U = U::A({commas(n, str)})\niguala u\n U::A({commas(n, lambda i: f'x{i}')}) => faca\n{shows(n, lambda i: f'x{i}')}fim\n U::B => faca\nmostra 'b'\nfim\nfim\n",
            want(n))


@dim(1, 255, "u8")
def nested_patterns_of_a_variant(n):
    return (f"uniao T\n C,\n D(int)\nfim\nuniao U\n A({commas(n, lambda i: 'T')}),\n B\nfim\nu: U = U::A({commas(n, lambda i: f'T::D({i})')})\niguala u\n"
            f" U::A({commas(n, lambda i: f'T::D(x{i})' if i in some(n)[-2:] else f'x{i}')}) => escreva(x{n - 1})\n _ => escreva(1)\nfim\n", f"{n - 1}")


@dim(1, 255, "u8")
def fields_of_a_record(n):
    return f"registo P\n{lines(n, lambda i: f'p{i}: int')}fim\np: P = P({commas(n, lambda i: f'p{n - 1 - i}: {n - 1 - i}')})\n{shows(n, lambda i: f'p.p{i}')}", want(n)


@dim(0, 255, "u8")
def elements_of_a_vector(n):
    return f"v: [int] = [int: {commas(n, str)}]\nmostra tam(v)\n{shows(n, lambda i: f'v[{i}]')}", f"{n}\n" + want(n)


@dim(0, 255, "u8")
def texts_of_a_vector(n):
    q = "'"
    return f"v: [texto] = [texto: {commas(n, lambda i: f'{q}t{i}{q}')}]\nmostra tam(v)\n{shows(n, lambda i: f'v[{i}]')}", f"{n}\n" + want(n, lambda i: f"t{i}")


@dim(0, 255, "u8")
def parts_of_an_f_string(n):
    return "x: int = 4\nmostra f'" + "{x}" * n + "'\n", "4" * n + "\n"


@dim(0, 120, "u8")
def parts_of_an_f_string_with_texts(n):
    return "mostra f'" + "".join(f"{{{i}}}a" for i in range(n)) + "'\n", "".join(f"{i}a" for i in range(n)) + "\n"


@dim(1, 254, "u8")
def sizes_of_a_vector(n):
    return f"v: {'[' * n}int{']' * n} = vec(int{', 1' * n})\nmostra v\n", "[" * n + "0" + "]" * n + "\n"


@dim(1, 254, "u8")
def arguments_of_a_native(n):
    return f"mostra tam('a'{', 1' * (n - 1)})\n", "1\n" if n == 1 else None


# ------------------------------------------------------------------- nesting

def nest(n, open, body, close):
    return open * n + body + close * n


@dim(0, 200, "nest")
def parentheses(n):
    return f"mostra {'(' * n}1{')' * n}\n", "1\n"


@dim(0, 200, "nest")
def operators_on_the_right(n):
    return f"mostra {'1 + (' * n}1{')' * n}\n", f"{n + 1}\n"


@dim(0, 200, "nest")
def operators_on_the_left(n):
    return f"mostra 0{' + 1' * n}\n", f"{n}\n"


@dim(0, 200, "nest")
def prefix_operators(n):
    return f"mostra {'nao ' * n}verdadeiro\nmostra {'-' * n}3\n", ("falso\n-3\n" if n % 2 else "verdadeiro\n3\n")


@dim(0, 200, "nest")
def calls_in_arguments(n):
    return f"func f(a: int): int\nretorna a + 1\nfim\nmostra {'f(' * n}0{')' * n}\n", f"{n}\n"


@dim(0, 200, "nest")
def chains_of_methods(n):
    return f"met int::f(alvo): int\nretorna alvo + 1\nfim\nx: int\nmostra x{'.f()' * n}\n", f"{n}\n"


@dim(0, 200, "nest")
def chains_of_fields(n):
    return f"registo P\np: P?\nn: int\nfim\nx: P = P(n: 1, p: nulo)\nx.p = x\nmostra x{'.p.valor' * n}.n\n", "1\n"


@dim(0, 200, "nest")
def chains_of_assignments(n):
    return f"x: int\nx = {'x = ' * n}5\nmostra x\n", "5\n"


@dim(0, 200, "nest")
def conversions(n):
    return f"mostra {'(' * n}1{' :> real) + 1 :> int' * n}\n".replace("real) + 1 :> int", "real)"), "1.0\n" if n else "1\n"


@dim(0, 200, "nest", "long types")
def vectors_in_vectors(n):
    return f"mostra {''.join('[' + '[' * (n - i - 1) + 'int' + ']' * (n - i - 1) + ': ' for i in range(n))}1{']' * n}\n".replace("[int: ", "[int: "), "[" * n + "1" + "]" * n + "\n"


@dim(0, 100, "nest")
def branches(n):
    return nest(n, "se verdadeiro entao\n", "mostra 1\n", "fim\n"), "1\n"


@dim(0, 100, "nest")
def branches_in_else(n):
    return nest(n, "se falso entao\nmostra 0\nsenao\n", "mostra 1\n", "fim\n"), "1\n"


@dim(0, 200, "nest")
def branches_in_sequence(n):
    return f"x: int = {n}\nse falso entao\nmostra 0\n{lines(n, lambda i: f'senaose x == {i + 1} entao{chr(10)}mostra {i}')}senao\nmostra 'x'\nfim\n", f"{n - 1 if n else 'x'}\n"


@dim(0, 100, "nest")
def loops_enquanto(n):
    return nest(n, "enquanto verdadeiro faca\n", "mostra 1\n", "quebra\nfim\n"), "1\n"


@dim(0, 100, "nest")
def loops_para(n):
    return "".join(f"para i{k} de 0..1 faca\n" for k in range(n)) + "mostra 1\n" + "fim\n" * n, "1\n"


@dim(0, 100, "nest")
def blocks_escolha(n):
    return nest(n, "escolha 1:\ncaso 1:\n", "mostra 1\n", "fim\n"), "1\n"


@dim(0, 100, "nest")
def blocks_iguala(n):
    return nest(n, "iguala 1\n1 => faca\n", "mostra 1\n", "fim\n_ => faca\nmostra 2\nfim\nfim\n"), "1\n"


@dim(0, 100, "nest")
def iguala_in_expressions(n):
    return f"x: int = {nest(n, 'iguala 1 2 => 0 _ => 1 + ', '0', ' fim')}\nmostra x\n".replace("iguala 1 2", "iguala 1\n2").replace("0 _", "0\n_").replace(" fim", "\nfim"), f"{n}\n"


@dim(1, 60, "nest")
def patterns(n):
    return f"uniao U\nA,\nB(U)\nfim\nx: U = {nest(n, 'U::B(', 'U::A', ')')}\nmostra iguala x\n{nest(n, 'U::B(', 'y', ')')} => 1\n_ => 0\nfim\n", "1\n"


@dim(0, 60, "nest")
def functions_with_locals_in_blocks(n):
    return ("func f(): int\ns: int\n" + "".join(f"se verdadeiro entao\nx{i}: int = {i}\n" for i in range(n)) + "".join(f"s += x{i}\n" for i in range(n)) + "fim\n" * n
            + "retorna s\nfim\nmostra f()\n"), f"{n * (n - 1) // 2}\n"


# --------------------------------------------------------------- many things

@dim(0, 300, "many")
def cases_of_escolha(n):
    return f"func f(x: int)\nescolha x:\n{lines(n, lambda i: f'caso {i}:{chr(10)}mostra {i} + 1000')}senao:\nmostra 'x'\nfim\nfim\n" + "".join(f"f({i})\n" for i in some(n + 1)), \
        "".join(f"{i + 1000 if i < n else 'x'}\n" for i in some(n + 1))


@dim(1, 100, "many")
def arms_of_iguala(n):
    return f"func f(x: int): int\nretorna iguala x\n{lines(n - 1, lambda i: f'{i} => {i} + 1000')}_ => 7\nfim\nfim\n" + "".join(f"mostra f({i})\n" for i in some(n)), \
        "".join(f"{i + 1000 if i < n - 1 else 7}\n" for i in some(n))


@dim(1, 100, "many")
def variants(n):
    vs = ",\n".join(f"V{i}" + ("(int)" if i % 2 else "") for i in range(n))
    return (f"uniao U\n{vs}\nfim\nfunc f(u: U): int\nretorna iguala u\n{lines(n, lambda i: (f'U::V{i}(k) => k' if i % 2 else f'U::V{i} => {i}'))}fim\nfim\n"
            + "".join(f"mostra f(U::V{i}{f'({i})' if i % 2 else ''})\n" for i in some(n)), want(n))


@dim(1, 300, "many")
def functions(n):
    return lines(n, lambda i: f"func f{i}(): int\nretorna {i}\nfim") + shows(n, lambda i: f"f{i}()"), want(n)


@dim(1, 300, "many")
def methods(n):
    return lines(n, lambda i: f"met int::f{i}(alvo): int\nretorna alvo + {i}\nfim") + shows(n, lambda i: f"(1).f{i}()"), want(n, lambda i: i + 1)


@dim(1, 300, "many")
def records(n):
    return lines(n, lambda i: f"registo R{i}\nf{i}: int\nfim") + shows(n, lambda i: f"R{i}(f{i}: {i}).f{i}") + "".join(f"mostra R{i}(f{i}: 1)\n" for i in some(n)[-1:]), \
        want(n) + f"<Instância do tipo R{n - 1}>\n"


@dim(1, 200, "many")
def unions(n):
    return lines(n, lambda i: f"uniao U{i}\nA,\nB(int)\nfim") + "".join(f"mostra iguala U{i}::B({i})\nU{i}::A => 0\nU{i}::B(k) => k\nfim\n" for i in some(n)), want(n)


@dim(1, 300, "many")
def statements_in_a_loop(n):
    return f"x, y: int\nenquanto y < 2 faca\n{'x += 1' + chr(10) * 1}" + "x += 1\n" * (n - 1) + "y += 1\nfim\nmostra x\n", f"{2 * n}\n"


@dim(1, 300, "many")
def calls_in_sequence(n):
    return "s: int\nfunc f(a: int): int\nretorna a + 1\nfim\n" + "s = f(s)\nf(1)\n" * n + "mostra s\n", f"{n}\n"


@dim(1, 300, "many")
def names_of_fields(n):
    k = 100

    def of(r):
        return range(r * k, min(n, r * k + k))

    return "".join(f"registo R{r}\n" + "".join(f"f{i}: int\n" for i in of(r)) + f"fim\nr{r}: R{r} = R{r}({', '.join(f'f{i}: {i}' for i in of(r))})\n" for r in range((n + k - 1) // k)) + \
        "".join(f"mostra r{i // k}.f{i}\n" for i in some(n)), want(n)


# -------------------------------------------------------- tables of a module

@dim(1, 20_000, "u16")
def variables(n):
    return lines(n, lambda i: f"x{i}: int = 1") + f"x{n - 1} = 5\n" + shows(n, lambda i: f"x{i}"), want(n, lambda i: 5 if i == n - 1 else 1)


@dim(1, 20_000, "u16")
def variables_of_a_function(n):
    return f"func f()\n{lines(n, lambda i: f'x{i}: int = 1')}x{n - 1} = 5\n{shows(n, lambda i: f'x{i}')}fim\nf()\n", want(n, lambda i: 5 if i == n - 1 else 1)


@dim(1, 20_000, "blocks")
def variables_of_blocks(n):
    return f"func f()\n{lines(n, lambda i: f'se verdadeiro entao{chr(10)}x{i}: int = {i % 7}{chr(10)}' + (f'mostra x{i}{chr(10)}' if i in set_of(n) else '') + 'fim')}fim\nf()\n", want(n, lambda i: i % 7)


def set_of(n, memo={}):
    if n not in memo:
        memo.clear()
        memo[n] = set(some(n))
    return memo[n]


@dim(1, 60_000, "u16")
def int_constants(n):
    return "x: int\n" + lines(n, lambda i: f"x = {i}" + ("\nmostra x" if i in set_of(n) else "")), want(n)


@dim(1, 60_000, "u16")
def text_constants(n):
    return "x: texto\n" + lines(n, lambda i: f"x = 't{i}'" + ("\nmostra x" if i in set_of(n) else "")), want(n, lambda i: f"t{i}")


@dim(1, 60_000, "u16")
def real_constants(n):
    return "x: real\n" + lines(n, lambda i: f"x = {i}.5" + ("\nmostra x" if i in set_of(n) else "")), want(n, lambda i: f"{i}.5")


@dim(1, 60_000, "code")
def code_that_is_jumped_over(n):
    return "x: int\nse x == 1 entao\n" + "x += 1\n" * n + "senao\nmostra 'não'\nfim\nmostra x\n", "não\n0\n"


@dim(1, 60_000, "code")
def code_of_a_loop(n):
    return "x, y: int\nenquanto y < 3 faca\n" + "x += 1\n" * n + "se y == 1 entao\nquebra\nfim\ny += 1\nfim\nmostra x\nmostra y\n", f"{2 * n}\n1\n"


@dim(1, 60_000, "code")
def code_of_a_function(n):
    return "x: int\nfunc g(): int\nretorna x\nfim\nfunc f(): int\n" + "x += 1\n" * n + "retorna x\nfim\nfunc h(): int\nretorna f() + g()\nfim\nmostra h()\n", f"{2 * n}\n"


@dim(1, 60_000, "code")
def line_of_an_error(n):
    return "x: int\n" + "x += 1\n" * n + "mostra x // 0\n", ("error", n + 2)


@dim(1, 200_000, "code", "long")
def lines_before_an_error(n):
    return "x: int\n" + "\n# a\n" * n + "mostra x // 0\n", ("error", 2 * n + 2)


@dim(1, 200_000, "code", "long")
def lines_before_a_mistake(n):
    return "x: int\n" + "\n# a\n" * n + "mostra y\n", ("mistake", 2 * n + 2)


@dim(1, 200_000, "long")
def columns_before_an_error(n):
    return "x: int" + " " * n + "; mostra x // 0\n", ("error", 1)


@dim(1, 200_000, "long")
def characters_of_a_text(n):
    return f"x: texto = '{'aé' * n}'\nmostra tam(x)\nmostra x[{2 * n - 1}]\nmostra x\n", f"{2 * n}\né\n{'aé' * n}\n"


@dim(1, 200_000, "long")
def characters_of_a_name(n):
    a = "a" * n
    return f"{a}: int = 1\n{a}b: int = 2\nmostra {a}\nmostra {a}b\nfunc f{a}(): int\nretorna 3\nfim\nmostra f{a}()\nregisto R{a}\n{a}: int\nfim\nmostra R{a}({a}: 4).{a}\n", "1\n2\n3\n4\n"


@dim(1, 200_000, "long")
def characters_of_a_comment(n):
    return f"mostra 1 # {'x' * n}\nmostra 2\n", "1\n2\n"


@dim(1, 1000, "long")
def zeros_of_an_int(n):
    return f"mostra {'0' * n}7\n", "7\n"


@dim(1, 1000, "long")
def digits_of_a_real(n):
    return f"mostra 0.5{'0' * n}\nmostra 0.{'3' * n} < 0.34\n", "0.5\nverdadeiro\n"


# ------------------------------------------------------------ size of values

@dim(0, 2_000_000, "value")
def length_of_a_list_of_records(n):
    return f"""registo N
  n: int
  p: N?
fim
x: N? = nulo
para i de 0..{n} faca
  x = N(n: i, p: x)
fim
s: int
y: N? = x
enquanto y != nulo faca
  s += y.valor.n
  y = y.valor.p
fim
mostra s
x = nulo
mostra 'fim'
""", f"{n * (n - 1) // 2}\nfim\n"


@dim(0, 2_000_000, "value")
def length_of_a_list_of_variants(n):
    return f"""uniao L
  Fim,
  No(int, L)
fim
func lista(n: int): L
  x: L = L::Fim
  para i de 0..n faca
    x = L::No(i, x)
  fim
  retorna x
fim
func soma(y: L): int
  s: int
  continuar: bool = verdadeiro
  enquanto continuar faca
    iguala y
      L::Fim => faca
        continuar = falso
      fim
      L::No(v, r) => faca
        s += v
        y = r
      fim
    fim
  fim
  retorna s
fim
x: L = lista({n})
mostra soma(x)
x = L::Fim
mostra soma(x)
mostra soma(lista({n}))
z: L = lista({n})
""", f"{n * (n - 1) // 2}\n0\n{n * (n - 1) // 2}\n"


@dim(1, 1_000_000, "value")
def equality_of_lists_of_variants(n):
    return f"""uniao L
  Fim,
  No(int, L)
fim
func lista(n: int, f: int): L?
  x: L = L::No(f, L::Fim)
  para i de 0..n faca
    x = L::No(i, x)
  fim
  retorna x
fim
mostra lista({n}, 1) == lista({n}, 1)
mostra lista({n}, 1) == lista({n}, 2)
mostra lista({n}, 1) == lista({n} + 1, 1)
""", "verdadeiro\nfalso\nfalso\n"


@dim(1, 1_000_000, "value")
def depth_of_vectors(n):
    return f"""x: [indef] = [indef: 1]
para i de 1..{n} faca
  v: [indef] = [indef: x]
  x = v
fim
mostra 'feito'
mostra x
x = [indef: 2]
mostra x
""", f"feito\n{'[' * n}1{']' * n}\n[2]\n"


@dim(1, 1_000_000, "value")
def depth_of_records_in_vectors(n):
    return f"""registo N
  v: [N]
  n: int
fim
x: N = N(v: [N:], n: 0)
para i de 1..{n} faca
  x = N(v: [N: x], n: i)
fim
mostra x.n
se {n} > 1 entao
  x = x.v[0]
fim
mostra x.n
x = N(v: [N:], n: 5)
mostra x.n
""", f"{n - 1}\n{max(n - 2, 0)}\n5\n"


@dim(0, 2_000_000, "value")
def elements_added_to_a_vector(n):
    return f"v: [int] = [int:]\npara i de 0..{n} faca\nanexa(v, i)\nfim\nmostra tam(v)\ns: int\npara i de 0..{n} faca\ns += v[i]\nfim\nmostra s\n", f"{n}\n{n * (n - 1) // 2}\n"


@dim(0, 2_000_000, "value")
def elements_of_a_vector_made_at_once(n):
    return f"v: [int] = vec(int, {n})\nmostra tam(v)\nanexa(v, 3)\nmostra v[{n}]\nw: [[int]] = vec(int, {n} // 10, 3)\nmostra tam(w)\n", f"{n}\n3\n{n // 10}\n"


class Case:
    def __init__(self, name, n):
        self.name, self.n = name, n

    def build(self):
        low, floor, kinds, f = DIMS[self.name]
        src, w = f(self.n)
        return src if isinstance(src, dict) else {"main.ama": src}, w, w is not None and self.n <= floor


def problem(res, files, w, must):
    if res.status != "exit":
        return f"ended by {res.status} {res.code}"
    if isinstance(w, tuple):
        if w[0] == "error" and res.code == 1 and res.out == "" and res.err.strip() == f"Erro na linha {w[1]}: não pode dividir um número por zero.":
            return None
        if w[0] == "mistake" and reject_problem(res, files, "main.ama", w[1]) is None:
            return None
    elif w is not None and res.code == 0:
        if res.err:
            return "text on stderr, and exit status 0"
        return None if res.out == w else "the output is not that of a program of this form"
    if must:
        return f"a size within the limits, but the program does not run as one of a smaller size does"
    return reject_problem(res, files)


def judge(worker, cases):
    out = []
    for c in cases:
        files, w, must = c.build()
        res = worker.run({"files": files, "entry": "main.ama", "timeout": 300})
        why = problem(res, files, w, must)
        o = {"key": digest(c.name, c.n), "cls": f"{c.name}: {'runs' if res.code == 0 else 'rejected' if not res.out else 'error'}", "obs": digest(res.code, res.err[-200:]), "bad": None,
             "label": f"{c.name}, {c.n}", "sample": f"{c.name}, {c.n}"}
        if why:
            big = sum(map(len, files.values())) > 200_000
            o["bad"] = {"what": why, "label": o["label"], "files": {"main.ama": f"# too long: checks.C25.DIMS[{c.name!r}][3]({c.n})[0]\n"} if big else files, "entry": "main.ama", "stdin": None, "more": {},
                        "expected": str(w)[-2000:], "got": {"status": res.status, "code": res.code, "out": res.out[-1000:], "err": res.err[-1000:]}}
        out.append(o)
    return out


def cases(kinds, sizes):
    for n in reversed(list(sizes)):
        for name, (low, floor, ks, f) in DIMS.items():
            if set(ks) & set(kinds) and n >= low and not ("long types" in ks and n > 500):
                yield Case(name, n)


HUGE = [2**33, 2**40, 2**48, 2**59, 2**59 + 1, 2**60 - 1, 2**60, 2**61, 2**62, 2**63 - 8, 2**63 - 1]


def huge():
    """Vectors that cannot exist: a runtime error, after what was shown before."""
    for t in ("int", "real", "bool", "texto"):
        for n in HUGE:
            for sizes, depth in ((f"{n}", 1), (f"2, {n}", 2), (f"{n}, 1", 2), (f"1, 1, {n}", 3)):
                yield Text(f"vec({t}, {sizes})", f"mostra 'antes'\nv: {'[' * depth}{t}{']' * depth} = vec({t}, {sizes})\nmostra 'depois'\n", None)
    for t in ("int", "texto"):
        for n in HUGE:
            yield Text(f"vec({t}, 0, {n})", f"mostra 'antes'\nv: [[{t}]] = vec({t}, 0, {n})\nmostra tam(v)\n", "antes\n0\n")
            yield Text(f"vec({t}, {n}, 0) in a function", f"func f(): [[{t}]]\n  mostra 'antes'\n  retorna vec({t}, {n}, 0)\nfim\nmostra f()\n", None)


CYCLES = [
    ("itself", "v: [indef] = [indef: 1]\nanexa(v, v)\nmostra v\n", "[1, [...]]\n"),
    ("itself only", "v: [indef] = [indef:]\nanexa(v, v)\nmostra v\nmostra v\n", "[[...]]\n[[...]]\n"),
    ("itself twice", "v: [indef] = [indef: 0]\nv[0] = v\nanexa(v, v)\nmostra v\n", "[[...], [...]]\n"),
    ("two", "v: [indef] = [indef: 1]\nw: [indef] = [indef: 2, v]\nanexa(v, w)\nmostra v\nmostra w\n", "[1, [2, [...]]]\n[2, [1, [...]]]\n"),
    ("shared, not a cycle", "v: [indef] = [indef: 1]\nw: [indef] = [indef: v, v, [indef: v]]\nmostra w\n", "[[1], [1], [[1]]]\n"),
    ("shared and a cycle", "v: [indef] = [indef: 1]\nanexa(v, v)\nw: [indef] = [indef: v, 2, v]\nmostra w\n", "[[1, [...]], 2, [1, [...]]]\n"),
    ("through a record", "registo P\n  v: [indef]\nfim\np: P = P(v: [indef: 1])\nanexa(p.v, p)\nanexa(p.v, p.v)\nmostra p.v\n", "[1, <Instância do tipo P>, [...]]\n"),
]


def cycles():
    for name, src, out in CYCLES:
        yield Text(f"cycle: {name}", src, out)
        if "registo" not in src:
            yield Text(f"cycle: {name}, in a function", "func f()\n" + src + "fim\n" + "f()\n" * 3, out * 3)


def text_problem(r, c):
    if r.status != "exit":
        return f"ended by {r.status} {r.code}"
    if c.expect is not None:
        return None if (r.code, r.out, r.err) == (0, c.expect, "") else "not what the program should show"
    line = c.files["main.ama"].split("vec(")[0].count("\n") + 1
    if r.code == 1 and r.out == "antes\n" and re.search(rf"\bLinha {line}, na função f\n|^Erro na linha {line}: ", r.err, re.M) and r.err.count("Erro na linha") == 1:
        return None
    return f"not one runtime error at line {line}"


def judge_huge(worker, cases):
    out = []
    for c in cases:
        r = worker.run(c.job())
        why = text_problem(r, c)
        o = {"key": digest(c.label), "cls": "runs" if r.code == 0 else "error", "obs": digest(r.out, r.err), "bad": None, "label": c.label, "sample": c.files["main.ama"]}
        if why:
            o["bad"] = {"what": why, "label": c.label, "files": c.files, "entry": "main.ama", "stdin": None, "more": {}, "expected": c.expect or "a runtime error",
                        "got": {"status": r.status, "code": r.code, "out": r.out[-500:], "err": r.err[-1500:]}}
        out.append(o)
    return out


def around(*ns, by=2):
    return sorted({n + d for n in ns for d in range(-by, by + 1) if n + d >= 0})


def spaces(tier):
    deep = tier != "quick"
    small = around(0, 1, 16, 32, 64, 127, 255, by=3) + around(511) if not deep else list(range(0, 520)) + around(1023, 4095)
    yield Space("operands of one instruction", "each kind of operand list, of every size near 0, 16, 32, 64, 128, 256 and 512" if not deep else "each kind of operand list, of every size up to 519",
                lambda: cases(["u8"], small), judge, 8)
    nest = [0, 1, 2, 3, 10, 30, 60, 100, 127, 128, 129, 200, 255, 256, 257, 500, 1000] + ([2000, 3000, 5000, 20000] if deep else [2000])
    yield Space("nesting", "each construct nested in itself or chained, at the stated depths: " + ", ".join(map(str, nest)), lambda: cases(["nest"], nest), judge, 4)
    many = [1, 2, 3, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300, 512, 700] + ([1024, 2048, 4096, 10000, 30000] if deep else [])
    yield Space("many things of a kind", "each kind of declaration and of list of statements, of the stated sizes", lambda: cases(["many"], many), judge, 2)
    long = [1, 2, 255, 256, 257, 4095, 4096, 65535, 65536, 200_000] + ([70_000, 131_072, 1_000_000] if deep else [])
    yield Space("long lines and tokens", "texts, names, comments, numbers and files of the stated lengths", lambda: cases(["long"], long), judge, 4)
    tab = [255, 256, 257, 65_534, 65_535] if not deep else around(0, 255, 16_383, 21_845, 32_767, 65_535, 70_000)
    yield Space("tables of a module", "each table of a module, of the stated sizes: " + ", ".join(map(str, tab)), lambda: cases(["u16"], tab), judge, 1)
    code = [255, 256, 257, 4096, 8192, 20_000] if not deep else around(0, 255, 4096, 5461, 6553, 7281, 8191, 9362, 10_922, 13_107, 16_383, 21_845, 32_767, 65_535, 70_000)
    yield Space("offsets of code", "each kind of jump, call and table of lines over the stated numbers of statements: " + ", ".join(map(str, code)), lambda: cases(["code", "blocks"], code), judge, 1)
    value = [0, 1, 2, 1000, 10_000, 100_000, 300_000] + ([1_000_000, 2_000_000] if deep else [])
    yield Space("large values", "values of each recursive shape of the stated lengths, made, read, compared, shown and released", lambda: cases(["value"], value), judge, 1)
    yield Space("vectors that cannot exist", f"vec of each primitive type with each of {len(HUGE)} sizes as each dimension", huge, judge_huge, 24)
    yield Space("cycles", "vectors that contain themselves, shown", cycles, judge_huge, 4)
