"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECK, PARSE, GEN = "amanda/compiler/check/core.py", "amanda/compiler/parse.py", "amanda/compiler/codegen.py"
IGUALA, EXH = "amanda/compiler/check/iguala.py", "amanda/compiler/check/exhaustiveness.py"
VM, VALUE, LOAD, DUMP = "amanda/vm/src/vm.rs", "amanda/vm/src/ama_value.rs", "amanda/vm/src/binload.rs", "amanda/compiler/bindump.py"
SYM, TYPES, TRANS = "amanda/compiler/symbols/core.py", "amanda/compiler/types/core.py", "amanda/compiler/transform.py"
NATIVE = "amanda/vm/src/modules/builtins"

# id: title, statement, over, quantifier, why tests cannot, files, mechanisms, level
P = {}


def prop(id, title, statement, over, text, why, files, mechanism, level="exploration", technique=None, note=None):
    P[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, level=level, technique=technique, note=note)


prop("C01", "Expressions evaluate, and their values are shown, as the language defines",
     "The value of every expression built from literals, variables, operators and conversions between int and real is the one that the language defines for the values of its operands, and 'mostra' writes that value in its one canonical form. An operation that has no result (division or remainder by zero, an integer that does not fit in 64 bits) ends the program with a runtime error; it never wraps around, crashes or yields another value.",
     ["inputs", "programs"], "Every operator on every pair of types and of boundary values, in every place that an expression can be in, and the compositions of operators.",
     "The existing tests evaluate a few dozen hand-written expressions; overflow, signs, negative operands of // and %, mixes of int and real and nested operators are a product that they sample.",
     [GEN, VM, VALUE, CHECK], [("code of the operators", GEN), ("arithmetic and comparison of values", VALUE), ("checks for overflow and division by zero", VM)])
prop("C02", "Expressions are grouped by precedence and associativity alone",
     "An expression written without parentheses means the same as the one in which parentheses make explicit the grouping given by the precedence and the associativity of its operators, including unary and postfix operators. Redundant parentheses change nothing.",
     ["programs"], "Every sequence of operators of every class up to a length, with prefix and postfix operators in every position.",
     "The grouping of each pair and triple of operators is a product; the existing tests have a few expressions in which a wrong grouping gives another value.",
     [PARSE], [("levels of the recursive descent parser", PARSE)])
prop("C03", "A program is accepted exactly when its types fit",
     "The compiler accepts a program exactly when every operand, assignment, initial value, argument, result, condition, index, size and field has a type that its place allows, where int is allowed where real is expected, T where T? is, and any type where indef is. A rejected program runs nothing and gives one diagnostic, at the line of the construct that is wrong.",
     ["programs"], "Every kind of context, combined with every type of value (primitives, vectors, records, unions, optionals, indef, nothing).",
     "It is a relation between every pair of types in every kind of context; the existing tests reject a few tens of programs and accept a few more.",
     [CHECK, TYPES, SYM, "amanda/compiler/ops.py"], [("types_match and promote_to", CHECK), ("rules of each operator", "amanda/compiler/ops.py")])
prop("C05", "Any text at all is either a program or gives one diagnostic",
     "For every file that is given to it, whatever its bytes, the compiler terminates and either accepts the program, which then runs to its end or to a runtime error, or writes exactly one diagnostic, which names an existing file and line, and ends with a status other than 0 without running anything. It never shows an exception of its own, aborts or hangs, and nor does the VM on what it accepts.",
     ["inputs", "programs"], "Every sequence of tokens up to a length in each of 45 contexts, every program at one edit of a token or of lines from one with every construct, every string over an alphabet of unusual characters and every sequence of bytes up to a length.",
     "The mistakes that people make are combinations of tokens that nobody foresaw; the existing tests have some tens of rejected programs.",
     [PARSE, CHECK, GEN, "amanda/compiler/error.py", "amanda/__main__.py"], [("diagnostics", "amanda/compiler/error.py"), ("recursive descent parser", PARSE), ("analysis of each node", CHECK)])
prop("C06", "Names refer to the innermost declaration; each variable has its own storage",
     "A name refers to the declaration that encloses its use most closely, is usable only after that declaration and inside of the block that contains it, and can be declared at most once in a block. Two variables never share storage while both are alive: assigning one of them never changes another, whatever the nesting of blocks, loops, functions, patterns and the number of variables.",
     ["programs"], "Every nesting of blocks, loops, branches, functions and patterns up to a size, with declarations, shadowing, assignments and uses in every place.",
     "The slots of variables depend on how scopes nest and on the order of declarations; the existing tests have few nested scopes and check few of the variables afterwards.",
     [CHECK, GEN, SYM], [("scopes and out_id of locals", SYM), ("slots of locals", GEN)])
prop("C07", "Statements run in the order that control flow defines",
     "In every program the statements that run, and their order, are those defined by se/senaose/senao, escolha, enquanto, para (whose limit is evaluated before, and its step after, each iteration), quebra, continua and retorna. Leaving a loop, a branch or a function early has no other effect on what runs next.",
     ["programs"], "Every nesting of control structures up to a number of nodes, with every way of leaving them in every position.",
     "Jumps are right or wrong for a nesting, not for a construct; the existing tests cover each construct and a few nestings of two.",
     [GEN, CHECK, TRANS, VM], [("labels and jumps", GEN), ("jump, jump if false", VM), ("para as a loop", TRANS)])
prop("C08", "Calls bind arguments in order, keep the variables of the caller, give the result",
     "A call evaluates its arguments from left to right, binds them to the parameters in order, runs the function with variables of its own, and gives its result to the caller, whose variables, partial expressions and position are untouched, at any depth of recursion. Recursion that is too deep is a runtime error, and a function declared with a result always gives one.",
     ["programs", "inputs"], "Every number and type of parameters, of locals and of temporaries of the caller; every nesting of calls in expressions; recursion of several shapes and depths.",
     "What a call can damage depends on what the caller has in its frame at that point; the existing tests call functions mostly from statements.",
     [GEN, VM, CHECK], [("call, return and frames", VM), ("code of functions", GEN), ("has_return", CHECK)])
prop("C09", "Records are shared by reference and their fields keep the last value stored",
     "Two variables, fields, elements or arguments that hold the same record always see the same fields, and a field always holds the value last stored in it through any of them; distinct records never affect one another. Each initial value goes to the field that it names, in whatever order they are written.",
     ["histories", "programs"], "Every sequence of operations on aliased and nested records up to a depth, and every order of the initial values.",
     "Aliasing is a property of histories; the existing tests store and read a field once.",
     [GEN, VM, "amanda/vm/src/values/registo.rs"], [("build, get and set of fields", VM), ("order of the fields", "amanda/vm/src/values/registo.rs")], "model_checking")
prop("C10", "The type of the target decides which method runs, on that very object",
     "A call of a method runs the method with that name declared for the type of its target, with 'alvo' being that very object, and its parameters and result as in any call; methods with the same name on other types, functions and fields never interfere. Every primitive type, record and union can have methods.",
     ["programs"], "Every combination of type of the target, way of reaching the target, signature and body.",
     "The existing tests declare one or two methods, mostly on records, and call them on variables.",
     [CHECK, GEN, SYM], [("lookup of methods", TYPES), ("call of methods", GEN)])
prop("C11", "Vectors behave as lists shared by reference, with checked limits",
     "After any history of creations, reads, stores, 'anexe', 'remova', 'tam' and assignments between variables, every vector has the elements and the size that a list shared by reference would have. An access outside of the limits is a runtime error that changes nothing, and elements that are vectors, records or optionals are never shared unless they were stored twice.",
     ["histories"], "Every sequence of operations on aliased and nested vectors up to a depth, and every index around the limits.",
     "The state of a vector depends on the history of operations through every alias; the existing tests run one short history for each operation.",
     [GEN, VM, VALUE, NATIVE], [("index get and set", VM), ("vec, anexe, remova, tam", NATIVE)], "model_checking")
prop("C12", "'iguala' runs the first arm that matches, with its bindings, and gives its value",
     "For every value, 'iguala' and 'se iguala' run the first arm, in the order in which they are written, whose pattern matches it, and no other; the names in that pattern hold the parts of the value that they stand for, the value of the whole is the value of the arm, and the variables around it are untouched. The target is evaluated once.",
     ["programs", "inputs"], "Every list of arms up to a length over patterns of ints, texts, enumerations, variants with parameters and nested variants, on every value; every place that an 'iguala' can be in.",
     "The decision tree depends on the whole list of arms: the existing tests have a few lists, most with the arms in the order of the variants.",
     [EXH, IGUALA, GEN], [("compilation of rows into a decision tree", EXH), ("code of the decision tree", GEN)])
prop("C13", "An 'iguala' is accepted exactly when its arms cover every value of its type",
     "The compiler accepts an 'iguala' exactly when each value of the type of its target is matched by at least one arm, each pattern is possible for that type, and its arms agree on the type of the value; otherwise it rejects the program with one diagnostic in the lines of that 'iguala'. Therefore no accepted 'iguala' is ever left without an arm to run.",
     ["programs"], "Every list of arms up to a length over every kind of pattern, on every small shape of union.",
     "Whether a list is exhaustive depends on combinations of nested patterns; the existing tests have a few complete lists and a few incomplete ones.",
     [EXH, IGUALA], [("missing patterns of the decision tree", EXH), ("checks of the patterns", IGUALA)])

prop("C14", "Modules run once, in the order of the imports, and share their state",
     "Each module of a program is analysed and run exactly once, whatever the number of paths through which it is imported and the spelling of those paths; its entry code runs before that of the modules that import it, in the order in which the imports are first met, and its variables are shared by all of them. A name of another module is visible exactly when the import makes it visible (by alias, by item or globally), names of different modules never collide unless both are imported under that name, and a cycle of imports is rejected. An error names the file and the line where it is.",
     ["programs", "histories"], "Every graph of imports of 3 and 4 modules with every mode of import, every use of every kind of item through every path, and every history of operations on shared state up to a depth.",
     "What a module sees and when it runs depends on the whole graph; the existing tests import one or two modules, each in one way.",
     [CHECK, GEN, LOAD, DUMP], [("loading of modules, cycles, imported names", CHECK), ("indices of modules, constants and functions", GEN), ("load of the modules", LOAD)], "model_checking")
prop("C15", "An optional is nulo or a value, and only a check leads to the value",
     "An expression of type T? is nulo or holds a value of type T, the one last stored in it; '.valor' gives that value, or is a runtime error for nulo; '.valor_ou(x)' gives it, or x; comparison with nulo says which of the two it is. A T? is never accepted where a T is required, nulo is accepted only where an optional is, and storing in an optional variable, field or element never affects another one.",
     ["histories", "programs"], "Every history of operations on two optional variables, fields or elements up to a depth; every type with every way of making an optional of it and every use.",
     "Optionals pass through variables, fields, elements, arguments and results of every type, and each of those is a conversion of its own; the existing tests cover a few.",
     [CHECK, GEN, VM, TYPES], [("promotion to an optional", CHECK), ("valor and valor_ou", CHECK), ("code of comparison with nulo", GEN)], "model_checking")
prop("C16", "A runtime error stops the program at once and says where it happened",
     "An operation that fails ends the program at that point: everything that was written before is shown, nothing after it runs, and one diagnostic names the line of the operation and, when functions or methods were being called, each call in progress with its line, from the innermost to the outermost. Programs that do not fail show no diagnostic.",
     ["programs"], "Every failing operation in every place of an expression and of a statement, every tree of statements with the failure in each of its steps, every chain of calls and every layout of the lines around it.",
     "The line of an error depends on the code before it in the function, the module and the file: the existing tests have one program for most of the errors.",
     [GEN, VM, DUMP, LOAD], [("table of lines of the code", GEN), ("search in the table, and the trace of calls", VM)])
prop("C20", "Conversions give the value that the language defines, or an error",
     "A conversion with ':>' that the language allows gives the value that it defines for every value of the source type (a real becomes the int that it has without its fraction, the nearest int when it is out of range, and 0 when it is not a number); one that has no result (an indef that holds another type, a text that is not a number) is a runtime error; every other conversion is rejected. An int is converted to real, and a value to an optional or to indef, in every place that expects one, and keeps its type inside of an indef.",
     ["inputs", "programs"], "Every value of the stated sets of each type converted to each type, every sequence of conversions up to a length, every text over an alphabet up to a length as a number, and every place where a conversion is implicit.",
     "The conversions are a product of types, values and places; the existing tests convert a few values of some types.",
     [CHECK, GEN, VALUE, NATIVE], [("rules of conversions and promotions", CHECK), ("conversion of values", VALUE)])
prop("C21", "Literals and texts keep every character, and text operations count characters",
     "Every literal stands for exactly the value that it spells: an integer that fits in 64 bits, the real nearest to what is written, a text of any characters with its escape sequences, an f-string whose parts are shown in order. A text is a sequence of characters as users see them (grapheme clusters), and comparison, 'tam', indexing, 'txt_contem' and conversions see every character, wherever it came from. Text that is not a literal is rejected at its line.",
     ["inputs", "programs"], "Every text over an alphabet of quotes, escapes, combining and wide characters up to a length, in each kind of literal; every spelling of numbers over an alphabet up to a length; every list of parts of f-strings.",
     "Quotes, escapes, braces and characters of several code points interact with the position where they are; the existing tests have a few literals of each kind.",
     ["amanda/compiler/tokens.py", PARSE, DUMP, LOAD, VALUE], [("lexer", PARSE), ("constants of the module", DUMP), ("texts of the VM", LOAD)])
prop("C22", "Each read takes the next line of the input; output appears in order",
     "Each call of 'leia', 'leia_int' or 'leia_real' shows its argument and takes exactly the next line of the input (the empty text after its end), in the order in which the program runs, whatever the place of the call; it gives the text or number in that line, or is a runtime error when it is not one. What is written by 'mostra', 'escreva', 'escrevaln' and the reads appears exactly once, in the order of execution, up to the end or the error.",
     ["histories", "inputs"], "Every sequence of reads and writes up to a length with every input of up to 2 or 3 lines, every place of a read, long lines and many lines, input that is not valid UTF-8.",
     "What a read gives depends on all the reads before it; the existing tests read one or two values.",
     [NATIVE, VM, GEN], [("leia, leia_int, leia_real, escreva, escrevaln", NATIVE), ("call of natives", VM)], "model_checking")
prop("C23", "Operands are evaluated once, from left to right; assignments store once",
     "In every expression each operand is evaluated exactly once, from left to right (in an assignment: the parts of the target, then the value), and the first one that fails ends the program. 'a op= b' stores a op b in a, evaluating the parts of a once; 'a = b = c' stores the value of c in b and then in a. An assignment is a statement, whose target is a variable, a field or an element, and it is rejected anywhere else.",
     ["programs"], "Every tree of 3 of the kinds of expressions, with operands that show when they run; every target, operator and value (also values that change what the target refers to), every chain of two or three targets, every pair of operands that fail.",
     "Evaluating an operand twice, or in another order, is seen only when it has an effect; the operands of the existing tests have none.",
     [GEN, PARSE, CHECK], [("code of operands, of compound and chained assignments", GEN), ("statements of assignment", PARSE)])

prop("C28", "Layout, comments and the choice of names do not change a program",
     "What a program does depends only on its sequence of tokens: spaces, tabs, comments, blank lines, indentation, the kind of line ends, breaks of lines inside of lists, and ending a statement by a new line or by ';' change nothing, except that the lines in diagnostics follow the text. The names that a program gives to its variables, functions, types, fields, variants and modules change nothing either, as long as different things keep different names.",
     ["programs"], "Every edit of the space between any two tokens of 15 programs that have every construct, alone, in pairs and over several styles of layout; every name replaced by each of a list of unusual names, and each two names exchanged.",
     "The lexer and the parser handle spaces and line ends in dozens of places, and the compiler keeps names in several tables; the existing tests are all written in one style.",
     [PARSE, CHECK, GEN, SYM], [("tokens, comments and line ends", PARSE), ("tables of names", GEN)])
prop("C29", "The memory in use does not grow with the statements that have been run",
     "The memory that a program uses depends on the values that its variables hold and on the calls in progress, not on how many statements, iterations or calls it has completed: a loop can run any number of times, whatever its body is and however it is left (values that refer to themselves through fields excepted).",
     ["programs", "histories"], "Every form of statement in loops of every kind and place, in every block of a loop, and in functions left in every way, run 250 000 times.",
     "A value that is left behind by a statement shows in nothing that a program writes until the memory ends; the existing tests run loops of a few iterations.",
     [GEN, VM], [("values left on the stack by statements", GEN), ("stack of values, frames", VM)],
     note="Exhaustive over the stated forms, blocks and ways of leaving; each program is compiled by the real compiler and run by the real VM, and its peak of resident memory is measured by the kernel and compared with that of a program without the loop. The number of iterations is one large number, so a leak of less than 12 bytes per iteration, or one that starts later, is not seen.")
prop("C25", "Sizes and depths up to the limits work; beyond them there is an error",
     "A program works whatever the number of its elements, arguments, parameters, fields, variants, patterns, constants, names, variables, statements and lines, the length of its texts and the depth of its expressions, blocks and values, up to the limits of the implementation; beyond a limit it is rejected with one diagnostic, or ends with a runtime error. It never gives another result, crashes or stops responding because of a size.",
     ["inputs", "programs"], "Every kind of list, nesting, declaration, token, table, jump and recursive value, with every size of a set around the powers of two at which the encodings change.",
     "Operands of 8 and 16 bits, offsets of jumps, recursion limits and recursive destructors fail only near their limits; the existing tests are small programs.",
     [GEN, VM, VALUE, LOAD, PARSE], [("operands, tables and offsets of the bytecode", GEN), ("values: release, comparison, text form", VALUE), ("loading of modules", LOAD)],
     note="Exhaustive over the stated kinds and sizes, each compiled by the real compiler and run by the real VM. The expected output is computed by the check for each kind; whether a size is over a limit is not fixed, but sizes up to 255 of everything must work. Memory exhaustion by values that a program makes one by one is not covered.")
prop("C26", "The command line runs the program that it names, and says how it ended",
     "However the file and its imports are named, and wherever and in whatever environment (locale, hash seed, encoding) the command is run, the standard output has exactly what the program shows, diagnostics on the standard error name the file and line at fault, and the exit status is zero exactly when the program completed. What is not a program, and output that cannot be written, is reported, and the status is then not zero. No file is made, except that '-d' writes a debug file in the current folder and changes nothing else.",
     ["inputs", "configurations", "fault_sequences"], "Every combination of kinds of programs, options, names and paths of files, folders, links; every combination of states of the standard streams; every one of a list of environments; every state of the debug file.",
     "Each run is a combination of a program, a way of naming it, an environment and the state of three streams; the existing tests call the compiler on one path with pipes.",
     ["amanda/__main__.py", CHECK, "amanda/compiler/error.py", "amanda/libamanda.py", NATIVE], [("command line and debug file", "amanda/__main__.py"), ("resolution of imports", CHECK), ("diagnostics", "amanda/compiler/error.py"), ("output and its failures", VM)],
     note="Exhaustive over the stated combinations; each case is a process of its own that runs amanda.__main__.main with the VM built from the working tree (only the path of the library of the VM is replaced). The expected output, exit status, file and line of the diagnostic and new files are given by the check.")
prop("C27", "The functions of the module 'mat' give the values of mathematics",
     "Each function of the module 'mat' gives, for every argument, the value that IEEE 754 arithmetic or mathematics defines (exactly for abs, raizqd, piso, teto and arredonda; to the precision of doubles for the others), of the type that it declares, whether the module is imported as a whole, by an alias or by items, and in every place of an expression. PI is the nearest double. Arguments and names that do not fit are rejected.",
     ["inputs", "programs"], "Every function on each of 69 boundary values or each pair of them, on ranges, composed with each other, through every kind of import in every place.",
     "The existing tests call each function on one or two values.",
     ["amanda/vm/src/modules/builtins/mat.rs", "std/mat.ama", CHECK, GEN], [("functions", "amanda/vm/src/modules/builtins/mat.rs"), ("declarations of natives", "std/mat.ama")],
     note="Exhaustive over the stated values and places, on the real compiler and VM. The oracle is the mathematics of Python (correctly rounded where IEEE 754 defines the result; within a few units in the last place for sen, cos, tan, log and expoente).")

prop("C30", "A program talks with its user in step, until it ends or is interrupted",
     "Everything that a program wrote before it waits for input can be read by then, however the writes and reads are mixed; it goes on as soon as the line that it waits for is complete, in whatever pieces it was given, and takes no input that it did not ask for. Whoever reads its output may take it in pieces of any size, and nothing is lost or repeated; when they leave, it ends with a status other than 0. An interruption (Ctrl-C, SIGTERM), while it works or waits, ends it at once, with all that it showed before it kept.",
     ["schedules", "histories", "programs"], "Every program of up to 2 reads and writes in 5 places, with every division of the input in pieces, every point of interruption; programs that never end; readers that take pieces of every size of a set or leave.",
     "What depends on the moments at which the input comes and the output is taken is not seen by tests, which give all the input at once and collect all the output at the end.",
     [VM, NATIVE, "amanda/__main__.py", "amanda/libamanda.py"], [("natives of input and output, flushes", NATIVE), ("output of the VM and its failures", VM), ("signals", "amanda/__main__.py")], level="model_checking",
     technique="explicit-state exploration of every schedule of events (pieces of input, its end, signals, reads) of programs in a model, each replayed on the real compiler and VM in a process with pipes",
     note="Exhaustive over the stated programs and schedules. After each event the process must have written what the model has written when it waits (8 s are allowed, so a slow machine is no violation; a case that fails is run again before it is reported). The schedules are those of the program and of who is at the other end of its pipes; the program itself has one thread.")
prop("C31", "A construct means the same whatever it is inside of, next to or after",
     "The meaning of a statement or expression does not depend on the constructs that it is inside of, beside or after: each construct has its variables, bindings and temporaries for itself, in every nest of blocks, loops, matches, functions, methods, operands and arguments. What it contains leaves those of the outer ones as they were, whether it ends normally, by 'quebra', 'continua' or 'retorna'; and what may only be inside of a construct is rejected outside of it.",
     ["programs"], "Every nest of 25 constructs up to 3 deep around each of 15 statements, every sequence of 2 and 3 of them, in functions and entry code, whole and divided in modules; every statement out of place after every pair of 23 constructs.",
     "The slots of variables and the depth of the stack are computed for each nest separately, and a mistake needs two or three particular constructs; the existing tests have constructs one or two deep.",
     [GEN, CHECK, TRANS, VM], [("slots of locals, jumps, temporaries", GEN), ("scopes", CHECK), ("transformation of iguala", TRANS)])

LEVEL_NOTE = ("Exhaustive within the bounds that the evidence file states for each space: every case of every space is compiled by the real compiler and run by the real VM, "
              "built from the working tree, and compared with a reference model of the language written for this purpose (mc/model.py). Nothing is sampled. It trusts the model, "
              "which agrees with the implementation on every case of the unchanged tree, and rustc and CPython; programs larger than the bounds are not covered.")
TECHNIQUE = {
    "exploration": "bounded exhaustive exploration of programs on the real compiler and VM, against a reference model",
    "model_checking": "explicit-state exploration of every history of operations up to a depth in a model, each one replayed on the real compiler and VM",
}


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w", encoding="utf-8") as f:
        for id, p in P.items():
            if len(p["title"]) > 80:
                print(id, len(p["title"]))
            f.write(json.dumps({
                "id": id, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]},
            }, ensure_ascii=False) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "python3 -m mc.build",
        "checks": [{
            "property": id, "quick_cmd": f"./check {id} quick", "thorough_cmd": f"./check {id} thorough", "technique": p["technique"] or TECHNIQUE[p["level"]],
            "level": p["level"], "level_note": p["note"] or LEVEL_NOTE,
        } for id, p in P.items()],
        "not_applicable": [],
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(m, f, ensure_ascii=False, indent=1)
        f.write("\n")


main()
