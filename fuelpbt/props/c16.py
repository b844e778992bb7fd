from ..gens import rint, rdbl, rstr, choose
from ..common import *

TITLE = "Function calls bind their arguments; apply, map and reduce call like calls do"
STATEMENT = ("Calling a function binds its parameters to the argument values in order, missing ones to nil; args gives the list of all values passed (at least one per parameter), argscount their number, arg the value at an index (an index out of range is reported as an error), and surplus values are collected in _additionalArgs. "
             "(apply f l) is the call of f with the elements of l, (map f l) the list of the results for each element in order, and (reduce f l x) folds from the left passing the element and the accumulated value, for defined, anonymous and built-in functions alike. "
             "Recursion and mutual recursion see their own arguments; a call of something that is no function and an operand of apply, map or reduce of the wrong kind are reported as errors.")
OVER = ["programs"]
QUANT = "all functions with 0-10 parameters called with 0-17 arguments of all types directly, through variables, parameters, apply, map and reduce, recursive to any moderate depth"
WHY = "Tests call functions with matching argument counts; surplus and missing arguments, argument introspection in nested calls and higher-order use over generated functions are not sampled."
MECH = [("argument binding", F_ENV + " fn_form"), ("higher-order functions", F_ENV + " Apply Map Reduce"), ("argument access", F_ENV + " args_form ArgsCount Arg")]
FILES = [F_ENV, F_INT]
TECHNIQUE = "property-based differential testing against a reference interpreter plus metamorphic relations between call forms"
QUICK, THOROUGH = 14000, 120000
RULE = "programs which define functions inspecting their arguments and call them in different ways; non-trivial = at least 5 calls of user functions or higher-order functions"


def val(r, d=1):
    return choose(r, [(4, lambda: rint(r)), (1, lambda: rdbl(r)), (2, lambda: rstr(r, 4)), (0.7, lambda: r.random() < 0.5), (0.6, lambda: None),
                      (1.2, lambda: {"q": [rint(r) for _ in range(r.randint(0, 3))]}), (0.5, lambda: {"q": [[1, 2], "a"]}), (0.5, lambda: {"q": r.choice(["a", "foo"])}),
                      (0.8 if d else 0, lambda: ["list", val(r, 0), val(r, 0)])])()


def body(r, ps, funs, d):
    parts = []
    for _ in range(r.randint(1, 3)):
        parts.append(choose(r, [
            (2, lambda: ["args"]), (2, lambda: ["argscount"]), (2, lambda: ["arg", r.choice([0, 1, 2, 3, -1]) if r.random() < 0.8 else r.randint(4, 11)]),
            (3 if ps else 0, lambda: r.choice(ps) if ps else 0), (0.7, lambda: "_additionalArgs"),
            (1.5 if funs else 0, lambda: call(r, funs, ps)),
            (1, lambda: ["apply", r.choice(sorted(funs)) if funs and r.random() < 0.6 else "list", r.choice([["args"], ["list"] + ps])]),
            (0.8, lambda: ["map", ["lambda", ["q"], ["list", "q", ["argscount"], ["args"]]], ["args"]]),
        ])())
    out = ["list"] + parts
    if r.random() < 0.25:
        out = ["do", ["println", {"s": "in"}] + ps, out]
    if r.random() < 0.15 and ps:
        out = ["do", ["setf", r.choice(ps), 77], out]
    return out


def call(r, funs, ps):
    f = r.choice(sorted(funs))
    n = max(0, funs[f] + r.choice([0, 0, 0, 0, 1, 2, -1, -2, r.randint(-6, 7)]))
    a = [r.choice(ps) if ps and r.random() < 0.4 else val(r) for _ in range(n)]
    k = r.random()
    if k < 0.6:
        return [f] + a
    if k < 0.85:
        return ["apply", f, ["list"] + a]
    return ["eval", ["cons", {"q": f}, {"q": [x for x in a if isinstance(x, (int, dict))]}]]


NUM = [["lambda", ["a", "b"], ["+", ["*", 10, "a"], "b"]], ["lambda", ["a", "b"], ["-", "b", "a"]], "-", "+", "*", ["lambda", ["a", "b"], ["list", "a", "b"]], "cons", "list", ["lambda", ["a"], "a"], "max2",
       ["lambda", ["a", "b", "c"], ["list", "a", "b", "c"]], "append", ["lambda", ["a", "b"], ["do"]], ["lambda", ["a", "b"], ["if", ["<", 0, 1], ["list", "a", "b"], 0]], ["lambda", ["a", "b"], ["if", ["==", "a", 3], "b"]]]


def gen(r, tier):
    funs, prog = {}, []
    prog.append(["defn", "max2", ["a", "b"], ["if", ["<", "a", "b"], "b", "a"]])
    if r.random() < 0.4:
        # symbols in lists are values, whatever these variables are
        prog += [["def", "a", 3], ["def", "foo", {"s": "var"}]]
    for i in range(r.randint(1, 3)):
        f = "f%d" % i
        ps = ["p", "q", "s", "t", "u", "v", "w", "x", "y", "z"][:r.randint(0, 4) if r.random() < 0.8 else r.randint(5, 10)]
        b = body(r, ps, dict(funs), 2)
        k = r.random()
        prog.append(["defn", f, ps, b] if k < 0.6 else ["def", f, [r.choice(["lambda", "fn"]), ps, b]] if k < 0.85 else ["gdefn", f, ps, b])
        funs[f] = len(ps)
    for _ in range(r.randint(3, 8)):
        k = r.random()
        if k < 0.03:
            # functions without a value
            prog.append(["map", "typestr", r.choice([["map", ["lambda", ["e"], r.choice([["do"], ["if", False, 1], ["while", False, ["do"]]])], {"q": [1, 2]}], ["list", ["reduce", ["lambda", ["e", "a"], r.choice([["do"], ["if", ["==", "e", 2], "a"]])], {"q": [1, 2, 3][:r.randint(0, 3)]}, 5]]])])
        elif k < 0.4:
            prog.append(call(r, funs, []))
        elif k < 0.52:
            prog.append(["map", r.choice(sorted(funs) + NUM[:2] + ["list", "str", "first", "not", "-", ["lambda", ["e"], ["list", "e", ["args"]]], ["lambda", ["e"], r.choice([["do"], ["if", False, "e"], ["def", "loc", "e"], ["while", False, ["do"]]])], "vars" if False else "typestr"]), choose(r, [(5, {"q": [rint(r) for _ in range(r.randint(0, 4))]}), (2, ["list", val(r), val(r)]), (1, {"q": [[1, 2], [3]]}), (0.5, val(r)), (0.7, {"q": [r.choice(["a", "foo", "b", 1]) for _ in range(r.randint(1, 3))]})])])
        elif k < 0.66:
            prog.append(["reduce", r.choice(NUM), choose(r, [(5, {"q": [r.randint(-5, 9) for _ in range(r.choice([0, 1, 2, 3, 4, 5, 5, 9, 14]))]}), (1, {"q": [[1], [2, 3]]}), (0.5, val(r))]), choose(r, [(4, r.randint(0, 9)), (1, {"q": []}), (1, {"q": [1]})])])
        elif k < 0.74:
            prog.append(["apply", r.choice(NUM), choose(r, [(5, {"q": [rint(r) for _ in range(r.choice([0, 1, 2, 3, 4, 4, 9, 13]))]}), (1, {"q": [[1], [2, 3]]}), (0.5, val(r)), (0.7, {"q": [r.choice(["a", "foo", "b", 1]) for _ in range(r.randint(1, 3))]})])])
        elif k < 0.75:
            # symbols which are the names of local variables
            m = "s%d" % len(prog)
            l = {"q": [r.choice(["k1", "k2", "foo", 1]) for _ in range(r.randint(1, 3))]}
            prog.append(["defn", m, ["k1", "k2"], ["list", ["map", r.choice(["list", "typestr", "str", ["lambda", ["e"], ["list", "e", "k1"]]]), l], ["reduce", ["lambda", ["e", "acc"], ["cons", "e", "acc"]], l, {"q": []}], ["apply", "list", l]]])
            prog.append([m, val(r), val(r)])
        elif k < 0.82:
            # recursion
            n = "r%d" % len(prog)
            prog.append(["defn", n, ["n", "acc"], ["if", ["<=", "n", 0], ["list", "acc", ["args"]], [n, ["-", "n", 1], ["+", "acc", "n"]]]])
            prog.append([n, r.choice([0, 1, 3, 10, 25]), 0])
        elif k < 0.88:
            n = "t%d" % len(prog)
            prog.append(["defn", n, ["n"], ["if", ["<", "n", 2], "n", ["+", [n, ["-", "n", 1]], [n, ["-", "n", 2]]]]])
            prog.append([n, r.randint(0, 7)])
        elif k < 0.93:
            prog.append([choose(r, [(1, val(r)), (1, "nofunction"), (1, ["list", 1]), (1, ["lambda", ["x"], ["list", "x"]])]), 1, 2])
        else:
            prog.append(["list", ["args"], ["argscount"]])
    return {"prog": prog}


def enumerate_cases(tier):
    ex = []
    bad = [1, {"s": "f"}, None, {"q": [1]}, True, "nofun", ["lambda", ["x"], "x"], "+", {"q": "+"}, ["nop"]]
    for f in bad:
        for l in [{"q": [1, 2]}, None, 5, {"s": "ab"}, ["nop"], "nolist", ["list"]]:
            ex += [["apply", f, l], ["map", f, l], ["reduce", f, l, 0]]
        ex += [[f], [f, 1]]
    for op in ("apply", "map", "reduce", "args", "argscount", "arg"):
        for n in range(5):
            ex.append([op] + [["lambda", ["x"], "x"], {"q": [1]}, 2, 3, 4][:n])
    return batches(ex)


def check(env, case):
    it, exp = check_prog(env, case)
    labels_from(env, it, exp)
    env.nontrivial(calls(it, "args", "argscount", "arg", "apply", "map", "reduce") >= 5)
