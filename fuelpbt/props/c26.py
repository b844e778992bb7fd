from ..gens import rint, rstr, choose, Gen
from ..common import *
from .. import model
from .c05 import parse_stack

TITLE = "A session survives every error and equals the program as one text"
STATEMENT = ("A program entered statement by statement, in blocks of any size or as one text gives the same values, output and final variables. "
             "When a statement fails, however deep inside of functions, loops, macros, map or evalstr, everything it changed before the failure stays, nothing after it happens, and the session continues at the global level as if nothing were pending: later definitions are global, later calls have their own arguments, a pending return or argument list is forgotten and the call stack of the next error starts at the top again.")
OVER = ["programs", "histories"]
QUANT = "all statement sequences with failures at any point of any nested construct and all ways of grouping them into blocks"
WHY = "Tests stop at the first error; what a failure leaves behind shows up only in what is evaluated afterwards."
MECH = [("error propagation", F_INT + " EvalAst"), ("scopes of calls", F_ENV + " CreateFunction"), ("call stack", F_SCO), ("evaluation", F_LSP + " Eval")]
FILES = [F_INT, F_ENV, F_SCO, F_LSP]
TECHNIQUE = "model-based property testing against a reference interpreter plus a metamorphic check of the grouping"
QUICK, THOROUGH = 11000, 80000
RULE = "sessions of 6-16 statements, about a third failing in a nested construct; non-trivial = at least one failure inside of a call and a successful statement after it"


def bad(r):
    return choose(r, [(2, lambda: ["nosuch", 1]), (2, lambda: ["first"]), (1, lambda: ["nth", 9, {"q": [1]}]), (1, lambda: ["+", 1, "undefinedvar"]), (1, lambda: ["+", True, 1]), (0.6, lambda: [5, 6]), (0.6, lambda: ["setf", "undefinedvar", 1]), (0.6, lambda: ["evalstr", {"s": "(nosuch"}]),
                      (0.6, lambda: ["evalstr", {"s": "(do (setf cnt (+ cnt 1)) (nosuch2))"}]), (0.5, lambda: ["pop", 5]), (0.4, lambda: ["parse-integer", {"s": "x"}]), (0.4, lambda: ["if", {"q": "a"}, 1, 2]), (0.4, lambda: ["while", 5, ["list"]]), (0.3, lambda: ["arg", 99]),
                      (1, lambda: r.choice([["setf", ["first", 5], 1], ["setf", ["nth", 99, "gl"], 1], ["rval", ["first"]], ["rval", ["nosuch"]], ["setf", ["first", "gl"], ["nosuch"]], ["setf", ["rval", ["nth", 99, "gl"]], 1], ["setf", ["nth", ["rval", ["nosuch"]], "gl"], 1], ["setf", ["last", ["list"]], 1]]))])()


TICK = ["setf", "cnt", ["+", "cnt", 1]]


def nest(r, d, x):
    """x evaluated deep inside"""
    if d <= 0:
        return x
    i = nest(r, d - 1, x)
    k = r.randint(0, 16)
    if k == 0:
        return ["do", TICK, i, ["setf", "cnt", ["*", "cnt", 1000]]]
    if k == 1:
        return ["if", ["<", 1, 2], i, 3]
    if k == 2:
        return ["list", ["println", {"s": "a"}, "cnt"], i, ["println", {"s": "never"}]]
    if k == 3:
        return ["apply", ["lambda", ["a", "b"], ["do", TICK, i]], {"q": [1, 2]}]
    if k == 4:
        return ["map", ["lambda", ["x"], ["do", TICK, ["if", ["==", "x", 2], i, "x"]]], {"q": [1, 2, 3]}]
    if k == 5:
        return ["reduce", ["lambda", ["x", "acc"], ["do", TICK, ["if", ["==", "x", 2], i, "x"]]], {"q": [1, 2, 3]}, 0]
    if k == 6:
        return ["do", ["def", "w", 0], ["while", ["<", "w", 3], ["do", ["setf", "w", ["+", "w", 1]], TICK, ["if", ["==", "w", 2], i, 1]]]]
    if k == 7:
        return ["eval", {"q": i}]
    if k == 8:
        return ["call1", i]
    if k == 9:
        return ["apply", ["lambda", ["a"], ["return", i]], {"q": [1]}]
    if k == 10:
        return ["mev", i]
    if k == 11:
        return ["def", r.choice(["gx", "gy"]), i]
    if k == 12:
        return ["and", ["<", 1, 2], ["not", i]]
    if k == 13:
        return {"qq": [1, {"u": i}, 2]}
    if k == 14:
        return ["do", ["defn", "inner", ["q"], ["do", TICK, ["def", "loc", "q"], i]], ["inner", 7, 8, 9]]
    if k == 15:
        return ["setf", "gx", i]
    return ["push", i, "gl"]


def frag(r, g):
    return choose(r, [(3, lambda: g.stmt()), (3.5, lambda: nest(r, r.randint(0, 4), bad(r))), (1, lambda: nest(r, r.randint(1, 3), ["list", rint(r)])), (1, lambda: ["def", r.choice(["gx", "gy"]), rint(r)]), (1, lambda: ["list", "cnt", "gx", "gy", "gl"]),
                      (0.5, lambda: ["defn", "call1", ["z"], ["do", TICK, ["list", "z", ["args"]]]]), (0.5, lambda: ["call1", rint(r)]), (0.3, lambda: ["list", ["argscount"]]), (0.3, lambda: ["args"]), (0.2, lambda: ["list", "loc"]), (0.2, lambda: ["list", "w"]), (0.2, lambda: ["list", "a"]),
                      (0.4, lambda: ["def", "loc", rint(r)]), (0.3, lambda: ["apply", ["lambda", ["x"], ["do", ["return", "x"], ["nosuch"]]], {"q": [4]}]), (0.3, lambda: ["trace", r.random() < 0.5]), (0.2, lambda: ["list", ["gettrace"]]),
                      (0.5, lambda: ["return", rint(r)]), (0.8, lambda: ["do", TICK, TICK, ["list", "cnt"]]), (0.6, lambda: ["evalstr", {"s": r.choice(["(do (setf cnt (+ cnt 1)) (nosuch2))", "(nosuch 1)", "(list cnt", "(return (first))"])}]),
                      (0.4, lambda: ["evalstr", {"s": r.choice(["(return 5)", "(do (return 6) (nosuch))", "(+ 1 2)", "(do (setf cnt (+ cnt 1)) (list cnt))"])}]),
                      (0.2, lambda: ["do", ["evalstr", {"s": "(return 5)"}], TICK, ["list", "cnt"]])])()


def gen(r, tier):
    g = Gen(r, err=0.05, max_depth=2)
    prog = [["def", "cnt", 0], ["def", "gx", 1], ["def", "gy", {"s": "y"}], ["def", "gl", {"q": [1, 2]}], ["defn", "call1", ["z"], ["do", TICK, ["list", "z", ["argscount"]]]], ["define-macro-eval", "mev", ["e"], ["do", TICK, "e", ["list", "e"]]]]
    prog += [f if isinstance(f, list) else ["list", f] for f in (frag(r, g) for _ in range(r.randint(5, 12)))] + ([["def", "gl", {"q": [1, 2]}], nest(r, r.choice([0, 0, 1, 2]), bad(r)), ["def", "al", [r.choice(["first", "last"]), "gl"]], ["setf", "al", rint(r)], ["list", "al", "gl"]] if r.random() < 0.25 else []) + [["list", "cnt", "gx", "gy", "gl"], ["nosuchatall"]]
    return {"prog": prog, "cuts": [r.random() < 0.4 for _ in prog]}


def describe(case):
    return {"statements": [model.render(f) for f in case["prog"]], "a block ends after statement": [i for i, c in enumerate(case["cuts"]) if c]}


def check(env, case):
    prog = case["prog"]
    if not prog or not all(isinstance(f, list) and f for f in prog):
        raise model.OutOfDomain("no program")
    it, exp = run_model(prog)
    res = compare_session(env, prog, exp)
    inner = after = False
    for f, r in zip(prog, res):
        if r.status == "lisp":
            st = parse_stack(r.stack)
            if st:
                env.expect(st[0][0] == 1 and st[0][1] == "<main>", "%s\nthe call stack begins with %r" % (model.render(f), st[0]))
                if f == ["nosuchatall"]:
                    env.expect(len(st) == 1, "a call at the top has the call stack\n" + r.stack)
                inner = inner or len(st) > 1 or "while" in model.render(f)
        elif inner:
            after = True
    # the same statements in blocks
    cuts = (case["cuts"] + [True] * len(prog))[:len(prog)]
    blocks, want, cur, out = [], [], [], ""
    for f, r, c in zip(prog, res, cuts):
        cur.append(model.render(f))
        out += r.cout
        if c or not r.ok or "return" in cur[-1]:
            blocks.append(" \n".join(cur))
            want.append((r, out))
            cur, out = [], ""
    if cur:
        blocks.append("\n".join(cur))
        want.append((res[-1], out))
    if blocks != [model.render(f) for f in prog]:
        for b, (x, out), y in zip(blocks, want, env.worker.session(blocks)):
            env.expect(x.status == y.status and (not x.ok or x.dump == y.dump) and x.message == y.message, "%s\n as one text: %s\n statement by statement: %s" % (b, y.brief(), x.brief()))
            env.expect(y.cout == out, "%s\n as one text prints %r\n statement by statement %r" % (b, y.cout, out))
        env.label("grouped")
    labels_from(env, it, exp)
    env.nontrivial(inner and after)
