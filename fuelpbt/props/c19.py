from ..gens import rint, rdbl, rstr, choose
from ..common import *

TITLE = "Macros substitute their argument expressions, at run time or at compile time"
STATEMENT = ("A call of a macro defined with define-macro-eval evaluates the macro's body with every parameter replaced by the unevaluated argument expression, in the caller's scope and each time it is reached. "
             "A call of a macro defined with define-macro-expand is replaced, before evaluation, by the value of the so substituted body, repeatedly until no such call is left, also inside of other expressions and function definitions; "
             "macro-expand mode shows that expanded program without evaluating it. quoted-macro-args denotes the argument expressions as a list, and a call with too few arguments is reported as an error.")
OVER = ["programs"]
QUANT = "all macro definitions with 0-7 parameters over quoted, quasiquoted and plain bodies, nested and repeated calls with arbitrary argument expressions"
WHY = "Tests contain a handful of macros; argument expressions with side effects, nested calls, macros using macros and calls inside of functions are a space of programs."
MECH = [("macro expansion", F_INT + " ExpandMacros ReplaceFormalArgumentsInExpression"), ("macro definition", F_ENV + " definemacroevaluate_form definemacroexpand_form")]
FILES = [F_INT, F_ENV, F_LSP]
TECHNIQUE = "property-based differential testing against a reference interpreter (values, effects and the expanded program)"
QUICK, THOROUGH = 14000, 120000
RULE = "programs which define 1-4 macros and call them with generated argument expressions; the same program is also run in macro-expand mode; non-trivial = at least two macro calls were made"


def arg(r, d=2):
    return choose(r, [(3, lambda: rint(r)), (2, lambda: r.choice(["v", "w", "k"])), (2 if d else 0, lambda: [r.choice(["+", "-", "list", "*"]), arg(r, d - 1), arg(r, d - 1)]),
                      (1.5, lambda: ["pr", r.randint(1, 50)]), (1, lambda: rstr(r, 4)), (0.5, lambda: {"q": ["a", 1]}), (0.4, lambda: r.random() < 0.5), (0.7, lambda: ["setf", "v", ["+", "w", r.randint(1, 5)]]),
                      (0.3, lambda: None)])()


BODIES = {      # templates for run-time macros, P0.. are parameters
    1: [["list", "P0", "P0"], ["+", "P0", 1], ["do", ["println", "P0"], ["list", "P0"]], ["setf", "v", "P0"], ["list", {"q": "P0"}], ["if", ["==", "P0", 3], ["list", 1], ["list", "P0"]], ["eval", {"q": "P0"}],
        ["list", ["quoted-macro-args"]], ["lambda", ["z"], ["list", "z", "P0"]], {"qq": ["a", {"u": "P0"}, "P0"]}, ["first", ["list", "P0"]]],
    2: [["list", "P1", "P0"], ["setf", "P0", "P1"], ["if", "P0", "P1", ["list"]], ["do", "P0", "P1"], ["do", ["def", "tmp", "P0"], ["list", "tmp", "P1", "tmp"]], ["while", ["<", "k", 3], ["do", ["setf", "k", ["+", "k", 1]], ["println", "P0", "P1"]]],
        ["list", ["quoted-macro-args"], "P0"], {"qq": [{"u": "P0"}, {"us": ["list", "P1"]}, "P1"]}, ["and", ["<", 1, 2], ["==", "P0", "P1"]]],
    3: [["if", "P0", "P1", "P2"], ["list", "P2", "P1", "P0"], ["do", ["println", "P1"], ["list", "P0", "P2"]], ["map", ["lambda", ["P0"], ["list", "P0", "P1"]], ["list", "P2"]]],
    0: [["list", 1, 2], ["println", {"s": "m0"}], ["setf", "v", ["+", "w", 1]]],
}
EXPAND = {      # bodies for compile-time macros
    1: [{"q": ["list", "P0", "P0"]}, {"q": ["+", "P0", 1]}, {"qq": ["list", "P0", {"u": ["+", 1, 2]}]}, {"q": ["do", ["println", "P0"], ["list", "P0"]]}, {"q": ["quote", "P0"]}, {"q": ["setf", "v", "P0"]}, ["list", {"q": "list"}, {"q": "P0"}, 5], ["+", 1, 2]],
    2: [{"q": ["list", "P1", "P0"]}, {"q": ["if", "P0", "P1", ["list"]]}, {"qq": ["list", {"us": {"q": ["P0", "P1"]}}]}, {"q": ["setf", "v", ["+", "P0", "P1"]]}, ["cons", {"q": "list"}, {"q": ["P1", "P0"]}], ["list", {"q": "-"}, {"q": "P0"}, {"q": "P1"}]],
    3: [{"q": ["if", "P0", "P1", "P2"]}, {"q": ["list", "P2", "P1", "P0"]}],
    0: [{"q": ["list", 1, 2]}, {"q": ["println", {"s": "m0"}]}, ["*", 6, 7], ["rest", ["list", 1]], {"q": []}, ["if", False, 1, None], ["list"]],
}
BODIES[5] = [["list", "P4", "P0", "P3"], ["do", ["println", "P1", "P4"], ["list", "P2", "P2", "P0"]], ["if", "P0", ["list", "P1", "P2"], ["list", "P3", "P4"]], ["list", ["quoted-macro-args"], "P4"]]
BODIES[7] = [["list", "P6", "P5", "P0"], ["list", "P0", ["+", 1, 2], ["list", "P1", ["list", "P2", "P3", ["list", "P4", "P5", "P6"]]]]]
EXPAND[1] += [["rest", ["list", {"q": "P0"}]], ["if", ["==", {"q": "P0"}, 3], {"q": "P0"}, None]]
EXPAND[5] = [{"q": ["list", "P4", "P3", "P2", "P1", "P0"]}, {"q": ["do", ["println", "P1"], ["list", "P0", "P4"]]}]
EXPAND[7] = [{"q": ["list", "P6", "P0"]}, {"q": ["list", "P0", ["list", "P1", ["list", "P2", "P3", ["list", "P4", "P5", "P6"]]]]}]


def subst(b, ps):
    if isinstance(b, str):
        return ps[int(b[1])] if b[0] == "P" and b[1:].isdigit() else b
    if isinstance(b, list):
        return [subst(x, ps) for x in b]
    if isinstance(b, dict) and "s" not in b and "d" not in b:
        return {k: subst(v, ps) for k, v in b.items()}
    return b


def gen(r, tier):
    prog = [["defn", "pr", ["n"], ["do", ["println", {"s": "pr"}, "n"], ["+", "n", 0]]], ["def", "v", 1], ["def", "w", 2], ["def", "k", 0]]
    ms = {}
    for i in range(r.choice([1, 2, 3, 4, 1, 2, 3, 4, 7])):
        n = r.choice([0, 1, 1, 1, 2, 2, 2, 3, 3, 5, 7])
        ps = r.choice([["a", "b", "c", "d", "e", "g", "h"], ["x", "y", "n", "x1", "x2", "x3", "x4"], ["v1", "w1", "q1", "vv", "ww", "qq", "zz"]])[:n]
        ct = r.random() < 0.5
        m = "m%d" % i if not ms or r.random() < 0.85 - 0.07 * i else r.choice(sorted(ms))
        b = subst(r.choice((EXPAND if ct else BODIES)[n]), ps)
        if ms and r.random() < 0.3:
            # a macro which uses another one
            o = r.choice(sorted(ms))
            inner = [o] + [ps[j % n] if n else r.randint(1, 3) for j in range(ms[o])]
            b = {"q": ["list", inner] + ps} if ct else ["list", inner] + ps
        if ms and r.random() < 0.1 and not ct:
            # used before it is defined again
            prog.append([r.choice(sorted(ms))] + [1, 2, 3, 4, 5, 6, 7][:ms[sorted(ms)[0]]])
        prog.append(["define-macro-expand" if ct else r.choice(["define-macro-eval", "define-macro-eval", "define-macro"]), m, ps, b])
        ms[m] = n

    def mcall(d=1):
        m = r.choice(sorted(ms))
        n = ms[m]
        k = r.random()
        if k < 0.05 and n:
            n -= 1 if r.random() < 0.7 else r.randint(1, n)
        elif k < 0.1:
            n += 1
        return [m] + [mcall(d - 1) if d > 0 and r.random() < 0.2 else arg(r) for _ in range(n)]
    for _ in range(r.randint(2, 6)):
        k = r.random()
        if r.random() < 0.06:
            # variables, parameters and functions with the name of a macro
            m = r.choice(sorted(ms))
            f = "s%d" % len(prog)
            prog += r.choice([[["def", m, 5]], [["defn", m, ["a0"], ["list", {"s": "function"}, "a0"]]], [["defn", f, [m], ["do", mcall(0), ["list", m]]], [f, 4]],
                              [["defn", f, ["k2"], ["do", ["def", m, ["lambda", ["z"], ["list", {"s": "local"}, "z"]]], mcall(0)]], [f, 4]]])
        if k < 0.5:
            prog.append(mcall())
        elif k < 0.65:
            prog.append(["list", mcall(), mcall(0)])
        elif k < 0.8:
            f = "f%d" % len(prog)
            prog.append(["defn", f, ["k2"], ["do", mcall(), ["list", mcall(0), "k2"]]])
            prog += [[f, 1], [f, 2]]
        elif k < 0.9:
            prog.append(["do", ["println", {"s": "x"}], mcall(), mcall(0)])
        else:
            prog.append(["if", r.random() < 0.5, mcall(), mcall()])
    prog.append(["list", "v", "w", "k"])
    return {"prog": prog, "whole": r.random() < 0.3}


def check(env, case):
    prog = case["prog"]
    for f in prog:
        if not isinstance(f, list) or not f or isinstance(f[0], str) and f[0].startswith("define-macro") and not (len(f) == 4 and isinstance(f[2], list) and isinstance(f[3], (list, dict)) and f[3]):
            raise model.OutOfDomain("odd macro definition")
    if case.get("whole"):
        it = model.Interp()
        (k, v), out = it.outcome(prog)
        exp = ((k, model.typed(v) if k == "ok" else v), out)
        text = model.render_prog(prog)
        r = env.worker.eval(text)
        m = model.mismatch(exp[0], out, r, False)
        if m:
            env.fail("%s\n%s" % (text, m))
        exp = [exp]
    else:
        it, exp = run_model(prog)
        compare_session(env, prog, exp)
    labels_from(env, it, exp)
    # the expanded program
    it2 = model.Interp()
    try:
        forms = [model.to_runtime(f) for f in prog]
        ast = it2.expand(model.Raw(model.LList([model.Sym("do")] + forms)), it2.glob)
        want = ("ok", model.typed(ast))
    except model.LispErr as e:
        want = ("err", None)
    r = env.worker.session([model.render_prog(prog)], flags="m")[0]
    if r.ok and want[0] == "ok":
        m = None
        if not model.same(plain(want[1]), plain(r.value)) or r.out != "".join(it2.out):
            m = "expected the program %s, got %s with the output %r" % (model.show(want[1]), model.show(r.value), r.out)
    else:
        m = model.mismatch(want, "".join(it2.out), r, False)
    if m:
        env.fail("macro-expand mode of %s\n%s" % (model.render_prog(prog), m))
    n = sum(1 for f in prog if isinstance(f, list) and f and isinstance(f[0], str) and f[0][0] == "m" and f[0][1:].isdigit())
    env.label("compile time macro" if any(f[0] == "define-macro-expand" for f in prog if f) else "run time macros only")
    env.nontrivial(n >= 1 and any(e[0][0] == "ok" for e in exp))


def plain(v):
    """nil and the empty list are the same thing in a program"""
    if v[0] == "l":
        return ("l", tuple(plain(x) for x in v[1])) if v[1] else ("n",)
    return v
