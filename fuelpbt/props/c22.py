from ..gens import rint, rdbl, rstr, rtext, choose
from ..common import *
from .. import model

TITLE = "Output, traces and line input come in program order"
STATEMENT = ("print and println write the texts of their arguments separated by a blank, println with a line end, in evaluation order and exactly once each, also out of functions, loops, macros and before an error, and return the text without the line end; flush changes nothing. "
             "While (trace #t) is in force every printed text is also appended to the trace buffer, which gettrace returns and (trace #f) keeps; readline returns the next line of the input without its end and the empty string when there is no more. "
             "With execution tracing a line with --> and the name is written for every function called, before its arguments are evaluated, and apart from these lines results and output are the same as without.")
OVER = ["programs", "inputs"]
QUANT = "all programs which print, read and switch tracing in nested calls, and all input texts"
WHY = "Tests look at a single line of output; the order of interleaved effects over nested calls is a property of the whole program."
MECH = [("output", F_ENV + " Print PrintLn GetStringRepresentation"), ("writer and reader", F_TYP + " TextWriter TextReader"), ("execution trace", F_INT + " EvalAst")]
FILES = [F_ENV, F_TYP, F_INT, F_LSP]
TECHNIQUE = "property-based differential testing against a reference interpreter plus a metamorphic check of the execution trace"
QUICK, THOROUGH = 28000, 120000
RULE = "programs of 3-10 fragments with nested printing, reading, trace switches and failing parts, with and without execution trace; non-trivial = at least three texts were printed"
NAMES = ["a", "b"]


def val(r, d=2):
    return choose(r, [(3, lambda: rint(r)), (2, lambda: rstr(r, 6)), (1, lambda: rdbl(r)), (0.5, lambda: r.random() < 0.5), (0.4, lambda: None), (1, lambda: r.choice(NAMES)), (0.5, lambda: {"q": [1, {"s": "x"}, ["y"]]}), (0.4, lambda: {"s": ""}),
                      (0.5, lambda: ["readline"]), (0.5, lambda: ["gettrace"]), (2 if d > 0 else 0, lambda: pr(r, d - 1)), (1 if d > 0 else 0, lambda: ["list", val(r, d - 1), val(r, d - 1)]),
                      (0.7 if d > 0 else 0, lambda: ["pf", val(r, d - 1)]), (0.3 if d > 0 else 0, lambda: ["pm", pr(r, d - 1)]), (0.4 if d > 0 else 0, lambda: ["px", pr(r, d - 1)]),
                      (0.4 if d > 0 else 0, lambda: ["map", ["lambda", ["q"], pr(r, 0, "q")], ["list", val(r, d - 1), val(r, 0)]]),
                      (0.3 if d > 0 else 0, lambda: ["evalstr", {"s": model.render(pr(r, 0))}]), (0.3 if d > 0 else 0, lambda: ["if", r.random() < 0.5, pr(r, d - 1), pr(r, d - 1)]),
                      (0.2 if d > 0 else 0, lambda: ["or", ["<", 2, 1], ["==", val(r, d - 1), val(r, d - 1)]]), (0.15, lambda: ["/", 1, 0])])()


def pr(r, d=2, extra=None):
    a = [val(r, d) for _ in range(r.choice([0, 1, 1, 1, 2, 3]))]
    if extra:
        a.append(extra)
    return [r.choice(["print", "println"])] + a


def frag(r):
    return choose(r, [(4, lambda: pr(r, 3)), (1, lambda: ["trace", r.random() < 0.65]), (0.6, lambda: ["flush"]), (0.5, lambda: ["list", ["gettrace"]]), (0.7, lambda: ["def", r.choice(NAMES), val(r)]),
                      (0.5, lambda: ["def", r.choice(NAMES), ["readline"]]), (1, lambda: ["do", pr(r), ["trace", r.random() < 0.6], pr(r), pr(r)]), (0.15, lambda: ["trace", val(r, 0)]),
                      (0.7, lambda: ["do", ["def", "i", 0], ["while", ["<", "i", r.randint(1, 3)], ["do", pr(r, 1, "i"), ["setf", "i", ["+", "i", 1]]]], pr(r, 0)]), (0.5, lambda: ["list", ["readline"], ["readline"]]),
                      (0.3, lambda: ["reduce", ["lambda", ["x", "y"], ["do", pr(r, 0, "x"), ["+", "x", "y"]]], {"q": [1, 2, 3]}, 0]), (0.3, lambda: ["apply", r.choice(["print", "println", "pf"]), ["list", val(r, 1)]])])()


def gen(r, tier):
    prog = [["defn", "pf", ["x"], r.choice([["do", ["println", {"s": "pf"}, "x"], ["list", "x"]], ["print", "x", "x"], ["do", ["print", "x"], ["println"], ["return", 3], ["println", {"s": "never"}]]])],
            ["define-macro-eval", "pm", ["e"], ["do", ["println", {"s": "pm"}], "e", ["print", {"s": "end"}]] if r.random() < 0.5 else ["list", "e", "e"]],
            ["define-macro-expand", "px", ["e"], {"q": ["do", ["println", {"s": "px"}], "e"]}], ["def", "a", 1], ["def", "b", {"s": "bb"}]]
    prog += [frag(r) for _ in range(r.randint(3, 9))]
    lines = [rtext(r, 8).replace("\n", " ") for _ in range(r.randint(0, 6) if r.random() < 0.85 else r.randint(7, 40))]
    if len(lines) > 6:
        prog.append(["do", ["def", "i", 0], ["while", ["<", "i", len(lines) - r.randint(0, 4)], ["do", ["println", "i", ["readline"]], ["setf", "i", ["+", "i", 1]]]], ["list", ["readline"], ["readline"]]])
    inp = "\n".join(lines) + (r.choice(["\n", ""]) if lines else "")
    return {"prog": prog, "input": inp, "tracing": [r.random() < 0.5 for _ in range(r.randint(2, 5))] if r.random() < 0.15 else r.random() < 0.4}


def describe(case):
    return {"program": [model.render(f) for f in case["prog"]], "input": case["input"], "execution trace": case["tracing"]}


def bits(case):
    """the fragments with execution trace, repeated"""
    t = case["tracing"]
    return t if isinstance(t, list) and t else [bool(t)]


def expected(case, tracing):
    inp = case["input"]
    lines = inp.split("\n") if inp else []
    it = model.Interp(inputs=lines)
    exp = []
    for i, f in enumerate(case["prog"]):
        it.tracing = tracing[i % len(tracing)]
        (k, v), out = it.outcome([f])
        exp.append(((k, model.typed(v) if k == "ok" else v), out))
    return it, exp


def check(env, case):
    prog = case["prog"]
    if not prog or not all(isinstance(f, list) and f for f in prog):
        raise model.OutOfDomain("no program")
    if not case["input"]:
        prog = [f for f in prog]
    texts = [model.render(f) for f in prog]
    if not case["input"] and any("readline" in t for t in texts):
        raise model.OutOfDomain("reads the standard input")
    tr = bits(case)
    it, exp = expected(case, tr)
    res = env.worker.session(texts, inp=case["input"], flags="".join("01"[bool(b)] for b in tr))
    n = 0
    for i, (e, r) in enumerate(zip(exp, res)):
        m = model.mismatch(e[0], e[1], r, False)
        if m:
            env.fail("after %s\n  %s\n  %s" % (" ".join(texts[:i])[-1500:], texts[i], m))
        env.expect(r.cout == e[1], "%s\n the standard output got %r instead of %r" % (texts[i], r.cout, e[1]))
        env.expect(r.out == r.cout, "%s\n the writer got %r, the standard output %r" % (texts[i], r.out, r.cout))
        n += e[1].count("\n")
    if any(tr):
        # the same program without the trace
        plain = env.worker.session(texts, inp=case["input"])
        for t, a, b in zip(texts, res, plain):
            env.expect((a.status, a.message) == (b.status, b.message), "%s\n with trace %s\n without %s" % (t, a.brief(), b.brief()))
            env.expect(not a.ok or a.dump == b.dump, "%s\n with trace %s\n without %s" % (t, a.brief(), b.brief()))
    labels_from(env, it, exp)
    env.label("execution trace now and then" if any(tr) and not all(tr) else "execution trace" if any(tr) else "no execution trace")
    env.nontrivial(calls(it, "print", "println") >= 3)
