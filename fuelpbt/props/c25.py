from ..gens import rint, rstr, choose, Gen
from ..common import *
from .. import model

TITLE = "Interpreter instances are isolated and runs are reproducible"
STATEMENT = ("Several interpreters in one process, used alternately in any order, behave as each would alone: variables, functions, macros, traces, documentation, dictionaries and errors of one are never visible in another, whatever the others define, change or fail in. "
             "A program run again in a fresh interpreter of the same process, after any other programs, gives the same values, messages and output, text for text. "
             "Definitions which replace built-in functions affect their own interpreter only.")
OVER = ["programs", "interleavings"]
QUANT = "all sets of programs run in up to four interpreters of one process and all interleavings of their statements"
WHY = "Every test starts from a fresh process or scope and runs one program; leaks between instances need two programs and an order."
MECH = [("default scope", F_ENV + " CreateDefaultScope"), ("macros", F_INT + " ExpandMacros, " + F_ENV), ("shared constants", F_VAR), ("library path", F_FUE)]
FILES = [F_ENV, F_INT, F_VAR, F_SCO, F_LSP]
TECHNIQUE = "metamorphic testing: generated programs interleaved over several interpreter instances compared with each program alone"
QUICK, THOROUGH = 5600, 50000
RULE = "2-4 programs of 3-10 fragments over the same names in one process, random interleaving; non-trivial = at least 2 programs have 3 fragments and a definition"
NAMES = ["x", "y", "f", "g", "m", "d", "l"]


def frag(r, g):
    return choose(r, [(4, lambda: g.stmt()), (1, lambda: ["def", r.choice(NAMES), g.expr("any", 2)]), (1, lambda: ["defn", r.choice(["f", "g", "map", "first", "+", "not", "println", "list"]), ["a", "b"], ["do", ["list", "a", "b", r.randint(0, 9)]]]),
                      (1, lambda: [r.choice(["define-macro-eval", "define-macro-expand"]), r.choice(["m", "g", "swap", "rest"]), ["a", "b"], r.choice([["list", "b", "a"], {"q": ["list", "b", "a", 1]}, ["do", ["println", {"s": "m"}], "a"]])]),
                      (1, lambda: [r.choice(["f", "g", "m", "swap", "map", "first", "+", "rest", "not"]), g.expr("int", 1), g.expr("int", 1)]),
                      (0.5, lambda: ["trace", r.random() < 0.7]), (0.5, lambda: ["list", ["gettrace"]]), (1, lambda: ["list"] + r.sample(NAMES, 2)), (0.5, lambda: ["def", "d", ["make-dict"]]), (0.5, lambda: ["dict-set", "d", g.expr("int", 0), g.expr("any", 1)]), (0.4, lambda: ["dict-keys", "d"]),
                      (0.3, lambda: ["def", "l", {"q": [1, 2, 3]}]), (0.4, lambda: ["push", g.expr("int", 0), "l"]), (0.4, lambda: ["setf", ["first", "l"], g.expr("int", 0)]),
                      (0.3, lambda: ["doc", {"q": r.choice(["f", "g", "map", "first", "+", "dict-get"])}]), (0.2, lambda: [r.choice(["vars", "fuel", "platform", "macros", "copyright", "version"])]), (0.3, lambda: ["evalstr", {"s": model.render(["defn", r.choice(["f", "g"]), ["a"], ["list", "a", r.randint(0, 9)]])}]),
                      (0.3, lambda: ["eval", {"q": ["setf", r.choice(["x", "y"]), r.randint(0, 9)]}]), (0.2, lambda: ["sym", {"s": "newsym"}]), (0.3, lambda: ["str", ["list", True, None, {"d": "1.5"}, {"q": "a"}]]),
                      (0.4, lambda: ["nosuch", 1]), (0.3, lambda: ["def", "x"]), (0.2, lambda: ["return", 3]), (0.3, lambda: ["setf", r.choice(["true", "false", "x", "y"]), r.randint(0, 5)]),
                      (0.2, lambda: ["defn", "f", ["n"], ["if", ["<", "n", 1], ["nosuch"], ["f", ["-", "n", 1]]]]), (0.15, lambda: ["import", {"s": "nosuchfile"}]), (0.15, lambda: ["Math-Abs", -3])])()


def gen(r, tier):
    progs = []
    for _ in range(r.choice([2, 2, 2, 3, 4])):
        g = Gen(r, err=0.04, max_depth=2)
        progs.append([frag(r, g) for _ in range(r.randint(3, 10))])
    if r.random() < 0.3:
        progs[1] = progs[0]
    order = [i for i, p in enumerate(progs) for _ in p]
    k = r.random()
    if k < 0.6:
        r.shuffle(order)
    elif k < 0.8:
        order.sort()
    return {"progs": progs, "order": order}


def describe(case):
    return {"programs": [[model.render(f) for f in p] for p in case["progs"]], "order of the interpreters": case["order"]}


def same(env, what, a, b, i):
    for n in ("status", "message", "line", "start", "stop", "module", "stack", "dump", "text", "out", "cout"):
        x, y = getattr(a, n), getattr(b, n)
        if x != y:
            env.fail("%s\n fragment %d: alone the %s is %r, now %r" % (what, i, n, x, y))


def check(env, case):
    progs = [[model.render(f) for f in p if isinstance(f, list) and f] for p in case["progs"]]
    if len(progs) < 1 or not all(isinstance(i, int) for i in case["order"]):
        raise model.OutOfDomain("programs")
    for p in case["progs"]:
        it = model.Interp(max_steps=4000)
        for f in p:
            if isinstance(f, list) and f and f[0] not in ("doc", "vars", "fuel", "platform", "macros", "copyright", "version", "import", "Math-Abs"):
                (k, v), _ = it.outcome([f])
                if k == "ok":
                    model.typed(v)
    w = env.worker
    alone = [w.session(p, inp="\n") for p in progs]
    pos = [0] * len(progs)
    steps, want = [], []
    for i in case["order"]:
        if 0 <= i < len(progs) and pos[i] < len(progs[i]):
            steps.append((i, progs[i][pos[i]]))
            want.append((i, pos[i], alone[i][pos[i]]))
            pos[i] += 1
    res = w.multi(len(progs), steps)
    for (i, k, a), b in zip(want, res):
        same(env, "interpreter %d of %d" % (i, len(progs)), a, b, k)
    # once more in a fresh interpreter
    for p, a in zip(progs, alone):
        for k, (x, y) in enumerate(zip(a, w.session(p, inp="\n"))):
            same(env, "a second run of\n  %s" % "\n  ".join(p), x, y, k)
    env.label("%d interpreters" % len(progs), "interleaved" if case["order"] != sorted(case["order"]) else "one after the other")
    env.label("some fragment fails" if any(not x.ok for a in alone for x in a) else "no fragment fails")
    env.nontrivial(sum(1 for p in progs if len(p) >= 3 and any("(def" in t for t in p)) >= 2)
