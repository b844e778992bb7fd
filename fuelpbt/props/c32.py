from ..gens import rint, rdbl, rstr, Gen
from ..common import *
from .. import model

TITLE = "Misuse of a built-in is reported as what it is and changes nothing"
STATEMENT = ("A call of a built-in function or special form with a wrong number of arguments, direct or by apply, map, reduce or a variable, is reported as \"Bad argument count in NAME, has N expected M\" with the number of arguments it has and needs, and one with an argument of a wrong type as an error which tells the function, operator or type at fault; it is never silently accepted. "
             "A call which is rejected changes no variable, list or dictionary and prints nothing (its arguments were evaluated), and what was done before it stays.")
OVER = ["inputs", "programs"]
QUANT = "all built-ins, all numbers of arguments up to seven, arguments of all types, in any context"
WHY = "Tests check the message of a few functions with one wrong count each; the product of functions, counts, types and ways of calling is generated."
MECH = [("argument counts", F_ENV + " CheckArgs CheckOptionalArgs FuelFuncWrapper"), ("type errors", F_VAR + " CreateInvalidCastException"), ("type checks", F_ENV + " CheckForFunction CheckForList CheckForDictionary")]
FILES = [F_ENV, F_VAR, F_EXC]
TECHNIQUE = "property-based testing against a reference model with exact messages: enumerated built-ins x counts x types plus generated misuse in contexts"
QUICK, THOROUGH = 18000, 100000
RULE = "enumerated: every modelled built-in with 0-7 arguments of 4 kinds; generated: sessions of 3-8 calls with random counts and types around shared state, ending with a probe of all variables; non-trivial = at least one call was rejected and the state was probed"

STATE = ["n", "d", "s", "l", "m", "k", "f", "y", "z"]
SETUP = [["do", ["def", "n", 5], ["def", "d", {"d": "1.5"}], ["def", "s", {"s": "text"}], ["def", "l", ["list", 1, {"s": "a"}, ["list", 2]]], ["def", "m", ["make-dict"]], ["dict-set", "m", 1, {"s": "one"}],
          ["def", "k", "nil-value"], ["def", "f", ["fn", ["x"], "x"]], ["def", "y", {"q": "sym"}], ["def", "z", True]]]
PROBE = ["list"] + STATE
SKIP = {"sleep", "import", "evalstr", "eval", "trace", "gettrace", "readline", "while", "defn", "gdefn", "define-macro", "define-macro-eval", "define-macro-expand", "File-Exists", "File-ReadAllText", "File-WriteAllText", "args", "argscount", "arg"}
NAMES = sorted(n for n in model.BUILTINS if n not in SKIP)
FORMS = ["while", "defn", "gdefn", "define-macro", "define-macro-eval"]
ARG = [1, {"s": "x"}, {"q": [1, 2]}, None, True, {"d": "2.5"}, {"q": "sy"}, "m", "l", "f", "n", "s", "d", "y", "z", "k", ["list", 1], ["fn", ["x"], "x"], "+"]


def fits(e):
    """inside of the model"""
    try:
        it = model.Interp(max_steps=3000)
        for f in SETUP + [e, PROBE]:
            (k, v), _ = it.outcome([f])
            if k == "ok":
                model.typed(v)
    except model.OutOfDomain:
        return False
    return True


def enumerate_cases(tier):
    out = []
    for n in NAMES + FORMS:
        for a in (1, "l", "m", "s"):
            calls_ = []
            for c in range(0, 8):
                e = [n] + [a] * c
                if not (n == "while" and c == 2) and fits(e):
                    calls_ += [e, PROBE]
            out.append({"prog": SETUP + calls_})
    return out


PLAIN = [n for n in NAMES if not model.BUILTINS[n][1]]


def arg(r, names):
    k = r.random()
    if k < 0.5:
        return r.choice(ARG)
    if k < 0.7:
        return r.choice(STATE)
    return r.choice([rint(r), rdbl(r), rstr(r, 5)])


def call(r, names=NAMES):
    n = r.choice(names)
    args = [arg(r, STATE) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7]))]
    if n in ("def", "gdef", "setf", "delvar") and args and r.random() < 0.7:
        args[0] = {"q": r.choice(STATE)} if n == "delvar" else r.choice(STATE)
    return [n] + args


def gen(r, tier):
    prog = list(SETUP)
    for _ in range(r.randint(3, 8)):
        for _ in range(4):
            k = r.random()
            c = call(r, NAMES if k < 0.35 or k >= 0.62 else PLAIN)
            if fits(c):
                break
        if k < 0.35:
            e = c
        elif k < 0.45:
            e = ["apply", c[0], ["list"] + c[1:]]
        elif k < 0.5:
            e = ["map", c[0], ["list"] + c[1:]]
        elif k < 0.55:
            e = ["reduce", c[0], ["list"] + c[1:], arg(r, STATE)]
        elif k < 0.62:
            e = ["do", ["def", "g", c[0]], ["g"] + c[1:]]
        elif k < 0.7:
            e = ["do", ["setf", "n", ["+", "n", 1]], ["push", "n", "l"], c, ["setf", "n", 0]]
        elif k < 0.78:
            e = ["do", ["defn", "h", ["p", "q"], ["list", "p", c]], ["h", arg(r, STATE), 2]]
        elif k < 0.85:
            e = ["list", ["println", {"s": "before"}], c, ["println", {"s": "after"}]]
        elif k < 0.92:
            e = ["setf", r.choice(STATE), c]
        else:
            e = [r.choice(NAMES), c, arg(r, STATE)]
        prog.append(e)
        if r.random() < 0.5:
            prog.append(PROBE)
    prog.append(PROBE)
    return {"prog": prog}


def check(env, case):
    it, exp = check_prog(env, case, exact_message=True)
    errs = [e[0][1] for e in exp if e[0][0] == "err"]
    env.label("%d rejected" % min(len(errs), 5))
    for e in errs:
        env.label("message: " + ("none" if e is None else " ".join(e.split(" ")[:4])[:30]))
    env.nontrivial(len(errs) >= 1 and PROBE in case["prog"])
