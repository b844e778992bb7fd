import math

from ..gens import rint, rdbl, rstr, INTS, DBLS
from ..common import *
from .. import model

TITLE = "The mathematical functions give the IEEE double results for every number"
STATEMENT = ("Math-Sin, -Cos, -Tan, -Asin, -Acos, -Atan, -Sinh, -Cosh, -Tanh, -Exp, -Log (natural), -Log10, -Sqrt, -Pow, -Abs, -Floor, -Ceiling, -Truncate (toward zero) and -Round (halves away from zero) give the double result of the function of that name for every number, integer or floating point (a boolean counts as 0 or 1, a string as the number it denotes as a whole), with infinity and not-a-number where the mathematical function has none; Math-Pi is pi. "
             "The result is always a floating point number, the argument is not changed, and anything else than a number, or a wrong number of arguments, is reported as an error.")
OVER = ["inputs", "programs"]
QUANT = "all functions, all int/double/boolean arguments including extreme ones, direct, nested, as values and in lists"
WHY = "Tests call every function with one or two arguments; sign, halves, large values, domain ends and integer arguments are only reached by generation."
MECH = [("functions", F_ENV + " Math_function Math_pi Math_pow and the registered names"), ("conversion", F_VAR + " ToDouble")]
FILES = [F_ENV, F_VAR]
TECHNIQUE = "property-based differential testing against the C library called from Python (edge-value enumeration plus generated expressions)"
QUICK, THOROUGH = 18000, 100000
RULE = "enumerated: every function on about 100 edge values, Math-Pow on pairs; generated: sessions of 3-8 nested expressions over variables; non-trivial = at least 3 function calls were evaluated"

FUN1 = ["Math-" + n for n in model.MATH]
EDGE = [{"d": t} for t in ("0.5", "-0.5", "1.5", "-1.5", "2.5", "-2.5", "0.49999999999999994", "-0.49999999999999994", "0.999999", "-0.999999", "1.0000001", "-1.0000001", "3.141592653589793", "1.5707963267948966", "6.283185307179586",
                           "1e-5", "-1e-5", "1e22", "1e300", "-1e300", "709.5", "710.5", "-745.5", "4503599627370495.5", "9007199254740993.0", "1e100", "-0.1", "2147483647.5", "-2147483648.5", "99.99", "0.9999999999999999", "12345.678")]


def number(r, names=()):
    k = r.random()
    if names and k < 0.25:
        return r.choice(names)
    if k < 0.4:
        return rint(r)
    if k < 0.6:
        return rdbl(r)
    if k < 0.75:
        return r.choice(EDGE)
    if k < 0.85:
        return {"d": "%d.5" % r.randint(-20, 20)}
    if k < 0.95:
        return {"d": "%.6f" % r.uniform(-2, 2)}
    if k < 0.975:
        return r.random() < 0.5
    if k < 0.985:
        return {"s": r.choice(["16", "2.5", "-0.5", "1e2", "0", "-7", "12abc", "", "abc", " 4", "4 "])}
    return r.choice([None, {"q": [1]}, {"q": "x"}, ["make-dict"], "undefined-x"])


def expr(r, names, d):
    k = r.random()
    if d <= 0 or k < 0.2:
        return number(r, names)
    if k < 0.7:
        return [r.choice(FUN1), expr(r, names, d - 1)]
    if k < 0.8:
        return ["Math-Pow", expr(r, names, d - 1), expr(r, names, d - 1)]
    if k < 0.83:
        return ["Math-Pi"]
    if k < 0.93:
        return [r.choice("+-*/"), expr(r, names, d - 1), expr(r, names, d - 1)]
    if k < 0.96:
        return ["int", [r.choice(["Math-Floor", "Math-Round", "Math-Truncate", "Math-Ceiling", "Math-Abs"]), {"d": "%.3f" % r.uniform(-100, 100)}]]
    return [r.choice(["<", ">=", "=="]), expr(r, names, d - 1), expr(r, names, d - 1)]


def enumerate_cases(tier):
    vals = EDGE + INTS + [{"d": d} for d in DBLS] + [True, False]
    ex = [[f, v] for f in FUN1 for v in vals]
    ex += [["Math-Pow", a, b] for a in vals[::4] for b in vals[1::5]]
    ex += [["Math-Pow", a, b] for a in (2, -2, 0, {"d": "0.5"}, {"d": "-0.5"}, 10) for b in range(-4, 5)]
    ex += [["Math-Pi"], ["typestr", ["Math-Pi"]]]
    for f in FUN1 + ["Math-Pow"]:
        for bad in (None, {"q": [1]}, {"q": "s"}, ["make-dict"]):
            ex.append([f, bad] if f != "Math-Pow" else [f, 1, bad])
        ex += [[f], [f, 1, 2, 3]]
    return batches(ex)


def gen(r, tier):
    names, prog = [], []
    for _ in range(r.randint(0, 3)):
        n = "v%d" % len(names)
        prog.append(["def", n, number(r, names)])
        names.append(n)
    for _ in range(r.randint(3, 8)):
        k = r.random()
        f = r.choice(FUN1)
        if k < 0.08:
            prog.append(["map", f, ["list"] + [number(r, names) for _ in range(r.randint(0, 5))]])
        elif k < 0.12:
            prog.append(["reduce", "Math-Pow", ["list"] + [number(r) for _ in range(r.randint(0, 3))], number(r)])
        elif k < 0.16:
            prog.append(["do", ["def", "f", f], ["list", ["f", number(r, names)], ["apply", "f", ["list", number(r, names)]]]])
        elif k < 0.2:
            prog.append(["do", ["defn", "g", ["x"], ["+", [f, "x"], [r.choice(FUN1), "x"]]], ["g", number(r, names)]])
        elif k < 0.24:
            prog.append(["typestr", expr(r, names, 2)])
        else:
            prog.append([f, expr(r, names, 2)] if k < 0.6 else ["list", expr(r, names, 3), expr(r, names, 2)])
    return {"prog": with_probe(prog, names)}


def close(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "d":
        x, y = a[1], b[1]
        if math.isnan(x) or math.isnan(y):
            return math.isnan(x) and math.isnan(y)
        return x == y or abs(x - y) <= 1e-13 * max(abs(x), abs(y))
    if a[0] == "l":
        return len(a[1]) == len(b[1]) and all(close(x, y) for x, y in zip(a[1], b[1]))
    return model.same(a, b)


def check(env, case):
    prog = case["prog"]
    if not prog or not all(isinstance(f, list) and f for f in prog):
        raise model.OutOfDomain("no program")
    it, exp = run_model(prog)
    texts = [model.render(f) for f in prog]
    for i, (e, r) in enumerate(zip(exp, env.worker.session(texts))):
        m = model.mismatch(e[0], e[1], r, False)
        if m and not (e[0][0] == "ok" and r.ok and close(e[0][1], r.value)):
            env.fail("after %s\n  %s\n  %s" % (" ".join(texts[:i]), texts[i], m))
    n = sum(c for k, c in it.stats.items() if k.startswith("Math-"))
    labels_from(env, it, exp)
    env.nontrivial(n >= 3)
