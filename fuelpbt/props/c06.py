from ..gens import INTS, DBLS, rint, rdbl, Gen
from ..common import *

TITLE = "Arithmetic follows 32-bit integer and IEEE double rules"
STATEMENT = ("The operators + - * / % (and their names add sub mul div mod), applied to any number of integers and floating point numbers, fold from left to right: "
             "two integers give the mathematical result wrapped to 32 bits (division truncates toward zero, the remainder takes the sign of the dividend), "
             "and as soon as one operand is a floating point number the IEEE double result. A single argument is returned unchanged, except that - negates it; "
             "integer division or remainder by zero and missing or non-numeric operands are reported as errors (of - * / % a boolean counts as 0 or 1 and a string as the number it denotes as a whole beside a number), and no operand is ever changed.")
OVER = ["inputs", "programs"]
QUANT = "all operators, all numbers of operands, all int/double operand values including the extreme ones, literals as well as variables and nested expressions"
WHY = "The tests try a handful of small operand values per operator; overflow, sign combinations, mixed types, many operands and error operands are a space only generation covers."
MECH = [("operators of the value type", F_VAR + " operator+ - * / %"), ("folding over the arguments", F_ENV + " ArithmetricOperation, Subtraction")]
FILES = [F_VAR, F_ENV]
TECHNIQUE = "property-based differential testing against a reference model (edge-pair enumeration plus generated expressions)"

QUICK, THOROUGH = 18000, 150000
RULE = ("enumerated: every operator on every pair of edge integers and on edge double/int pairs; generated: sessions of 4-14 arithmetic expressions with 1-6 operands, "
        "nested and over variables, some ill-typed; non-trivial = at least 3 operator calls were evaluated and one fragment has a value")

OPS = ["+", "-", "*", "/", "%"]
ALL = OPS + ["add", "sub", "mul", "div", "mod"]


def enumerate_cases(tier):
    ex = []
    for op in OPS:
        for a in INTS:
            for b in INTS:
                ex.append([op, a, b])
        for a in DBLS:
            for b in DBLS[::2]:
                ex.append([op, {"d": a}, {"d": b}])
        for a in DBLS[::2]:
            for b in INTS[::2]:
                ex.append([op, {"d": a}, b])
                ex.append([op, b, {"d": a}])
        for a in INTS + [{"d": x} for x in DBLS]:
            ex.append([op, a])
        for bad in (True, None, {"q": [1]}, {"q": "sy"}, {"s": "x"}, {"s": "12"}, {"s": "010"}, {"s": " 7"}, {"s": "3x"}, {"s": "2.5"}, {"s": "1e2"}, {"s": ""}, {"s": "-9 "}, {"s": "2147483648"}):
            ex.append([op, bad])
            for x in (1, {"d": "2.5"}, True, None, {"q": [2]}):
                ex.append([op, x, bad])
                ex.append([op, bad, x])
        ex.append([op])
    for a, b in zip(ALL[5:], OPS):
        for x in INTS[::3]:
            ex.append([a, x, 7])
            ex.append([a, x, {"d": "2.5"}, -3])
    return batches(ex)


def operand(r, names):
    k = r.random()
    if names and k < 0.25:
        return r.choice(names)
    if k < 0.6:
        return rint(r)
    if k < 0.9:
        return rdbl(r)
    if k < 0.97:
        return r.choice(INTS)
    return r.choice([True, None, {"q": [1, 2]}, {"q": "sy"}, False, {"s": r.choice(["1", "12", "-3", "017", "2.5", "x", "4x", " 5", "1e3", ""])}])


def expr(r, names, d):
    if d <= 0 or r.random() < 0.25:
        return operand(r, names)
    return [r.choice(ALL)] + [expr(r, names, d - 1) for _ in range(r.choice([1, 2, 2, 2, 3, 4, 6, 6, 8, 11] if r.random() < 0.3 else [1, 2, 2, 2, 3, 4, 6]))]


def gen(r, tier):
    names, prog = [], []
    for _ in range(r.randint(0, 4)):
        n = "v%d" % len(names)
        prog.append(["def", n, rint(r) if r.random() < 0.6 else rdbl(r)])
        names.append(n)
    for _ in range(r.randint(4, 10)):
        e = [r.choice(ALL)] + [expr(r, names, r.choice([0, 0, 1, 2])) for _ in range(r.choice([0, 1, 2, 2, 2, 3, 3, 4, 6]))]
        if r.random() < 0.2:
            n = "v%d" % len(names)
            e = ["def", n, e]
            names.append(n)
        prog.append(e)
    if names:
        prog.append(["list"] + names)
    return {"prog": prog}


def check(env, case):
    it, exp = check_prog(env, case)
    labels_from(env, it, exp)
    env.nontrivial(sum(it.stats.get(o, 0) for o in ALL) >= 3 and any(e[0][0] == "ok" for e in exp))
