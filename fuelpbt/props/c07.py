from ..gens import INTS, DBLS, STRS, rint, rdbl, rstr, Gen
from ..common import *

TITLE = "Comparison and equality are consistent over all value types"
STATEMENT = ("< <= > >= order numbers by value (integers and floating point numbers mixed freely) and strings byte-wise, and == = equal and their negation != decide equality: "
             "numbers by value (floating point numbers within 1e-8), strings and symbols by text, booleans by value, lists element by element and in length, nil only with nil, "
             "the undefined value only with itself, dictionaries by identity. Equality is symmetric and != is always its negation; exactly one of a<b, a==b, a>b holds for integers and for strings. "
             "Before < <= > >= a boolean counts as 0 or 1 and a string as the number it denotes beside a number; operands which cannot be compared are reported as an error.")
OVER = ["inputs"]
QUANT = "all pairs of values of all types, as literals, variables, list elements and results"
WHY = "Tests compare a few literal pairs; equality of nested lists, mixed types, extreme numbers and long strings is quadratic in the value space."
MECH = [("equality", F_VAR + " EqualOp"), ("ordering", F_VAR + " operator< operator<="), ("element-wise list equality", "CppLisp/CppLispInterpreter/cstypes.h SequenceEqual")]
FILES = [F_VAR, F_ENV]
TECHNIQUE = "property-based differential testing against a reference model plus metamorphic relations (symmetry, negation, trichotomy)"

QUICK, THOROUGH = 18000, 150000
RULE = ("enumerated: all pairs of a pool of ~45 values under every operator; generated: pairs of generated values, often small mutations of each other; "
        "non-trivial = the case contains an equality or order test with a value")

EQ = ["==", "=", "equal", "!="]
ORD = ["<", "<=", ">", ">="]
POOL = [0, 1, -1, 2, 2147483647, -2147483648, {"d": "0.0"}, {"d": "1.0"}, {"d": "1.000000001"}, {"d": "1.001"}, {"d": "-0.0"},
        {"d": "0.999999"}, {"d": "2147483647.0"}, True, False, None, {"s": ""}, {"s": "a"}, {"s": "A"}, {"s": "ab"}, {"s": "b"},
        {"s": "aa"}, {"s": "\u00e9"}, {"s": "NIL"}, {"s": "(1 2)"}, {"s": "#t"}, {"q": "a"}, {"q": "b"}, {"q": "A"}, {"q": "ab"}, {"q": []}, ["list"], {"q": [1]},
        {"q": [1, 2]}, ["list", 1, 2], {"q": [2, 1]}, {"q": [1, 2, 3]}, {"q": [[1], 2]}, ["list", ["list", 1], 2], {"q": [1, "a"]},
        {"q": [1, {"s": "a"}]}, {"q": [{"d": "1.0"}, 2]}, {"q": [None]}, ["list", None], {"q": [True]}, ["nop"], ["list", ["nop"]],
        ["make-dict"], {"s": "1"}, {"s": "10"}, {"s": "9"}, {"s": "-1"}, {"s": "1.5"}, {"s": "a\x00b"}, {"s": "a\x00c"}]


def enumerate_cases(tier):
    ex = []
    for op in EQ[:1] + EQ[3:] + ORD:
        for a in POOL:
            for b in POOL:
                ex.append([op, a, b])
    for op in EQ[1:3]:
        for a in POOL[::2]:
            for b in POOL[::3]:
                ex.append([op, a, b])
    for op in EQ + ORD:
        ex += [[op], [op, 1], [op, 1, 1, 1], [op, 1, 2, 3]]
    return batches(ex)


def value(r, d=2):
    k = r.random()
    if k < 0.3:
        return rint(r)
    if k < 0.45:
        return rdbl(r)
    if k < 0.6:
        return rstr(r, 6 if r.random() < 0.9 else 40)
    if k < 0.66:
        return r.random() < 0.5
    if k < 0.7:
        return None
    if k < 0.75:
        return {"q": r.choice(["a", "b", "ab", "A", "Ab", "aB", "a-b", "long-symbol-name", "a1", "x?"])}
    if k < 0.78:
        return ["nop"]
    if d > 0:
        return ["list"] + [value(r, d - 1) for _ in range(r.choice([0, 1, 2, 3, 4] * 3 + [6, 10]))]
    return rint(r)


def tweak(r, v):
    """a value close to v"""
    k = r.random()
    if k < 0.35:
        return v
    if isinstance(v, bool) or v is None:
        return not v
    if isinstance(v, int):
        return r.choice([v + 1 if v < 2147483647 else v - 1, {"d": "%d.0" % v}, -v if v > -2147483648 else 0, v, {"d": "%d.5" % v}, {"s": str(v)}])
    if isinstance(v, dict):
        if "s" in v:
            s = v["s"]
            return {"s": r.choice([s + "a", s[:-1], s.upper() if s.isascii() else s[1:], s[::-1], "a" + s, s])}
        if "d" in v:
            return r.choice([int(float(v["d"])) if abs(float(v["d"])) < 2e9 else v, {"d": repr(float(v["d"]) + r.choice([1e-10, 1e-3, -1e-9, 1.0, 5e-9, -9e-9, 1.2e-8, 1.7e-8, -1.5e-8, 3e-8, 1e-7]))}, v])
        if isinstance(v.get("q"), str):
            q = v["q"]
            return r.choice([{"q": q.upper()}, {"q": q.capitalize()}, {"q": q + "a"}, {"q": q[:-1] or "b"}, {"s": q}, {"q": q[0] + q}, {"q": q}])
        return v
    if isinstance(v, list) and v and v[0] == "list":
        w = list(v)
        k = r.random()
        if k < 0.3 and len(w) > 1:
            w.pop()
        elif k < 0.5:
            w.append(value(r, 0))
        elif k < 0.6 and len(w) > 2:
            w[1], w[-1] = w[-1], w[1]
        elif len(w) > 1:
            i = r.randrange(1, len(w))
            w[i] = tweak(r, w[i])
        return w
    return v


def gen(r, tier):
    pairs = []
    for _ in range(r.randint(2, 6)):
        a = value(r)
        pairs.append([a, tweak(r, a) if r.random() < 0.75 else value(r)])
    return {"pairs": pairs, "vars": r.random() < 0.4}


def check(env, case):
    if "prog" in case:
        it, exp = check_prog(env, case)
        labels_from(env, it, exp)
        env.nontrivial(any(e[0][0] == "ok" for e in exp))
        return
    prog = []
    for i, (a, b) in enumerate(case["pairs"]):
        if case["vars"]:
            prog += [["def", "a%d" % i, a], ["def", "b%d" % i, b]]
            a, b = "a%d" % i, "b%d" % i
        for x, y in ((a, b), (b, a)):
            for op in ["==", "!="] + ORD + ["=", "equal"]:
                if in_domain([op, x, y]) if not case["vars"] else True:
                    prog.append([op, x, y])
    if not prog:
        raise model.OutOfDomain("nothing to compare")
    it, exp = run_model(prog)
    res = compare_session(env, prog, exp)
    # relations on the answers themselves, independent of the model's answers
    got = {}
    for f, x in zip(prog, res):
        if x.ok and f[0] != "def":
            got[(f[0], model.render(f[1]), model.render(f[2]))] = x.value == ("b", True)
    for (op, x, y), v in got.items():
        if op == "==":
            if (op, y, x) in got and got[(op, y, x)] != v:
                env.fail("(== %s %s) and (== %s %s) differ" % (x, y, y, x))
            if ("!=", x, y) in got and got[("!=", x, y)] == v:
                env.fail("(== %s %s) and (!= ..) agree" % (x, y))
        if op == "<" and (">", y, x) in got and got[(">", y, x)] != v:
            env.fail("(< %s %s) and (> %s %s) differ" % (x, y, y, x))
    env.label("with variables" if case["vars"] else "literals")
    env.nontrivial(len(got) >= 8)
