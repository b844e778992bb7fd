from ..gens import rint, rdbl, rstr, choose, Gen, DBLS
from ..common import *

TITLE = "List functions compute the right list and leave their arguments alone"
STATEMENT = ("list, cons, append, rest, cdr, reverse, map and a quotation yield a new list with exactly the elements their names say, in order; first, car, last and nth give the element at that position "
             "(nth counts from zero), len the number of elements, and search the index of the first element with the given text or -1. "
             "None of them changes a list it was given: every variable shows the same value before and after, whatever the functions were applied to. "
             "Access to a position outside of the list and use of a value that is no list are reported as an error; nil counts as the empty list.")
OVER = ["inputs", "programs"]
QUANT = "all lists of all lengths, nestings and element types, all positions inside and outside, compositions of the functions over shared lists"
WHY = "Tests use two or three short flat lists; sharing between lists, nested lists, empty lists and out-of-range positions need generation."
MECH = [("list functions", F_ENV + " CreateList Cons Append Rest Reverse First Last Nth Length"), ("list values", F_TYP)]
FILES = [F_ENV, F_VAR, F_TYP]
TECHNIQUE = "property-based differential testing against a reference model plus algebraic laws on lists"
QUICK, THOROUGH = 16000, 120000
RULE = ("sessions which define list variables, apply nested list functions to them and show every variable after every step, plus list laws on random lists; "
        "non-trivial = at least 4 list functions evaluated on non-empty lists")
OPS = ["rest", "cdr", "reverse", "first", "car", "last"]


def item(r, d):
    return choose(r, [(4, lambda: rint(r)), (1, lambda: rdbl(r)), (2, lambda: rstr(r, 4)), (1, lambda: r.random() < 0.5),
                      (0.7, lambda: r.choice(["sa", "sb", "+"])), (0.4, lambda: None),
                      (2.5 if d > 0 else 0, lambda: [item(r, d - 1) for _ in range(r.choice([0, 1, 2, 3]))])])()


def quoted(r):
    return {"q": [item(r, 2) for _ in range(r.choice([0, 1, 2, 3, 4, 5, 8]))]}


def lst(r, names, d):
    """an expression which is a list"""
    if d <= 0 or r.random() < 0.15:
        if names and r.random() < 0.7:
            return r.choice(names)
        return quoted(r)
    return choose(r, [
        (2, lambda: [r.choice(["rest", "cdr", "reverse"]), lst(r, names, d - 1)]),
        (1.5, lambda: ["cons", any_(r, names, d - 1), lst(r, names, d - 1)]),
        (0.2, lambda: ["cons", any_(r, names, d - 1)]),
        (0.2, lambda: ["cons", any_(r, names, d - 1), rint(r)]),
        (2, lambda: [r.choice(["append", "append", "+"])] + [lst(r, names, d - 1) for _ in range(r.choice([1, 2, 2, 3]))]),
        (1.5, lambda: ["list"] + [any_(r, names, d - 1) for _ in range(r.choice([0, 1, 2, 3, 4]))]),
        (0.7, lambda: ["map", ["lambda", ["e"], r.choice([["list", "e", "e"], ["list"], ["str", "e"], ["cons", 1, ["list", "e"]]])], lst(r, names, d - 1)]),
        (0.3, lambda: ["append"]),
        (0.3, lambda: None),
    ])()


def any_(r, names, d):
    k = r.random()
    if d <= 0 or k < 0.3:
        return choose(r, [(3, lambda: rint(r)), (1, lambda: rstr(r, 4)), (1, lambda: {"q": item(r, 1)}), (1, lambda: r.choice(names) if names else 1), (0.5, lambda: None), (0.25, lambda: r.choice([["if", False, 1], ["do"]]))])()
    if k < 0.5:
        return lst(r, names, d)
    if k < 0.7:
        return ["nth", r.choice([0, 1, 2, 3, -1, 5, ["-", ["len", lst(r, names, 0)], 1]]), lst(r, names, d - 1)]
    if k < 0.85:
        return [r.choice(["first", "car", "last"]), lst(r, names, d - 1)]
    if k < 0.93:
        return ["len", lst(r, names, d - 1)]
    if r.random() < 0.3:
        # elements of several types, some with the same text
        l = [r.choice([1, {"s": "1"}, True, {"s": "#t"}, {"s": "a"}, "a", {"d": "1.5"}, {"s": "1.500000"}, {"d": "1.0"}, {"s": "1.000000"}, [1], {"s": "(1)"}, [], {"s": ""}]) for _ in range(r.randint(1, 6))]
        x = r.choice(l)
        return ["search", {"q": x} if isinstance(x, (list, str)) else x, {"q": l}]
    return ["search", r.choice([1, 2, {"d": r.choice(DBLS[:8] + ["1.5"])}, {"s": r.choice(["1.500000", "0.5", "(1)", "()"])}, {"s": "a"}, {"s": "sa"}, {"q": [1]}, True]), lst(r, names, d - 1)]


def gen(r, tier):
    if r.random() < 0.25:
        return {"laws": [quoted(r) if r.random() < 0.5 else lst(r, [], 2) for _ in range(3)], "x": item(r, 1), "i": r.randint(0, 6)}
    names, prog = [], []
    for i in range(r.randint(1, 4)):
        prog.append(["def", "l%d" % i, lst(r, names, r.choice([0, 1, 2]))])
        names.append("l%d" % i)
    for _ in range(r.randint(3, 8)):
        e = any_(r, names, r.choice([1, 2, 3])) if r.random() < 0.5 else lst(r, names, r.choice([1, 2, 3]))
        if not isinstance(e, list):
            e = ["list", e]
        if r.random() < 0.25:
            n = "l%d" % len(names)
            prog.append(["def", n, e])
            names.append(n)
        else:
            prog.append(e)
        prog.append(["list"] + names)
    return {"prog": prog}


def enumerate_cases(tier):
    ex = []
    L = [None, {"q": []}, ["list"], {"q": [1]}, {"q": [1, 2, 3]}, {"q": [[1, 2], [], "a"]}, {"s": ""}, {"s": "abc"}, ["list", None], 5, {"d": "1.5"}, True, {"q": "a"}, ["make-dict"], ["nop"]]
    for l in L:
        for op in OPS + ["len", "append", "cons", "list"]:
            ex.append([op, l])
        for i in range(-2, 5):
            ex.append(["nth", i, l])
        ex.append(["nth", {"d": "1.0"}, l])
        ex.append(["nth", l, {"q": [1, 2]}])
        for m in L:
            ex += [["append", l, m], ["cons", l, m], ["search", l, m]]
    for op in OPS + ["len", "nth"]:
        ex += [[op], [op, {"q": [1]}, {"q": [2]}, 3]]
    return batches(ex)


def check(env, case):
    if "prog" in case:
        it, exp = check_prog(env, case)
        labels_from(env, it, exp)
        env.nontrivial(calls(it, "rest", "cdr", "reverse", "first", "car", "last", "nth", "len", "append", "cons", "list", "map", "search") >= 4)
        return
    a, b, c = case["laws"]
    x = {"q": case["x"]}
    laws = [
        ["==", ["reverse", ["reverse", "a"]], "a"],
        ["==", ["append", ["append", "a", "b"], "c"], ["append", "a", ["append", "b", "c"]]],
        ["==", ["append", "a", "b", "c"], ["append", "a", ["append", "b", "c"]]],
        ["==", ["append", "a", ["list"]], "a"],
        ["==", ["append", ["list"], "a"], "a"],
        ["==", ["len", ["append", "a", "b"]], ["+", ["len", "a"], ["len", "b"]]],
        ["==", ["reverse", ["append", "a", "b"]], ["append", ["reverse", "b"], ["reverse", "a"]]],
        ["==", ["rest", ["cons", x, "a"]], "a"],
        ["==", ["len", ["cons", x, "a"]], ["+", 1, ["len", "a"]]],
        ["or", ["==", ["len", "a"], 0], ["==", ["cons", ["first", "a"], ["rest", "a"]], "a"]],
        ["or", ["==", ["len", "a"], 0], ["==", ["list", ["first", "a"]], ["list", ["last", ["reverse", "a"]]]]],
        ["or", ["<=", ["len", "a"], case["i"]], ["==", ["list", ["nth", case["i"], "a"]], ["list", ["nth", ["-", ["len", "a"], ["+", case["i"], 1]], ["reverse", "a"]]]]],
        ["==", ["map", ["lambda", ["e"], "e"], "a"], "a"],
        ["or", ["==", ["len", "a"], 0], ["==", ["list", ["nth", ["-", ["len", "a"], 1], "a"]], ["list", ["last", "a"]]]],
    ]
    it, exp = run_model([["def", "a", a], ["def", "b", b], ["def", "c", c]] + laws)
    texts = [model.render(f) for f in [["def", "a", a], ["def", "b", b], ["def", "c", c]] + laws + [["list", "a", "b", "c"]]]
    res = env.worker.session(texts)
    if any(e[0][0] != "ok" for e in exp[:3]) or any(isinstance(e[0][1], tuple) and e[0][1][0] not in ("l", "n") for e in exp[:3]):
        raise model.OutOfDomain("no lists")
    for i, (t, e, q) in enumerate(zip(texts[3:], exp[3:], res[3:])):
        if not q.ok or q.value != ("b", True):
            # laws over values without an order or equality (nan, nil access) do not count
            if e[0] != ("ok", ("b", True)):
                continue
            env.fail("%s\n does not hold: %s" % ("\n".join(texts[:3] + [t]), q.brief()))
        else:
            env.label("law %d" % i)
    want = ("l", tuple(e[0][1] for e in exp[:3]))
    if not model.same(want, res[-1].value):
        env.fail("the lists were changed: %s instead of %s" % (model.show(res[-1].value), model.show(want)))
    env.nontrivial(any(e[0][1][0] == "l" and len(e[0][1][1]) >= 2 for e in exp[:3]))
