from ..gens import rint, rdbl, rstr, choose
from ..common import *

TITLE = "quasiquote builds exactly its template with the unquoted values filled in"
STATEMENT = ("A quasiquoted template yields the template as data in which every unquoted expression, at any depth, is replaced by its value and every spliced one by the elements of its list value; all other parts are not evaluated. "
             "Unquoted expressions are evaluated once, from left to right, with the variables visible at that place, and the template gives a fresh list every time it is evaluated.")
OVER = ["programs"]
QUANT = "all templates with nesting, unquote and splice at every position, of all sizes, with values of all types"
WHY = "Tests contain a few templates; position, length and depth of unquote and splice are a combinatorial space."
MECH = [("quasiquote", F_ENV + " quasiquote_form ProcessQuotedSExpression"), ("reader of ` , ,@", F_TOK + ", " + F_PAR)]
FILES = [F_ENV, F_PAR, F_TOK]
TECHNIQUE = "property-based differential testing against a reference model plus the list/append expansion of the template as second oracle"
QUICK, THOROUGH = 18000, 150000
RULE = "enumerated: all flat templates up to length 4 over four element kinds; generated: nested templates; non-trivial = at least one unquote or splice and length at least 2"
REGRESS = [{"tpl": [{"u": "x"}, 2]}, {"tpl": ["a", {"us": "l"}]}]
DEFS = [["def", "x", 7], ["def", "s", {"s": "st"}], ["def", "l", {"q": [1, 2, 3]}], ["def", "e", {"q": []}], ["def", "m", {"q": [[1], {"s": "q"}, "sy"]}]]


def enumerate_cases(tier):
    out = []
    kinds = ["a", 5, {"u": "x"}, {"us": "l"}, {"us": "e"}, [{"u": "x"}], ["b", {"us": "l"}], {"u": "l"}, {"u": ["+", "x", 1]}]
    import itertools
    for n in range(0, 3 if tier == "quick" else 4):
        for t in itertools.product(kinds, repeat=n):
            out.append({"tpl": list(t)})
    return out


def elem(r, d):
    return choose(r, [
        (2, lambda: r.choice(["a", "b", "x", "l", "list", "+"])), (2, lambda: rint(r)), (1, lambda: rstr(r, 4)), (0.5, lambda: r.random() < 0.5), (0.3, lambda: rdbl(r)),
        (0.2, lambda: None),
        (4, lambda: {"u": uexpr(r)}), (3, lambda: {"us": lexpr(r)}),
        (3 if d > 0 else 0, lambda: [elem(r, d - 1) for _ in range(r.choice([0, 1, 2, 3, 4]))]),
        (0.4 if d > 0 else 0, lambda: {"q": elem(r, d - 1)})])()


def uexpr(r):
    return choose(r, [(3, lambda: r.choice(["x", "s", "l", "e", "m"])), (1.5, lambda: ["+", "x", rint(r)]), (1, lambda: ["list", "x", "s"]), (1, lambda: ["first", "l"]), (0.5, lambda: rint(r)), (0.3, lambda: r.choice([{"d": "1.5"}, {"s": "st"}, True, None, {"q": "sy"}, {"q": []}])), (0.7, lambda: ["do", ["println", r.choice(["x", "s"])], ["+", "x", 0]]),
                      (0.5, lambda: ["quote", "x"]), (0.5, lambda: ["if", r.random() < 0.5, "x", "l"])])()


def lexpr(r):
    return choose(r, [(4, lambda: r.choice(["l", "e", "m"])), (1, lambda: ["rest", "l"]), (1, lambda: ["list", "x", "l"]), (1, lambda: ["append", "l", "m"]), (0.6, lambda: ["map", ["lambda", ["q"], ["*", "q", 2]], "l"]), (0.5, lambda: {"q": [rint(r) for _ in range(r.randint(0, 3))]}), (0.1, lambda: "x"), (0.15, lambda: r.choice([{"d": "1.5"}, {"s": "st"}, 5, True, None, {"q": "sy"}, {"q": 7}, "s"]))])()


def gen(r, tier):
    return {"tpl": [elem(r, r.choice([1, 2, 3])) for _ in range(r.choice([1, 2, 2, 3, 3, 4, 5, 7, 1, 2, 3, 3, 0]))], "fun": r.random() < 0.3, "twice": r.random() < 0.3,
            "top": [choose(r, [(4, lambda: {"u": uexpr(r)}), (1, lambda: elem(r, 1))])() for _ in range(r.randint(1, 3))] if r.random() < 0.25 else None}


def expand(t):
    """the same value written with list and append"""
    parts = []
    for e in t:
        if isinstance(e, dict) and "us" in e:
            parts.append(e["us"])
        elif isinstance(e, dict) and "u" in e:
            parts.append(["list", e["u"]])
        elif isinstance(e, list):
            parts.append(["list", expand(e) if e else {"q": []}])
        elif isinstance(e, dict) and "q" in e:
            return None
        else:
            parts.append(["list", {"q": e}])
    r = [expand(e) for e in t if isinstance(e, list) and e]
    if any(x is None for x in r):
        return None
    return ["append"] + parts


def count(t):
    n = 0
    for e in t if isinstance(t, list) else t.values():
        if isinstance(e, dict):
            n += 1 if "u" in e or "us" in e else count(e)
        elif isinstance(e, list):
            n += count(e)
    return n


def check(env, case):
    tpl = case["tpl"]
    q = {"qq": tpl}
    forms = [["list", q]]
    if case.get("fun"):
        forms = [["defn", "f", ["x", "loc"], ["list", q, "loc"]], ["f", 70, 1], ["f", {"s": "arg"}, 2]]
    if case.get("twice"):
        forms = [["defn", "g", [], ["list", q]], ["def", "r1", ["g"]], ["push", 99, ["first", "r1"]], ["g"], ["list", "r1"]]
    if case.get("top"):
        # templates which are nothing but one unquoted expression or a plain item, as arguments of calls
        forms = forms + [["list"] + [{"qq": t} for t in case["top"]], ["len", ["list", {"qq": {"u": "l"}}, q]], ["def", "z", {"qq": case["top"][0]}], ["list", "z", "z"],
                         ["defn", "two", ["a", "b"], ["list", ["args"], "a", "b"]], ["two"] + [{"qq": t} for t in case["top"]]]
    prog = DEFS + forms + [["list", "x", "s", "l", "e", "m"]]
    it, exp = run_model(prog)
    compare_session(env, prog, exp)
    second = expand(tpl)
    if second is not None and len(tpl) != 2 and not case.get("fun") and not case.get("twice") and exp[len(DEFS)][0][0] == "ok":
        res = env.worker.session([model.render(f) for f in DEFS] + [model.render(["list", second])])
        r = res[-1]
        want = exp[len(DEFS)][0][1]
        if r.ok and not model.same(r.value, want) and not has_pair(tpl):
            env.fail("%s gives %s, but %s gives %s" % (model.render(q), model.show(want), model.render(second), model.show(r.value)))
        env.label("compared with append")
    labels_from(env, it, exp)
    env.nontrivial(count(tpl) >= 1 and len(tpl) >= 2)


def has_pair(t):
    # nil literals have two representations
    return any(e is None or isinstance(e, list) and (e == [] or has_pair(e)) for e in t)
