from ..gens import rint, rdbl, rstr, choose, Gen
from ..common import *

TITLE = "eval and evalstr evaluate like the program text itself; quote evaluates nothing"
STATEMENT = ("(eval (quote e)) and evalstr of the text of e have the same value, the same output and the same effects on variables as e itself at that place, also inside of functions, and report an error where e does. "
             "(quote e) evaluates no part of e and yields e as data, which still evaluates to the same after it was taken apart with first and rest and put together again with cons or append.")
OVER = ["programs"]
QUANT = "all expressions over the built-in functions and special forms at global level and inside of functions, and code lists put together again with list functions"
WHY = "Tests evaluate two or three literal expressions; the equivalence must hold for every expression and evaluation context."
MECH = [("eval, evalstr, quote", F_ENV + " eval_form evalstr_form quote_form"), ("parser and evaluator", F_PAR + ", " + F_INT)]
FILES = [F_ENV, F_INT, F_PAR, F_LSP]
TECHNIQUE = "metamorphic testing (direct / eval / evalstr / built list) together with a reference interpreter"
QUICK, THOROUGH = 6000, 50000
RULE = "a generated session prefix and expressions, each run directly, through eval, evalstr, a list put together at run time, and inside of a function; non-trivial = the expression contains at least two calls"

REGRESS = [{"prefix": [], "exprs": [["list", None, {"q": []}, {"q": [{"s": "a\"b"}]}]]}]


def size(e):
    if isinstance(e, list):
        return 1 + sum(size(x) for x in e)
    if isinstance(e, dict):
        return sum(size(x) for x in e.values() if isinstance(x, (list, dict)))
    return 0


def gen(r, tier):
    g = Gen(r, {"eval": 0.0, "defn": 0.5}, err=0.05, max_depth=3)
    prefix = g.program(r.randint(1, 4))
    exprs = [g.stmt() if r.random() < 0.5 else g.as_call("any", 3) for _ in range(r.randint(1, 3))]
    return {"prefix": prefix, "exprs": exprs,
            "fn": {"shadow": [r.randrange(9) for _ in range(r.choice([0, 1, 1, 2]))], "vals": [g.expr("any", 1) for _ in range(2)], "atom": r.random() < 0.3,
                   "how": r.randrange(4)}}


def built(e, i):
    """code which takes e apart and puts it together again"""
    q = {"q": e}
    return [["cons", ["first", q], ["rest", q]], ["append", ["list", ["first", q]], ["cdr", q]], ["reverse", ["reverse", q]]][i % 3]


def infun(env, case, prefix, exprs, names, tail):
    """inside of a function whose parameters hide variables: eval and evalstr of an expression or name are the code itself there"""
    fn = case.get("fn") or {"shadow": [], "vals": [1, 2], "atom": False, "how": 0}
    ps = sorted({names[i % len(names)] for i in fn["shadow"]}) if names else []
    ps = ps or ["__a"]
    vals = (list(fn["vals"]) + [1, 2])[:len(ps)]
    e = exprs[0]
    if fn["atom"]:
        e = ps[0]
    for x in (e, ["eval", {"q": e}], ["evalstr", {"s": model.render(e)}], ["eval", ["first", ["list", {"q": e}]]]):
        show = ["list", x, ["list"] + ps]
        body = [show, ["apply", ["lambda", ["__z"], show], {"q": [5]}], ["do", ["def", "__q", 3], ["if", True, show]], ["map", ["lambda", [ps[0]], show], {"q": [7, 8]}]][fn["how"]]
        prog = prefix + [["defn", "__g", ps, body], ["__g"] + vals] + tail
        try:
            it, exp = run_model(prog)
        except model.OutOfDomain:
            env.label("inside of a function: outside of the model")
            return
        compare_session(env, prog, exp)
    env.label("inside of a function" + (", a name" if fn["atom"] else ""))


def check(env, case):
    prefix, exprs = case["prefix"], case["exprs"]
    if not exprs or not all(isinstance(e, list) and e for e in exprs + prefix):
        raise model.OutOfDomain("empty")
    names = sorted({f[1] for f in prefix + exprs if isinstance(f, list) and len(f) == 3 and f[0] in ("def", "gdef") and isinstance(f[1], str)})
    tail = [["list"] + names]
    base = prefix + exprs + tail
    it, exp = run_model(base)
    t = model.render
    k = len(prefix)
    want = None
    for mode in ("direct", "eval", "evalstr", "text", "built", "infun"):
        if mode == "direct":
            texts = [t(e) for e in exprs]
        elif mode == "eval":
            texts = ["(eval '%s)" % t(e) for e in exprs]
        elif mode == "evalstr":
            texts = ["(evalstr %s)" % model.esc(t(e)) for e in exprs]
        elif mode == "text":
            texts = ["(evalstr %s)" % model.esc("; comment\n  " + t(e) + "  ; end\n") for e in exprs]
        elif mode == "built":
            texts = ["(eval %s)" % t(built(e, i)) for i, e in enumerate(exprs)]
        else:
            infun(env, case, prefix, exprs, names, tail)
            continue
        res = env.worker.session([t(f) for f in prefix] + texts + [t(f) for f in tail])
        for i in range(k, len(res)):
            m = model.mismatch(exp[i][0], exp[i][1], res[i], False)
            if m:
                env.fail("%s: %s\n  %s" % (mode, (texts + [t(tail[0])])[i - k], m))
    # quoting evaluates nothing
    q = ["list"] + [{"q": e} for e in exprs]
    it2, exp2 = run_model([q])
    r = env.worker.eval(t(q))
    m = model.mismatch(exp2[0][0], "", r)
    if m:
        env.fail("%s\n %s" % (t(q), m))
    labels_from(env, it, exp)
    env.nontrivial(any(size(e) >= 2 for e in exprs))
