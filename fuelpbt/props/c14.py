from ..gens import rint, rdbl, rstr, choose
from ..common import *

TITLE = "A dictionary is a mutable map from typed keys to values"
STATEMENT = ("A dictionary made by make-dict behaves like a finite map: dict-get gives the value last stored with dict-set under an equal key (the undefined value if there is none), dict-remove removes a key and tells whether it was there, "
             "dict-clear removes all, dict-contains-key and dict-contains-value tell what is stored, dict-keys lists every key once and len counts them; "
             "keys are distinguished by type and value, where an integer and a floating point number of the same value are the same key; values keep their type. "
             "Every variable holding a dictionary sees the same contents, different dictionaries are independent, and a dictionary function applied to anything else reports an error.")
OVER = ["histories"]
QUANT = "all histories of dictionary operations over several aliased dictionaries with keys and values of every type"
WHY = "Tests store two or three string or integer keys; key identity across types, overwriting, removal and aliasing depend on histories."
MECH = [("dictionary functions", F_ENV + " DictSet DictGet DictRemove DictKeys DictClear"), ("key order and hash", F_VAR + " LispVariant operator<, " + F_OBJ), ("dictionary type", "CppLisp/CppLispInterpreter/cstypes.h Dictionary")]
FILES = [F_ENV, F_VAR, "CppLisp/CppLispInterpreter/cstypes.h"]
TECHNIQUE = "stateful model-based testing: operation histories against a reference map"
QUICK, THOROUGH = 14000, 120000
RULE = "histories of 8-30 dictionary operations over up to 4 dictionary variables; non-trivial = at least 3 successful dict-set and 3 lookups with at least one overwritten or removed key"

REGRESS = [{"prog": [["def", "d", ["make-dict"]], ["dict-set", "d", 1, {"s": "a"}], ["dict-set", "d", {"s": "1"}, None], ["dict-set", "d", True, {"q": [1]}], ["list", "d", ["dict-get", "d", 1], ["dict-get", "d", {"s": "1"}]]]}]
DKEYS = [0, 1, -1, 2, {"d": "1.0"}, {"d": "0.0"}, {"d": "1.5"}, {"s": "1"}, {"s": "a"}, {"s": ""}, {"s": "#t"}, {"s": "NIL"}, {"s": "a b"}, True, False, None, {"q": "a"}, {"q": "b"}, {"q": [1]}, {"q": [1, 2]}, ["list", 1], {"s": "(1)"}, ["list", {"s": "a"}], {"s": "a\x00"}, {"s": "a\x00b"}, {"s": "\x00"}]


def enumerate_cases(tier):
    out = []
    for a in DKEYS:
        prog = [["def", "d", ["make-dict"]], ["dict-set", "d", a, 100]]
        for b in DKEYS:
            prog += [["dict-contains-key", "d", b], ["dict-get", "d", b]]
        out.append({"prog": prog})
        prog = [["def", "d", ["make-dict"]]]
        for i, b in enumerate(DKEYS):
            prog.append(["dict-set", "d", b, i])
        prog += [["len", "d"], ["dict-remove", "d", a], ["len", "d"], ["dict-remove", "d", a], ["dict-keys", "d"]] + [["dict-get", "d", b] for b in DKEYS]
        out.append({"prog": prog})
    bad = [1, {"s": "d"}, None, {"q": [1]}, True, ["nop"], {"q": "a"}]
    out.append({"prog": [f for x in bad for f in (["dict-set", x, 1, 2], ["dict-get", x, 1], ["dict-remove", x, 1], ["dict-keys", x], ["dict-clear", x], ["dict-contains-key", x, 1], ["dict-contains-value", x, 1])]})
    out.append({"prog": [[op] + [1] * n for op in ("make-dict", "dict-set", "dict-get", "dict-remove", "dict-keys", "dict-clear", "dict-contains-key", "dict-contains-value") for n in (0, 1, 2, 3, 4)]})
    return out


def key(r):
    return choose(r, [(5, lambda: r.choice(DKEYS)), (2, lambda: r.randint(-3, 9)), (2, lambda: {"s": r.choice("abcd")}), (0.5, lambda: rstr(r, 4)), (0.5, lambda: rint(r))])()


def val(r, names):
    return choose(r, [(3, lambda: rint(r)), (2, lambda: rstr(r, 4)), (1, lambda: rdbl(r)), (1, lambda: r.random() < 0.5), (0.7, lambda: None), (1, lambda: {"q": [rint(r), {"s": "x"}]}), (0.6, lambda: {"q": "sy"}), (0.3, lambda: ["list"]), (0.3, lambda: ["nop"])])()


def gen(r, tier):
    prog, names = [], []
    few = [key(r) for _ in range(r.randint(2, 6))]
    k_ = lambda: r.choice(few) if r.random() < 0.85 else key(r)
    for i in range(r.randint(1, 3)):
        prog.append(["def", "d%d" % i, ["make-dict"]])
        names.append("d%d" % i)
    prog.append(["defn", "put", ["d", "k", "v"], ["dict-set", "d", "k", "v"]])
    d = lambda: r.choice(names)
    for _ in range(r.randint(8, 26)):
        k = r.random()
        if k < 0.35:
            op = [r.choice(["dict-set", "dict-set", "put"]), d(), k_(), val(r, names)]
        elif k < 0.55:
            op = ["dict-get", d(), k_()]
        elif k < 0.65:
            op = ["dict-remove", d(), k_()]
        elif k < 0.73:
            op = ["dict-contains-key", d(), k_()]
        elif k < 0.8:
            op = ["dict-contains-value", d(), val(r, names)]
        elif k < 0.86:
            op = ["list", ["len", d()], ["dict-keys", d()]]
        elif k < 0.89:
            op = ["dict-clear", d()]
        elif k < 0.93 and len(names) < 4:
            n = "d%d" % len(names)
            op = ["def", n, d()]
            names.append(n)
        elif k < 0.96:
            op = ["push", rint(r), ["dict-get", d(), k_()]]
        else:
            op = ["==", d(), d()]
        prog.append(op)
    prog.append(["list"] + names)
    prog.append(["list"] + [["str", n] for n in names])
    return {"prog": prog}


def check(env, case):
    it, exp = check_prog(env, case)
    labels_from(env, it, exp)
    env.nontrivial(calls(it, "dict-set") >= 3 and calls(it, "dict-get", "dict-contains-key", "dict-contains-value", "dict-keys") >= 3 and (calls(it, "dict-remove", "dict-clear") or calls(it, "dict-set") >= 5))
