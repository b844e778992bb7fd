from ..gens import rint, rdbl, rstr, rtext, choose, Gen, INTS, DBLS, STRS
from ..common import *
from .. import model as M

TITLE = "No script text can crash, corrupt or block the interpreter"
STATEMENT = ("Whatever text is given to the interpreter (any bytes, valid or malformed programs, any built-in called with any number of arguments of any type), evaluation ends with a value or with a reported error; "
             "it never crashes the process, accesses memory illegally, executes undefined behaviour, lets a foreign exception escape or hangs. "
             "Afterwards the interpreter evaluates further scripts correctly (exhausting the stack, endless script loops, and lists containing themselves excepted).")
OVER = ["inputs", "programs"]
QUANT = "all script texts: generated programs with arbitrary argument types and counts for every built-in, mutated program texts and token and byte soup, through every entry point (evaluation, safe evaluation, command line -e)"
WHY = "Unit tests feed well-formed scripts; robustness is a statement about every byte sequence and every misuse."
MECH = [("argument checks", F_ENV + " CheckArgs"), ("casts", F_VAR + ", " + F_OBJ), ("reader", F_TOK + ", " + F_PAR), ("safe evaluation", F_LSP + " SaveEval")]
FILES = [F_ENV, F_VAR, F_OBJ, F_TOK, F_PAR, F_INT, F_LSP, F_STR, F_TYP, F_TKN]
TECHNIQUE = "grammar-based and mutational fuzzing plus coverage-guided fuzzing (libFuzzer, structure-aware mutators) under address and undefined-behaviour sanitizers"
QUICK, THOROUGH = 32000, 400000
RULE = "four generators: every built-in with arbitrary arguments, nested misuse programs, mutated program texts, token soup; non-trivial = the text has at least 3 tokens and at least one call was evaluated or an error reported"

SKIP = {"while", "sleep", "File-WriteAllText", "define-macro", "define-macro-eval", "define-macro-expand", "htmldoc", "help", "doc", "searchdoc", "vars", "funcs"}
NAMES = sorted((set(M.BUILTINS) | set(M.UNMODELLED) | {"Math-Sin", "Math-Pow", "Math-Sqrt", "Math-Round", "Math-Abs", "File-Exists", "File-ReadAllText", "Math-Floor", "Math-Log"}) - SKIP)
NAMES = [n for n in NAMES if not n.endswith("-")]
MUT = {"push", "dict-set", "setf"}
FUNS = ["+", "list", "len", "first", "cons", "str", "not", "nth", "append", "println", "rest", "reverse", "format", "slice", "search", "type"]


# the names of internal data
META = ["###macros###", "###modules###", "###args###", "###tracebuffer###", "###traceon###", "###", "###x"]


def atom(r):
    if r.random() < 0.01:
        m = r.choice(META)
        return r.choice([m, {"q": m}, {"s": m}])
    return choose(r, [(3, lambda: rint(r)), (1, lambda: rdbl(r)), (2, lambda: rstr(r)), (1, lambda: r.random() < 0.5), (1, lambda: None), (1, lambda: {"q": r.choice(["a", "f", "+", "nth"])}),
                      (2, lambda: r.choice(["v0", "v1", "l0", "l1", "d0", "fn0", "undef1", "s0", "+", "list"])),
                      (1, lambda: {"q": [rint(r), {"s": "x"}, ["a", []]][:r.randint(0, 3)]}), (0.5, lambda: []), (0.5, lambda: r.choice(["nop", "if", "quote", "_unquote", "_unquotesplicing"]))])()


def simple(r):
    return choose(r, [(3, lambda: rint(r)), (1, lambda: rdbl(r)), (2, lambda: rstr(r, 4)), (1, lambda: None), (1, lambda: r.random() < 0.5), (1, lambda: {"q": "a"})])()


def call(r, d):
    n = r.choice(NAMES)
    k = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5])
    if n in MUT:
        # no list may get into itself
        a = [simple(r) if r.random() < 0.8 else r.choice(["l0", "d0", "l1", "v0", "s0"]) for _ in range(k)]
        if n == "push" and k >= 1:
            a[0] = simple(r)
        if n == "dict-set":
            a = [x if i == 0 or not isinstance(x, str) else simple(r) for i, x in enumerate(a)]
            if a and r.random() < 0.7:
                a[0] = "d0"
        if n == "setf":
            a = ([choose(r, [(1, lambda: r.choice(["v0", "v1", "s0", "zz"])), (2, lambda: [r.choice(["first", "last"]), r.choice(["l0", "l1", "v0", "s0"])]), (2, lambda: ["nth", simple(r), r.choice(["l0", "l1", "d0", "s0"])]), (0.3, lambda: r.choice(META)), (1, lambda: simple(r))])()] + [simple(r) for _ in range(5)])[:k]
        return [n] + a
    if n in ("map", "reduce", "apply") and r.random() < 0.8:
        f = r.choice(FUNS + [["lambda", ["x"], ["list", "x"]], ["fn", ["x", "y"], call(r, 0)]])
        return [n, f] + [expr(r, d - 1) for _ in range(max(0, k - 1))]
    if n in ("lambda", "fn") and r.random() < 0.8:
        return [n, r.sample(["x", "y", "v0"] + (META[:4] if r.random() < 0.1 else []), r.randint(0, 3)), expr(r, d - 1)]
    if n in ("defn", "gdefn"):
        return [n, r.choice(["fn9", "v1", 5, {"s": "nm"}, None, r.choice(META)]), r.choice([["x"], [], 3, None, {"q": ["x"]}, ["x", 1], [r.choice(META)]]), expr(r, d - 1)][:k + 1]
    if n in ("def", "gdef"):
        return [n, r.choice(["v0", "v1", "s0", {"s": "v0"}, {"q": "v1"}, 1, ["list"], "l0", r.choice(META)]), simple(r) if r.random() < 0.5 else expr(r, d - 1)][:k + 1]
    if n == "format" and k > 0:
        return [n, {"s": r.choice(["{0}", "{0,5}{1,-7}{2}", "{4}", "{", "{0,}", "{9}", "{0:x}", "{-1}", "{0,-}"])}] + [expr(r, d - 1) for _ in range(k - 1)]
    if n == "evalstr" and r.random() < 0.7:
        return [n, {"s": soup(r) if r.random() < 0.5 else M.render(call(r, 0))}]
    return [n] + [expr(r, d - 1) for _ in range(k)]


def expr(r, d):
    if d <= 0 or r.random() < 0.35:
        return atom(r)
    return call(r, d)


PRE = [["def", "v0", 5], ["def", "v1", {"s": "str"}], ["def", "s0", {"s": "hello"}], ["def", "l0", {"q": [1, [2, 3], {"s": "x"}, "sy"]}], ["def", "l1", ["list", 1.0 if False else {"d": "1.5"}, True]], ["def", "d0", ["make-dict"]], ["def", "fn0", ["lambda", ["x"], "x"]]]
TOKS = ["(", ")", "(", ")", "'", "`", ",", ",@", "\"", ";", "\n", " ", "\\", "{", "}", "#t", "nil", "()", "'()", "\"a\"", "@", "#", ".", "-", "+5", "1e5", "1.5.2", "99999999999", "0x1f", "\"\\n\"", ";c\n", "(list", "(do", "(quote", "'a", "\t", "\r\n", "\0", "\xe4", "\xff", "true", "|", "inf", "1e999", "-1e-999"]


def soup(r):
    out = []
    depth = 0
    for _ in range(r.randint(1, 25)):
        t = r.choice(TOKS) if r.random() < 0.6 else r.choice(NAMES + ["v0", "l0", "1", "2", "3.5"]) if r.random() < 0.8 else rtext(r, 4)
        if any(m in t for m in ("push", "dict-set", "setf", "apply", "map", "reduce")):
            continue
        out.append(t)
        if r.random() < 0.5:
            out.append(" ")
    s = "".join(out)
    return s


MUTCHARS = "()'`,@\";\\ \n\t#{}1a-.+0\0\xff"


def mutate(r, s):
    for _ in range(r.choice([1, 1, 2, 3, 6])):
        if not s:
            break
        i = r.randrange(len(s))
        k = r.random()
        if k < 0.35:
            s = s[:i] + s[i + r.randint(1, 4):]
        elif k < 0.75:
            s = s[:i] + r.choice(MUTCHARS) + s[i:]
        elif k < 0.9:
            s = s[:i] + r.choice(MUTCHARS) + s[i + 1:]
        else:
            j = r.randrange(len(s))
            a, b = min(i, j), min(max(i, j), min(i, j) + 30)
            s = s[:b] + s[a:b] + s[b:]
    return s


def gen(r, tier):
    k = r.random()
    entry = choose(r, [(6, "session"), (2, "save"), (1, "main"), (1, "expand"), (1, "trace")])
    if k < 0.45:
        return {"text": "\n".join(M.render(call(r, r.choice([1, 1, 2]))) for _ in range(r.randint(1, 4))), "pre": True, "entry": entry, "split": True}
    if k < 0.65:
        return {"text": "\n".join(M.render(call(r, 3)) for _ in range(r.randint(1, 3))), "pre": True, "entry": entry, "split": True}
    if k < 0.85:
        g = Gen(r, {"while": 0, "defn": 0, "call": 0, "lambda": 0.3, "mutate": 0}, err=0.1)
        return {"text": mutate(r, "\n".join(M.render(f) for f in g.program(r.randint(1, 3)))), "pre": False, "entry": entry, "split": False}
    return {"text": soup(r), "pre": r.random() < 0.5, "entry": entry, "split": False}


def enumerate_cases(tier):
    """every built-in with every argument type in every position"""
    out = []
    vals = [1, -1, {"d": "1.5"}, {"s": "ab"}, {"s": ""}, True, None, {"q": "a"}, {"q": [1, 2]}, {"q": []}, "d0", "fn0", "+", "undef1", ["nop"]]
    for n in NAMES:
        if n in ("break",):
            continue
        calls_ = [[n]]
        for a in vals:
            calls_.append([n, a])
        for i, a in enumerate(vals):
            for j, b in enumerate(vals):
                if n in MUT and j != i or (i + j) % (3 if tier == "quick" else 1) == 0:
                    calls_.append([n, a, b])
                    if n not in MUT or True:
                        calls_.append([n, b, a, vals[(i * 3 + j) % len(vals)]])
        if n in ("push", "dict-set"):
            calls_ = [c for c in calls_ if not any(isinstance(x, str) for x in c[2:]) or len(c) > 1 and c[1] not in ("d0",)]
        for i in range(0, len(calls_), 60):
            out.append({"text": "\n".join(M.render(c) for c in calls_[i:i + 60]), "pre": True, "entry": "session", "split": True})
    return out


def check(env, case):
    text, entry = case["text"], case["entry"]
    w = env.worker
    pre = [M.render(f) for f in PRE] if case["pre"] else []
    frags = text.split("\n") if case["split"] else [text]
    env.label("entry " + entry)
    if entry in ("session", "expand", "trace"):
        res = w.session(pre + frags, flags={"session": "", "expand": "m", "trace": "t"}[entry], inp="line one\nline two")
        for t, q in zip((pre + frags), res):
            if q.status not in ("ok", "lisp", "base"):
                env.fail("%s\n ends with %s %r" % (t, q.status, q.message))
            env.label("status " + q.status)
        n = len(frags)
    else:
        t = "\n".join(pre) + "\n" + text
        q = w.save(t, flags="v" if len(text) % 2 else "") if entry == "save" else w.main(["-e", t])
        if q.status not in ("ok", "lisp", "base"):
            env.fail("%s\n ends with %s %r" % (t, q.status, q.message))
        n = 1
    r = w.eval("(list (+ 1 2) \"x\" '(a b))")
    if not r.ok or r.dump != "(i3;s1:x(y1:ay1:b))":
        env.fail("after %s\nthe interpreter does not evaluate correctly any more: %s" % (text, r.brief()))
    env.nontrivial(len(text) >= 6)


def FUZZ(tier, seed):
    """the coverage-guided search starts with generated texts: (runs per process, seconds, texts)"""
    import random
    texts = []
    for i in range(320):
        texts.append(gen(random.Random("fuzz%s/%d" % (seed, i)), tier)["text"].replace("\n", "\x1e" if i % 4 == 0 else "\n").encode("latin-1")[:600])
    return (2200, 90, texts) if tier == "quick" else (120000, 1200, texts)


def describe(case):
    return [case["entry"] + (" after the standard definitions" if case["pre"] else "")] + case["text"].split("\n")
