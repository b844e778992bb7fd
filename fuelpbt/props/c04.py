import os
from ..gens import rint, rtext, choose, Gen
from ..common import *
from .. import model as M

TITLE = "Malformed scripts are rejected as a whole, well-formed ones never"
STATEMENT = ("A script text with unbalanced brackets, a string which is not closed, an unknown escape sequence (a backslash before a letter or digit without meaning) in a string, or a quote mark without a following expression is reported as an error before anything of it is evaluated: nothing is printed, defined or changed, wherever in the text the fault is, and this holds for scripts, evaluated strings and imported files. "
             "Every other text is accepted and evaluated. "
             "After a rejected text the session works on with all its former definitions.")
OVER = ["inputs"]
QUANT = "all texts obtained from well-formed programs by inserting, removing, replacing and moving characters, through every entry point"
WHY = "Tests contain a handful of malformed scripts; which texts are rejected, and that nothing is evaluated before, is a statement about all texts."
MECH = [("bracket balance", F_PAR + " Parse, ParseTokens"), ("string ends and escapes", F_TOK), ("quote without expression", F_PAR), ("evaluated strings", F_ENV + " evalstr_form"), ("import", F_ENV + " Import")]
FILES = [F_PAR, F_TOK, F_ENV, F_LSP]
TECHNIQUE = "mutational property-based testing with an independent reader as oracle for well-formedness and a reference interpreter for accepted texts"
QUICK, THOROUGH = 56000, 400000
RULE = "generated programs with side effects, 0 to 3 character-level mutations or a targeted fault; the reference reader decides what must be rejected; non-trivial = the text is rejected, or accepted after a mutation"

MUT = "()()()()''`,,@\"\"\";;\\\\ \n1ax"
PRE = [["def", "v", 1], ["def", "l", ["list", 1, 2]], ["defn", "f", ["x"], ["do", ["println", "x"], ["setf", "v", ["+", "v", 1]]]]]
PROBE = ["list", "v", "l", "w0", ["f", 5]]


def stmt(r):
    return choose(r, [(3, lambda: ["println", {"s": rtext(r, 6)}, rint(r)]), (2, lambda: ["setf", "v", rint(r)]), (2, lambda: ["def", "w0", {"q": ["a", rint(r), {"s": "x y"}]}]), (2, lambda: ["f", ["+", rint(r), "v"]]),
                      (1, lambda: ["push", rint(r), "l"]), (1, lambda: ["if", ["<", "v", 3], ["println", {"s": "lt"}], ["f", 7]]), (1, lambda: ["list", {"qq": ["a", {"u": "v"}, {"us": "l"}]}]),
                      (1, lambda: ["println", {"q": "sym"}, {"q": {"q": ["q"]}}]), (1, lambda: ["do", ["f", 1], ["f", 2]]), (0.5, lambda: ["gdef", "f", ["lambda", ["x"], ["println", {"s": "new"}]]])])()


def gen(r, tier):
    prog = [stmt(r) for _ in range(r.randint(1, 5))]
    s = r.choice(["\n", " ", "\n\n", " ;c )\n"]).join(M.render(f) for f in prog)
    k = r.random()
    kind = "none"
    if k < 0.6:
        kind = "mutation"
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            i = r.randrange(len(s) + 1)
            m = r.random()
            if m < 0.4:
                s = s[:i] + s[i + 1:]
            elif m < 0.8:
                s = s[:i] + r.choice(MUT) + s[i:]
            elif m < 0.9:
                j = r.randrange(len(s) + 1)
                i, j = min(i, j), max(i, j)
                s = s[:i] + s[j:] if r.random() < 0.5 else s[:j]
            else:
                s = s[:i] + r.choice(MUT) + s[i + 1:]
    elif k < 0.9:
        kind = "fault"
        f = r.choice([")", "(", "(println 1", "\"abc", "'", "`", ",", ",@", "(list ')", "(list 1 `)", "\"a\\qb\"", "\"\\", "\"\\x41\"", ") (", "(list \"a\\ \")", "'", "(println \"x\\\")", ")(", "(quote '", "(list (list 1)", "; \"\n)", "\"a;b\n(println 1)", "((((", "))))", "\\z", "\"\\0\"", "(list 1))(list 2", "\"\\'\"", "\"\\a\"", "\"\\u0041\"", "\"\\N\""])
        forms = [M.render(x) for x in prog]
        p = r.randint(0, len(forms))
        forms.insert(p, f)
        s = r.choice(["\n", " "]).join(forms)
    return {"text": s, "kind": kind, "entry": choose(r, [(6, "eval"), (2, "evalstr"), (2, "import"), (2, "save"), (1, "fevalstr")])}


def expected(case):
    """None if the text must be rejected, else what happens"""
    text, entry = case["text"], case["entry"]
    try:
        forms = M.read_forms(text)
    except M.ReadError:
        return None
    if any(M.mentions(f, {"import"}) for f in forms):
        raise M.OutOfDomain("import")
    return forms


def check(env, case):
    text, entry = case["text"], case["entry"]
    forms = expected(case)
    if forms is not None and entry in ("import", "fevalstr"):
        entry = "eval"      # what an accepted text does there: see the module and scope properties
    it = M.Interp(max_steps=4000)
    it.outcome(PRE)
    if forms is None:
        exp, out = ("err", None), ""
    else:
        n = len(it.out)
        try:
            v = it.run_forms(forms, it.glob)
            exp = ("ok", M.typed(v))
        except M.LispErr:
            exp = ("err", None)
        out = "".join(it.out[n:])
    (pk, pv), pout = it.outcome([PROBE])
    w = env.worker
    pre = [M.render(f) for f in PRE]
    probe = M.render(PROBE)
    if entry == "save":
        code = "\n".join(pre) + "\n" + text
        q = w.save(code)
        if forms is None:
            if "Error" not in q.out and q.status == "ok" and not q.dump.startswith("e") or not q.out.startswith("\nError executing script."):
                env.fail("%s\n is malformed and should be rejected before anything is evaluated, the output is %r, the result %s" % (code, q.out, q.dump))
        elif exp[0] == "ok" and forms:
            m = M.mismatch(exp, out, q)
            if m:
                env.fail("%s\n%s" % (code, m))
        elif not q.out.startswith(out + "\nError executing script.") and not q.out.startswith(out):
            env.fail("%s\n should print %r and an error: %r" % (code, out, q.out))
        env.label("entry save", "rejected" if forms is None else "accepted")
        env.nontrivial(forms is None or case["kind"] != "none")
        return
    if entry == "evalstr":
        frag = "(evalstr %s)" % M.esc(text)
    elif entry == "fevalstr":
        frag = "(do (defn g (s) (evalstr s)) (g %s))" % M.esc(text)
    elif entry == "import":
        p = os.path.join(env.subdir("c04"), "m.fuel")
        with open(p, "w", newline="", encoding="latin-1") as f:
            f.write(text)
        frag = "(import \"%s\")" % p
    else:
        frag = text
    res = w.session(pre + [frag, probe])
    q, p = res[-2], res[-1]
    m = M.mismatch(exp, out, q, False)
    if m:
        env.fail("%s\n (%s) %s" % (frag, "malformed" if forms is None else "well-formed", m))
    if q.cout != out:
        env.fail("%s\n writes %r to the standard output" % (frag, q.cout))
    m = M.mismatch((pk, M.typed(pv) if pk == "ok" else pv), pout, p, False)
    if m:
        env.fail("after %s\n (%s) the session: %s" % (frag, "malformed" if forms is None else "well-formed", m))
    env.label("entry " + entry, "rejected" if forms is None else "accepted", "status " + q.status, case["kind"] + (" rejected" if forms is None else " accepted"))
    env.nontrivial(forms is None or case["kind"] != "none")


def describe(case):
    return [case["entry"]] + case["text"].split("\n")
