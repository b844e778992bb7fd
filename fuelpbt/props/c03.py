from ..gens import rint, rtext, choose, Gen
from ..common import *
from .. import model as M

TITLE = "Layout and comments do not change what a script does"
STATEMENT = ("Two scripts with the same sequence of tokens behave alike (same value, same output, same definitions, same errors): any amount of blanks, tabs, carriage returns, newlines and line comments between tokens, including none where a bracket, quote mark or string delimits the neighbouring token, is without effect. "
             "A comment runs from a semicolon outside of a string to the end of its line whatever it contains; a semicolon inside of a string belongs to the string. "
             "Long and alternative spellings are equivalent: 'x and (quote x), `x and (quasiquote x), true and #t, escaped and raw characters in strings.")
OVER = ["programs"]
QUANT = "all programs and all ways to lay out their tokens, to insert comments with arbitrary text and to spell quotes, booleans and strings"
WHY = "Tests use one layout per script; the layouts of a token sequence are unbounded."
MECH = [("tokens, comments and strings", F_TOK + " Tokenize"), ("quote marks", F_PAR)]
FILES = [F_TOK, F_PAR, F_TKN]
TECHNIQUE = "metamorphic property-based testing of re-laid-out programs, with a reference interpreter as second oracle"
QUICK, THOROUGH = 12000, 100000
RULE = "generated programs evaluated in their plain form and in two random layouts; non-trivial = at least 15 tokens and a comment or a missing blank between tokens"
REGRESS = [
    {"prog": [["println", {"q": "a"}, {"q": "b"}], ["+", 1, 2]], "lay": [[2, 0, 7, 0, 5, 0], [3, 8, 0]], "alt": [0, 1]},
    {"prog": [["println", {"q": "a"}, {"s": "b"}, {"s": ";c"}]], "lay": [[0], [7, 7]], "alt": [1, 0, 1]},
]

BLANK = ["", " ", "  ", "\t", "\n", "\r\n", " \n\n ", "\v", "\f", "\n\t"]
COMMENTS = [";\n", "; x\n", ";;;; (\n", ";\"\n", ";'`,@ ) \\ \n", "; a;b \"c\" (d\n", ";\r\n", " ;\n;\n ;x\n", ";\\\n", ";#t nil \\n\n"]


def gen(r, tier):
    g = Gen(r, {"while": 0.6, "quasi": 2.0, "str": 2.0}, err=0.03)
    prog = g.program(r.randint(1, 5))
    if r.random() < 0.6:
        prog.append(["list"] + [{"q": x} for x in r.sample(["a", "b", "cd", "#x"], 2)] + [{"s": rtext(r, 8)}, {"q": [{"q": "a"}, {"qq": ["b", {"u": "c"}]}, {"s": ";x"}, "sy"]}])
    if r.random() < 0.3:
        prog.append(["defn", "f99", ["a", "b"], ["println", {"s": r.choice([";", "a;b", "\n;", "(;)", "\\;\""])}, "a", "b"]])
        prog.append(["f99", 1, {"s": "x;y"}])
    lay = [[choose(r, [(5, 0), (6, 1), (8, lambda: r.randrange(len(BLANK))), (4, lambda: len(BLANK) + r.randrange(len(COMMENTS)))]) for _ in range(r.choice([1, 3, 7, 17]))] for _ in range(2)]
    lay = [[x() if callable(x) else x for x in l] for l in lay]
    return {"prog": prog, "lay": lay, "alt": [r.randint(0, 1) for _ in range(r.choice([1, 3, 5]))], "rnd": r.randrange(1000)}


def spell(s, alts, k):
    out = []
    for c in s:
        k += 1
        a = alts[k % len(alts)]
        if c in "\\\"":
            out.append("\\" + c)
        elif c in "\n\r\t" and a:
            out.append({"\n": "\\n", "\r": "\\r", "\t": "\\t"}[c])
        else:
            out.append(c)
    return '"' + "".join(out) + '"'


LONG = {"q": "quote", "qq": "quasiquote", "u": "_unquote", "us": "_unquotesplicing"}
SHORT = {"q": "'", "qq": "`", "u": ",", "us": ",@"}


def tokens(x, alts, st):
    """('p', text) punctuation | ('a', text) atom | ('s', text) string"""
    st[0] += 1
    alt = alts[st[0] % len(alts)]
    if x is None:
        return [("a", ["nil", "NIL"][alt])]
    if x is True:
        return [("a", ["#t", "true"][alt])]
    if x is False:
        return [("a", ["#f", "false"][alt])]
    if isinstance(x, (int, str)):
        return [("a", M.render(x))]
    if isinstance(x, list):
        out = [("p", "(")]
        for e in x:
            out += tokens(e, alts, st)
        return out + [("p", ")")]
    (k, v), = x.items()
    if k == "d":
        return [("a", v)]
    if k == "s":
        return [("s", spell(v, alts, st[0]))]
    if alt and k in ("q", "qq"):
        return [("p", "("), ("a", LONG[k])] + tokens(v, alts, st) + [("p", ")")]
    return [("p", SHORT[k])] + tokens(v, alts, st)


def layout(toks, lay, stats):
    out = ""
    prev = None
    for i, t in enumerate(toks):
        k = lay[i % len(lay)] % (len(BLANK) + len(COMMENTS))
        sep = BLANK[k] if k < len(BLANK) else COMMENTS[k - len(BLANK)]
        if sep == "" and prev is not None and (prev[0] == "a" and t[0] == "a" or prev[1] == "," and t[1].startswith("@")):
            sep = " "
        if k >= len(BLANK):
            stats["comment"] = 1
        elif sep == "" and prev is not None and prev[0] in "as" and t[0] in "as":
            stats["no blank between atoms"] = 1
        out += sep + t[1]
        prev = t
    k = lay[len(toks) % len(lay)] % (len(BLANK) + len(COMMENTS))
    end = BLANK[k] if k < len(BLANK) else COMMENTS[k - len(BLANK)]
    if k >= len(BLANK) and k % 2:
        end = end.rstrip("\n")      # a comment may end the script
    return out + end


def check(env, case):
    prog, lays, alts = case["prog"], case["lay"], case["alt"] or [0]
    if not prog or not all(isinstance(f, (list, dict)) for f in prog) or not all(l for l in lays):
        raise M.OutOfDomain("no program")
    it, exp = run_model(prog)
    stats = {}
    texts = [M.render(f) for f in prog]
    w = env.worker
    plain = compare_session(env, prog, exp, texts)
    n = 0
    for lay in lays:
        new = []
        for f in prog:
            st = [n]
            toks = tokens(f, alts, st)
            n += len(toks)
            new.append(layout(toks, lay, stats))
        res = compare_session(env, prog, exp, new)
        for a, b, ta, tb in zip(plain, res, texts, new):
            if a.status != b.status or a.message != b.message or a.dump != b.dump or a.text != b.text:
                env.fail("%r\n gives %s, but\n%r\n gives %s" % (ta, a.brief(), tb, b.brief()))
        # everything as one text: up to the first error
        bad = [i for i, e in enumerate(exp) if e[0][0] == "err"]
        stop = bad[0] + 1 if bad else len(prog)
        q = w.eval("".join(new[i] + ("\n" if ";" in new[i] else "") for i in range(stop)))
        want = "".join(e[1] for e in exp[:stop])
        if not uses_macros(prog) and not it.stats.get("return"):
            if q.out != want:
                env.fail("%r as one script prints %r instead of %r" % ("".join(new), q.out, want))
            m = M.mismatch(exp[stop - 1][0], None, q, False)
            if m:
                env.fail("%r as one script: %s" % ("".join(new), m))
    for k in stats:
        env.label(k)
    labels_from(env, it, exp)
    env.nontrivial(n >= 30 and bool(stats))


def uses_macros(prog):
    return any(M.mentions(M.to_runtime(f), {"define-macro", "define-macro-eval", "define-macro-expand"}) for f in prog)


def describe(case):
    out = [M.render(f) for f in case["prog"]]
    for lay in case["lay"]:
        st, n = {}, 0
        for f in case["prog"]:
            toks = tokens(f, case["alt"] or [0], [n])
            n += len(toks)
            out.append(repr(layout(toks, lay, st)))
    return out
