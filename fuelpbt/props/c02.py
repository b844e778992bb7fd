from ..gens import choose
from ..common import *
from .. import model as M

TITLE = "Source text and data correspond: every literal reads as the value it denotes"
STATEMENT = ("Quoted data of any nesting reads as exactly the value its text denotes: integers within 32 bits as integers and larger ones as floating point numbers, decimal and exponent notation as the nearest double, #t/true/#f/false as booleans, nil in any case and () as the empty list, "
             "strings as their characters with the escapes \\n \\r \\t \\\\ \\\" decoded and all other characters (also newlines, semicolons and brackets) kept, anything else as a symbol; 'x `x ,x and ,@x are shorthands for the two-element lists headed by quote, quasiquote, _unquote and _unquotesplicing. "
             "Literals used unquoted as arguments have these same values. "
             "The printed text of a list of integers, booleans, symbols, lists and strings without special characters reads back as an equal list.")
OVER = ["inputs"]
QUANT = "all nested data values and all their spellings (number formats, raw or escaped characters in strings, brackets or shorthands)"
WHY = "Tests read a few literals; the lexical syntax is an infinite language of spellings and nestings."
MECH = [("literals", F_TKN), ("tokens and escapes", F_TOK), ("lists and shorthands", F_PAR), ("printing", F_VAR + " ToString, ExpandContainerToString")]
FILES = [F_TKN, F_TOK, F_PAR, F_VAR]
TECHNIQUE = "property-based round-trip and reference-reader testing over generated data and spellings"
QUICK, THOROUGH = 32000, 250000
RULE = "random nested data in random spelling, read quoted and as arguments, printed and read back; non-trivial = at least 4 atoms or an escape"

SYMCH = "abcdefxyzABC0123456789+-*/<>=!?_.:%&|^~$#@{}[]"
ESC = {"\n": "\\n", "\r": "\\r", "\t": "\\t", "\\": "\\\\", '"': '\\"'}


def symbol(r):
    while True:
        k = r.random()
        if k < 0.5:
            s = r.choice(["a", "foo", "x-y", "+", "-", "*", "<=", "a.b", "a#", "b@c", "#x", "&rest", "...", "-a", "+x", "1+", "1a", "nila", "nil?", "#tt", "true1", "e5", ".", "-.", "x1.5", "{", "a{0}", "[", "1.5f", "2x", "1.5d", "3L", "5.e", "1e", "1e+", ".5.", "1.2.3", "1-2", "10%", "7u", "0.5F", "1_000", "1,5".replace(",", "."), "12e4x", "2e3e4", "infx", "nano", "nan1", "0xg", "0y1", "quote", "list", "if", "a\xe9", "\xfcber"])
        else:
            s = "".join(r.choice(SYMCH) for _ in range(r.randint(1, 8)))
        if s[0] in "0123456789" and r.random() < 0.5:
            continue
        try:
            if isinstance(M.atom_value(s), M.Sym) and not s.startswith("@"):
                return s
        except M.OutOfDomain:
            pass


def integer(r):
    k = r.random()
    n = r.randint(-20, 20) if k < 0.3 else r.choice([0, 2147483647, -2147483648, 2147483648, -2147483649, 2147483646, 4294967296, 9223372036854775807, 9223372036854775808, 10 ** 25, 99999999999, 1000000]) if k < 0.6 else r.randint(-2 ** 31, 2 ** 31 - 1) if k < 0.9 else r.randint(-2 ** 70, 2 ** 70)
    s = str(n)
    if r.random() < 0.1 and n >= 0:
        s = "+" + s
    if r.random() < 0.1:
        s = s[0] + "0" * r.randint(1, 3) + s[1:] if s[0] in "+-" else "0" * r.randint(1, 3) + s
    return s


def double(r):
    k = r.random()
    if k < 0.3:
        return r.choice(["0.5", ".5", "5.", "-0.0", "-.25", "1e3", "1E3", "1e+3", "1e-3", "-1.5e-7", "+2.5", "3.14159265358979", "1e22", "123456789012345678.0", "0.1", "0.30000000000000004", "9007199254740993.0", "1.7976931348623157e308", "2.2250738585072014e-300", "1e-310", "-4.9e-324", "2.5e-320", "2.2250738585072011e-308", "4.35", "0.000001", "1.e5", "2147483647.0", "-2147483648.0", "1e0"])
    m = "%s%d.%s" % (r.choice(["", "-", "+"]), r.choice([0, r.randint(0, 9), r.randint(0, 10 ** r.randint(1, 18))]), "".join(r.choice("0123456789") for _ in range(r.randint(1, 20))))
    if r.random() < 0.4:
        m += r.choice("eE") + r.choice(["", "+", "-"]) + str(r.randint(0, 250))
    return m


def string(r):
    n = r.choice([0, 1, 2, 3, 5, 9, 20]) if r.random() < 0.9 else r.choice([50, 64, 130, 300, 1100])
    pal = r.choice(["ab \\\"\n\t\r;()'`,@", "abc ", "\\\"", "".join(chr(c) for c in range(1, 256)), "\nx;", "nrt\\"])
    return "".join(r.choice(pal) for _ in range(n)) + (r.choice([" ", "  ", "\t", ";", "("]) if r.random() < 0.1 else "")


def spell(r, s):
    out = []
    for c in s:
        if c in "\\\"":
            out.append(ESC[c])
        elif c in ESC and r.random() < 0.6:
            out.append(ESC[c])
        else:
            out.append(c)
    return '"' + "".join(out) + '"'


def data(r, d):
    """a spelling"""
    k = r.random()
    if d > 0 and k < 0.4:
        return ["("] + [data(r, d - 1) for _ in range(r.choice([0, 1, 2, 3, 4]))]
    if d > 0 and k < 0.5:
        return ["q", r.choice(["'", "`", ",", ",@"]), data(r, d - 1)]
    return choose(r, [(3, lambda: integer(r)), (3, lambda: double(r)), (3, lambda: spell(r, string(r))), (4, lambda: symbol(r)), (1, lambda: r.choice(["#t", "#f", "true", "false"])), (0.7, lambda: r.choice(["nil", "NIL", "Nil", "nIl", "()"]))])()


def plain(r, d):
    """data whose printed text is readable"""
    k = r.random()
    if d > 0 and k < 0.5:
        return ["("] + [plain(r, d - 1) for _ in range(r.choice([0, 1, 2, 3, 4]))]
    return choose(r, [(3, lambda: str(r.choice([0, 5, -3, 2147483647, -2147483648, r.randint(-10 ** 6, 10 ** 6)]))), (2, lambda: '"%s"' % "".join(r.choice("abc ;()'`,@#\n\t.0{}") for _ in range(r.randint(0, 8)))), (3, lambda: symbol(r)), (1, lambda: r.choice(["#t", "#f", "true", "false"]))])()


SEP = [" ", "  ", "\n", "\t", " ;c\n", "\r\n", " ; \"( \n "]


def text(x, seps, st=None):
    st = st if st is not None else [0]

    def sep():
        st[0] += 1
        return SEP[seps[st[0] % len(seps)] % len(SEP)]
    if isinstance(x, str):
        return x
    if not isinstance(x, list) or not x:
        raise M.OutOfDomain("no data")
    if x[0] == "q":
        return x[1] + text(x[2], seps, st)
    if x[0] != "(":
        raise M.OutOfDomain("no data")
    return "(" + sep().join(text(e, seps, st) for e in x[1:]) + ")"


def nested(r):
    """shorthands in deeply nested lists"""
    x = ["q", r.choice(["'", "`", ",", ",@"]), data(r, 1)]
    n = r.randint(3, 14) if r.random() < 0.9 else r.randint(15, 70)
    p = 0.6 if r.random() < 0.6 else r.choice([0.95, 1.0])
    for _ in range(n):
        x = (["("] + ([data(r, 1)] if r.random() < 0.5 else []) + [x] + ([data(r, 1)] if r.random() < 0.5 else [])) if r.random() < p else ["q", r.choice(["'", "'", "`", ",", ",@"]), x]
    return x


def gen(r, tier):
    if r.random() < 0.25:
        return {"kind": "print", "items": [["("] + [plain(r, 3) for _ in range(r.randint(0, 4))] for _ in range(r.randint(1, 3))], "seps": [0]}
    return {"kind": "read", "items": [data(r, r.choice([0, 1, 2, 3, 5])) if r.random() < 0.93 else nested(r) for _ in range(r.randint(1, 5))], "seps": [r.randrange(len(SEP)) if r.random() < 0.4 else 0 for _ in range(r.choice([1, 3, 7]))]}


def natoms(x):
    return 1 if isinstance(x, str) else sum(natoms(e) for e in x[1:])


def enumerate_cases(tier):
    toks = ["0", "-0", "+0", "1", "-1", "2147483647", "2147483648", "-2147483648", "-2147483649", "00012", "1.0", "-1.5", ".5", "5.", "1e5", "1E-5", "#t", "#f", "true", "false", "True", "FALSE", "nil", "NIL", "Nil", "()", "a", "-", "+", "--", "-a", "+a", "a'".strip("'"), "#", "#true", "nil1", "t", "f",
            '""', '"a"', '"\\n"', '"\\\\n"', '"\\\\"', '"\\""', '"\\t\\r"', '"a\nb"', '";"', '"(a"', '")"', '"\'"', '"`,@"', '" "', '"  a "', '"nil"', '"1"', '"#t"', '"{0}"']
    for a in toks:
        yield {"kind": "read", "items": [a], "seps": [0]}
        for q in ("'", "`", ",", ",@"):
            yield {"kind": "read", "items": [["q", q, a], ["(", ["q", q, a]], ["(", "x", ["q", q, ["(", a, a]]], ["q", q, ["q", q, a]]], "seps": [0]}
        for b in toks:
            yield {"kind": "read", "items": [["(", a, b], ["(", ["(", a], b], ["(", a, ["(", b, a]]], "seps": [0]}


def check(env, case):
    items, seps = case["items"], case["seps"] or [0]
    texts = [text(x, seps) for x in items]
    w = env.worker
    if not texts:
        raise M.OutOfDomain("empty")
    exp = []
    for t in texts:
        f = M.read_forms(t)
        if len(f) != 1:
            raise M.OutOfDomain("not one datum")
        exp.append(f[0])

    def quoted(v):
        # a symbol, number ... is itself, a list is a list
        return M.typed(v)
    if case["kind"] == "read":
        codes, want = [], []
        for t, v in zip(texts, exp):
            e = quoted(v)
            cs = ["(quote %s)" % t, "(first (list '%s))" % t, "(do '%s)" % t]
            if not t.startswith(("(", "'", "`", ",")) and e[0] in "idbs":
                cs += ["(first (list %s))" % t, "(do (def x %s) (nth 1 (list 1 x)))" % t]
            codes += cs
            want += [e] * len(cs)
        codes.append("'(" + SEP[seps[0] % len(SEP)].join(texts) + ")")
        want.append(("l", tuple(quoted(v) for v in exp)))
        for code, e, q in zip(codes, want, w.session(codes)):
            m = M.mismatch(("ok", e), "", q)
            if m:
                env.fail("%s\n%s" % (code, m))
        env.label("read")
    else:
        for t, v in zip(texts, exp):
            e = quoted(v)
            res = w.session(["(def x '%s)" % t, "(str x)", "(println x)", "(== x (evalstr (+ \"(quote \" (str x) \")\")))"])
            p = res[1]
            if not p.ok or p.value[0] != "s" or p.value[1] != M.to_text(v):
                env.fail("(str '%s) should give %r: %s" % (t, M.to_text(v), p.brief()))
            if res[2].out != M.to_text(v) + "\n":
                env.fail("(println '%s) should print %r: %s" % (t, M.to_text(v), res[2].brief()))
            q = w.eval("(quote %s)" % p.value[1])
            m = M.mismatch(("ok", e), "", q)
            if m:
                env.fail("the printed text %r of '%s is read back differently: %s" % (p.value[1], t, m))
            if not res[3].ok or res[3].value != ("b", True):
                env.fail("the printed text %r of '%s read back with evalstr is not equal: %s" % (p.value[1], t, res[3].brief()))
        env.label("print and read back")
    n = sum(natoms(x) for x in items)
    env.label("%d+ atoms" % (n // 5 * 5))
    env.nontrivial(n >= 4 or any("\\" in t for t in texts))


def describe(case):
    return [text(x, case["seps"] or [0]) for x in case["items"]]
