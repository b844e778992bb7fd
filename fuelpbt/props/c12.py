from ..gens import rint, rdbl, rstr, rtext, choose
from ..common import *

TITLE = "String functions are exact for every string and every position"
STATEMENT = ("len, first, last, rest, nth, slice, reverse, trim, lower-case, upper-case, replace, search and + on strings give exactly the characters the definition demands: slice takes the given number of characters from a zero-based position "
             "(all the rest for -1), search gives the first position at or after the optional start (only matches inside of the optional length) or -1, replace substitutes every non-overlapping occurrence from left to right, "
             "trim removes white space at both ends, and + appends the text of every further operand to a string. "
             "A position outside of the string is reported as an error, and no argument string is ever changed.")
OVER = ["inputs"]
QUANT = "all strings over a small alphabet up to length 4 with all positions and lengths, and generated strings with all characters (escapes, quotes, control and non-ASCII characters)"
WHY = "Tests use one or two strings per function; boundary positions, empty strings, overlapping matches and special characters are not covered."
MECH = [("string functions", F_ENV + " Slice Search Replace Trim LowerCase UpperCase Nth First Last Rest Reverse"), ("string class", F_STR), ("string addition", F_VAR + " operator+")]
FILES = [F_ENV, F_STR, F_VAR]
TECHNIQUE = "exhaustive small-scope plus property-based differential testing against a reference model"
QUICK, THOROUGH = 16000, 100000
RULE = "enumerated: every string over {a,b} up to length 4 with every position/length -1..6 and every needle up to length 2; generated: random strings; non-trivial = at least 4 string functions evaluated"
REGRESS = [{"prog": [["search", {"s": "b"}, {"s": "ab"}, 0, 1], ["slice", {"s": "abc"}, 5, 1], ["slice", {"s": "abc"}, 3, -1], ["nth", 3, {"s": "abc"}]]}]


def strings(n, al="ab"):
    out = [""]
    for l in range(1, n + 1):
        cur = [""]
        for _ in range(l):
            cur = [c + x for c in cur for x in al]
        out += cur
    return out


def enumerate_cases(tier):
    ex = []
    S = strings(4 if tier == "quick" else 5)
    N = strings(2)[1:]
    for s in S:
        q = {"s": s}
        for op in ("len", "first", "last", "rest", "reverse", "car", "cdr"):
            ex.append([op, q])
        for i in range(-1, len(s) + 3):
            ex.append(["nth", i, q])
            for n in range(-2, len(s) + 3):
                ex.append(["slice", q, i, n])
        for n in N + [""]:
            ex.append(["search", {"s": n}, q])
            for p in range(0, len(s) + 2):
                ex.append(["search", {"s": n}, q, p])
                for l in range(0, len(s) + 2):
                    ex.append(["search", {"s": n}, q, p, l])
            if n:
                for t in ("", "x", "ab", n + n):
                    ex.append(["replace", q, {"s": n}, {"s": t}])
    for w in (" ", "\t", "\n", "\r", "  ", " \n\t", "\x0b", "\x0c", "\xa0", "\x01"):
        for t in ("", "a", "a b", "a" + w + "b"):
            for e in ((w + t), (t + w), (w + t + w)):
                ex.append(["trim", {"s": e}])
    allc = "".join(chr(c) for c in range(0, 256))
    for op in ("lower-case", "upper-case", "reverse", "trim", "len", "rest", "first", "last"):
        ex.append([op, {"s": allc}])
    return batches(ex, 120)


def pos(r, lo, hi):
    """a position, mostly an integer; also a boolean, a fraction or the text of a number"""
    n = r.randint(lo, hi)
    k = r.random()
    return n if k < 0.9 else {"d": "%d.%d" % (n, r.randint(0, 9))} if k < 0.94 else {"s": str(n)} if k < 0.98 else n > 0


def sexpr(r, names, d):
    if d <= 0 or r.random() < 0.2:
        return r.choice(names) if names and r.random() < 0.4 else rstr(r)
    return choose(r, [
        (2, lambda: ["slice", sexpr(r, names, d - 1), pos(r, -1, 6), pos(r, -2, 6)]),
        (1, lambda: [r.choice(["first", "last", "rest", "reverse", "car", "cdr"]), sexpr(r, names, d - 1)]),
        (1, lambda: ["nth", r.randint(-1, 6), sexpr(r, names, d - 1)]),
        (1.5, lambda: [r.choice(["trim", "lower-case", "upper-case"]), sexpr(r, names, d - 1)]),
        (1.5, lambda: ["replace", sexpr(r, names, d - 1), {"s": r.choice(["a", "b", "ab", "aa", " ", "\\", "\"", "\n", "x", ";", "''"])}, sexpr(r, names, 0)]),
        (2, lambda: [r.choice(["+", "string", "add"])] + [sexpr(r, names, d - 1)] + [choose(r, [(3, lambda: sexpr(r, names, d - 1)), (1, lambda: rint(r)), (0.7, lambda: rdbl(r)), (0.2, lambda: {"q": "sy"})])() for _ in range(r.choice([1, 1, 2, 3]))]),
    ])()


def long_ops(r, prog, names):
    """functions on longer strings, with positions, lengths and needles to match"""
    n = r.randint(8, 70)
    al = r.choice(["ab", "abc ", "aab", "abcdefghij", "a\n\t ", "\xe4b\xdf\x01\xff"])
    s = "".join(r.choice(al) for _ in range(n))
    names.append("s%d" % len(names))
    prog.append(["def", names[-1], {"s": s}])
    v = names[-1]

    def needle():
        i = r.randrange(n)
        t = s[i:i + r.choice([1, 2, 3, 4, 6, 9])]
        return {"s": t + r.choice(al) if r.random() < 0.2 else t}
    for _ in range(r.randint(3, 6)):
        p = r.randint(0, n + 1)
        prog.append(choose(r, [
            (3, lambda: ["search", needle(), v, p]), (3, lambda: ["search", needle(), v, p, r.randint(0, n + 2)]), (1, lambda: ["search", needle(), v]),
            (3, lambda: ["slice", v, p, r.choice([-1, -1, -3, r.randint(0, n)])]), (2, lambda: ["nth", p, v]),
            (3, lambda: ["replace", v, needle(), {"s": r.choice(["", "x", "ab", "longer text", s[:3]])}]),
            (1, lambda: [r.choice(["trim", "upper-case", "lower-case", "reverse", "first", "last", "rest", "len"]), v]),
            (1, lambda: ["len", ["+", v, v, v]]), (1, lambda: ["trim", ["+", {"s": " " * r.randint(0, 12)}, v, {"s": r.choice(" \t\n") * r.randint(0, 12)}]]),
        ])())


def gen(r, tier):
    names, prog = [], []
    if r.random() < 0.25:
        long_ops(r, prog, names)
    for i in range(r.randint(1, 3)):
        names.append("s%d" % len(names))
        prog.append(["def", names[-1], rstr(r, 20)])
    for _ in range(r.randint(4, 9)):
        k = r.random()
        if k < 0.6:
            e = sexpr(r, names, r.choice([1, 2, 3]))
            if not isinstance(e, list):
                e = ["len", e]
        elif k < 0.75:
            s = sexpr(r, names, 1)
            e = ["search", rstr(r, 2), s] + [r.randint(0, 8)][:r.randint(0, 1)]
            if len(e) == 4 and r.random() < 0.5:
                e.append(r.randint(0, 8))
        elif k < 0.9:
            e = ["len", sexpr(r, names, 2)]
        else:
            e = ["==", sexpr(r, names, 2), sexpr(r, names, 2)]
        prog.append(e)
    prog.append(["list"] + names)
    return {"prog": prog}


def check(env, case):
    it, exp = check_prog(env, case)
    labels_from(env, it, exp)
    env.nontrivial(calls(it, "slice", "first", "last", "rest", "reverse", "nth", "trim", "lower-case", "upper-case", "replace", "search", "len", "+", "string", "add") >= 4)
