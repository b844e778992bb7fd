from ..gens import rint, rdbl, rstr, rtext, choose
from ..common import *
from .. import model as M

TITLE = "format replaces every placeholder by its argument, padded to its width"
STATEMENT = ("format copies its format string and replaces every placeholder {n}, n from 0 to 4, by the text of argument n; {n,w} pads that text with blanks to at least |w| characters, right aligned for positive and left aligned for negative w. "
             "A placeholder may occur any number of times and in any order, braces which form no placeholder and placeholder-like text inside the arguments are copied unchanged, "
             "and a placeholder without its argument is reported as an error.")
OVER = ["inputs"]
QUANT = "all format strings over text, braces, digits, commas and placeholders, all argument lists of 0 to 5 values of all types, all widths"
WHY = "The tests format four or five fixed strings; repeated placeholders, alignment against text length and braces in arguments are not covered."
MECH = [("format", F_ENV + " Format"), ("string formatting", F_STR + " Format")]
FILES = [F_ENV, F_STR]
TECHNIQUE = "property-based differential testing against a reference formatter plus metamorphic relations (concatenation, width)"
QUICK, THOROUGH = 18000, 150000
RULE = "generated format strings with 0-6 placeholders and broken placeholders, arguments of all types, some containing placeholders; non-trivial = at least one placeholder was replaced"


def piece(r, n):
    k = r.random()
    i = r.randrange(n) if n and r.random() < 0.93 else r.randint(0, 5)
    if k < 0.35:
        return "{%d}" % i
    if k < 0.6:
        return "{%d,%d}" % (i, r.choice([0, 1, 2, 3, 5, 8, -1, -3, -6, 12, -12, 20, 47, -64, 130]))
    if k < 0.68:
        return r.choice(["{", "}", "{}", "{x}", "{{", "}}", "{5}", "{9}", "{-1}", "{ 0}", "{0 }", "{10}", "{0", "{0,", "{0,}", "{0,x}", "{,3}", "{{0}", "{{0}}", "{0}}", "{ }"])
    if k < 0.72:
        return "{%d,%s%d}" % (i, r.choice([" ", "+", "  "]), r.randint(1, 6))
    return rtext(r, 6)


def arg(r):
    return choose(r, [(3, lambda: rint(r)), (2, lambda: rdbl(r)), (4, lambda: rstr(r, 8)), (1, lambda: {"s": r.choice(["{0}", "{1}", "{2,5}", "a{1}b", "{", "}", "{0}{1}"])}), (0.7, lambda: r.random() < 0.5),
                      (0.5, lambda: None), (0.7, lambda: {"q": [1, {"s": "x"}, "y"]}), (0.5, lambda: {"q": "sy"})])()


def gen(r, tier):
    prog = []
    for _ in range(r.randint(3, 8)):
        n = r.choice([0, 1, 1, 2, 2, 3, 4, 5])
        fmt = "".join(piece(r, n) for _ in range(r.choice([0, 1, 2, 3, 4, 6])))
        prog.append(["format", {"s": fmt}] + [arg(r) if r.random() < 0.9 else {"s": "".join(r.choice(" \t\n\r\"\\{}0,ab") for _ in range(r.randint(1, 5)))} for _ in range(n)])
    if r.random() < 0.1:
        prog.append(["format"] + [{"s": "x"}] * r.choice([0, 6, 7]))
    return {"prog": prog}


def enumerate_cases(tier):
    ex = []
    for w in range(-9, 10):
        for t in ("", "a", "abc", "abcdefg"):
            ex.append(["format", {"s": "<{0,%d}>" % w}, {"s": t}])
            ex.append(["format", {"s": "<{1,%d}{0}>" % w}, {"s": t}, {"s": t + "x"}])
    for i in range(0, 7):
        for n in range(0, 6):
            ex.append(["format", {"s": "<{%d}>" % i}] + [10 * j for j in range(n)])
    return batches(ex)


def check(env, case):
    it, exp = check_prog(env, case)
    labels_from(env, it, exp)
    good = 0
    for f, e in zip(case["prog"], exp):
        if e[0][0] == "ok" and len(f) > 1 and isinstance(f[1], dict) and e[0][1] != ("s", f[1].get("s")):
            good += 1
    env.nontrivial(good > 0)
    # relation: a format string in two halves, split outside of a placeholder
    f = case["prog"][0]
    if len(f) > 1 and isinstance(f[1], dict) and "s" in f[1] and exp[0][0][0] == "ok":
        s = f[1]["s"]
        for cut in range(1, len(s)):
            if s[:cut].count("{") == s[:cut].count("}") and s[cut - 1] == "}" and "{" not in s[s.rfind("}", 0, cut):cut]:
                a, b = [["format", {"s": x}] + f[2:] for x in (s[:cut], s[cut:])]
                try:
                    if M.format_text(s[:cut], ["?"] * 5) and M.format_text(s[cut:], ["?"] * 5) is not None:
                        r = env.worker.session([M.render(x) for x in (a, b, f)])
                        if all(x.ok for x in r):
                            env.label("split")
                            env.expect(r[0].value[1] + r[1].value[1] == r[2].value[1],
                                       "%s: the two halves give %r + %r, the whole gives %r" % (M.render(f), r[0].value[1], r[1].value[1], r[2].value[1]))
                except M.LispErr:
                    pass
                break
