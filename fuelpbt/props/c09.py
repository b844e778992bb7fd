from ..gens import rint, rdbl, rstr, choose
from ..common import *

TITLE = "Control flow evaluates exactly what it should, once and in order"
STATEMENT = ("if evaluates its condition once and then only the selected branch, and / or evaluate their operands from left to right and stop at the first one which decides the result, "
             "do evaluates its expressions in order and yields the last value, and while evaluates its body as long as the condition holds. "
             "Arguments of a function call are each evaluated exactly once, from left to right, before the call; "
             "return ends the enclosing function with the given value: nothing behind it in the surrounding do and while forms of that function is evaluated, and the caller goes on normally.")
OVER = ["programs"]
QUANT = "all nestings of if, while, do, and, or, not, return, function definitions and calls, with conditions of every type and side effects in every position"
WHY = "The tests check single forms; which sub-expressions are evaluated, how often and in which order in arbitrary nestings is a space of programs."
MECH = [("control flow forms", F_ENV + " if_form while_form do_form and_form or_form return_form"), ("evaluation of calls", F_INT + " EvalAst"),
        ("return flag", F_INT + ", " + F_ENV)]
FILES = [F_ENV, F_INT]
TECHNIQUE = "property-based differential testing of generated side-effecting programs against a reference interpreter (event traces)"
QUICK, THOROUGH = 14000, 120000
RULE = "generated programs whose sub-expressions print a marker when they are evaluated; non-trivial = at least 5 markers printed and at least 2 different control forms evaluated"

REGRESS = [
    {"prog": [["or", False, ["<", 1, 2], ["p", 1, True]]]},
    {"prog": [["defn", "f", [], ["do", ["return", 1], ["println", {"s": "no"}], 2]], ["f"], ["f"]]},
]


class G(object):
    def __init__(self, r):
        self.r = r
        self.k = 0
        self.n = 0
        self.funs = []
        self.infun = False
        self.protected = set()
        self.vars = ["x", "y", "z"]

    def mark(self, v):
        self.k += 1
        return ["p", self.k, v]

    def bool(self, d):
        r = self.r
        if d <= 0:
            return self.mark(choose(r, [(6, r.random() < 0.5), (0.7, r.choice([0, 1, -1, 7])), (0.3, {"d": r.choice(["0.0", "0.5", "-0.5", "-2.0", "-0.0", "1e-7", "-1e-7", "2e-8", "5e-9", "-2e-9", "1.5e-8", "3.0"])}), (0.1, None), (0.1, {"s": "x"}), (0.05, {"q": [1]})]))
        k = r.random()
        if k < 0.3:
            return [r.choice(["and", "or", "&&", "||"])] + [self.bool(d - 1) for _ in range(r.choice([0, 1, 2, 2, 3, 4, 2, 3, 7]))]
        if k < 0.4:
            return [r.choice(["not", "!"]), self.bool(d - 1)]
        if k < 0.5:
            return ["if", self.bool(d - 1), self.bool(d - 1), self.bool(d - 1)]
        if k < 0.65:
            return [r.choice(["<", ">", "=="]), self.value(d - 1), self.value(d - 1)]
        if k < 0.7:
            return r.choice([True, False])
        return self.bool(0)

    def value(self, d):
        r = self.r
        if d <= 0:
            return choose(r, [(4, self.mark(rint(r))), (2, r.choice(self.vars)), (1, rint(r))])
        k = r.random()
        if k < 0.2:
            return ["if", self.bool(d - 1), self.value(d - 1), self.value(d - 1)]
        if k < 0.35:
            return [r.choice(["+", "-", "list", "*"])] + [self.value(d - 1) for _ in range(r.randint(1, 4))]
        if k < 0.5 and self.funs:
            f, n = r.choice(self.funs)
            return [f] + [self.value(d - 1) for _ in range(n)]
        if k < 0.6:
            return self.block(d - 1)
        if k < 0.65:
            return ["apply", ["lambda", ["q"], ["p", "q", "q"]], ["list", self.value(d - 1)]]
        if k < 0.7 and self.infun:
            return ["return", self.value(d - 1)]
        if k < 0.75:
            return ["map", ["lambda", ["q"], self.mark("q")], ["list"] + [self.value(d - 2) for _ in range(r.randint(0, 3))]]
        return self.mark(self.value(d - 1))

    def stmt(self, d):
        r = self.r
        k = r.random()
        if k < 0.2:
            return ["if", self.bool(d - 1), self.stmt(d - 1) if d > 0 else self.mark(1)] + ([self.block(d - 1)] if r.random() < 0.5 else [])
        if k < 0.35 and d > 0:
            return self.loop(d)
        if k < 0.45 and self.infun:
            return ["return", self.value(d - 1)] if r.random() < 0.4 else ["if", self.bool(d - 1), ["return", self.value(d - 1)]]
        if k < 0.6:
            if r.random() < 0.04:
                # the new value is computed by a form which does things but has no value
                return ["do", ["setf", r.choice(self.vars[:3]), ["do", self.mark(1), ["if", self.bool(0), 5]] if r.random() < 0.6 else ["while", False, self.mark(1)]],
                        self.mark(["typestr", "x"])] + ([["setf", v, 1] for v in self.vars[:3]] if r.random() < 0.7 else [])
            return ["setf", r.choice(self.vars[:3]), self.value(d - 1)]
        if k < 0.7:
            return [r.choice(["and", "or"])] + [self.bool(d - 1) for _ in range(r.randint(1, 4))]
        if k < 0.8 and d > 0:
            return self.block(d - 1)
        if k < 0.82:
            return ["while", False, self.mark(1)]
        if k < 0.83:
            # the smallest number which still counts as true
            self.n += 1
            c = "c%d" % self.n
            return ["do", ["def", c, {"d": r.choice(["1.5e-8", "-1.5e-8", "2e-8", "9e-9", "1e-7", "-1e-7", "0.1"])}], ["while", c, ["do", self.mark(1), ["setf", c, r.choice([0, {"d": "0.0"}, {"d": "1e-9"}])]]]]
        if k < 0.835:
            return self.mark(["typestr", [r.choice(["do", "begin"])]])
        return self.mark(self.value(d - 1))

    def block(self, d):
        r = self.r
        items = [self.stmt(d) for _ in range(r.choice([1, 2, 2, 2, 3, 3, 1, 2] + ([6, 9] if d < 2 else [4])))]
        if r.random() < 0.03:
            items.insert(r.randint(0, len(items)), r.choice([1, "x", None]))
        return [r.choice(["do", "do", "begin"])] + items

    def loop(self, d):
        r = self.r
        self.n += 1
        c = "c%d" % self.n
        k = r.random()
        lim = r.randint(0, 4) if r.random() < 0.9 else r.randint(5, 12)
        if k < 0.6:
            cond = ["<", self.mark(c), lim]
            step = ["setf", c, ["+", c, 1]]
            init = 0
        elif k < 0.85:
            cond = c            # counts down to zero
            # ... or up, or in halves: any number but zero lets the loop go on
            sign = r.choice([1, 1, -1])
            unit = r.choice([1, 1, {"d": "0.5"}])
            step = ["setf", c, ["-" if sign > 0 else "+", c, unit]]
            init = sign * lim if unit == 1 else {"d": "%.1f" % (sign * lim * 0.5)}
        else:
            cond = ["and", ["<", c, lim], self.bool(0)]
            step = ["setf", c, ["+", c, 1]]
            init = 0
        body = [self.stmt(d - 1) for _ in range(r.randint(0, 2))]
        if r.random() < 0.5:
            b = ["do", step] + body
        else:
            b = ["do"] + body + [step]
        if r.random() < 0.3 and self.infun:
            b.insert(r.randint(1, len(b)), ["if", ["==", c, r.randint(0, 3)], ["return", self.mark(c)]])
        return ["do", ["def", c, init], ["while", cond, b]] + ([self.mark(c)] if r.random() < 0.5 else [])

    def defn(self):
        r = self.r
        f = "f%d" % (len(self.funs) + 1)
        n = r.randint(0, 3)
        ps = ["a%d" % i for i in range(n)]
        saved, self.vars = self.vars, ["x", "y", "z"] + ps
        self.infun = True
        body = self.block(r.choice([1, 2, 2, 3])) if r.random() < 0.75 else r.choice([self.loop(2), ["if", self.bool(2), self.block(1), self.block(1)], self.value(2)])
        self.infun = False
        self.vars = saved
        out = ["defn", f, ps, body]
        self.funs.append((f, n))
        return out


def gen(r, tier):
    g = G(r)
    prog = [["defn", "p", ["k", "v"], ["do", ["println", "k"], ["first", ["list", "v"]]]], ["def", "x", 1], ["def", "y", 2], ["def", "z", 3]]
    for _ in range(r.choice([0, 1, 2, 2, 3])):
        prog.append(g.defn())
    for _ in range(r.randint(2, 6)):
        k = r.random()
        if k < 0.4 and g.funs:
            f, n = r.choice(g.funs)
            prog.append(["list"] + [[f] + [g.value(1) for _ in range(n)] for _ in range(r.choice([1, 1, 2]))])
        elif k < 0.8:
            prog.append(g.stmt(r.randint(1, 3)))
        else:
            prog.append(["list", g.bool(3), g.value(2)])
    prog.append(["list", "x", "y", "z"])
    return {"prog": prog}


def check(env, case):
    it, exp = check_prog(env, case)
    labels_from(env, it, exp)
    n = sum(e[1].count("\n") for e in exp)
    env.nontrivial(n >= 5 and sum(1 for f in ("if", "while", "do", "and", "or", "return", "not", "&&", "||", "begin") if calls(it, f)) >= 2)
