from ..gens import rint, rstr, choose
from ..common import *

TITLE = "Variables and closures follow the scoping rules"
STATEMENT = ("def and defn define in the current function call (or globally outside of functions), gdef and gdefn always globally; every call has fresh variables for its parameters and definitions, while do, if and while open no scope of their own; "
             "a name denotes the variable of the current call, else the global one, else the one of the nearest enclosing function in which the function was created; a closure keeps these variables alive and shares them with other closures of the same call. "
             "setf changes the existing variable of the current call, else of the nearest enclosing function, else the global one, and reports an error if there is none; delvar removes a variable of the current call and tells whether it was there. "
             "A caller's variables are never visible in a called function, and a name without a variable denotes itself as a symbol.")
OVER = ["programs"]
QUANT = "all programs of nested function definitions, closures, assignments and calls over a small set of colliding names"
WHY = "Tests check a few closures with distinct names; shadowing, capture, sharing and lifetime of variables are properties of program and call structure."
MECH = [("lookup and assignment", F_SCO + " ResolveInScopes SetInScopes"), ("function values and calls", F_ENV + " fn_form CreateFunction"), ("definitions", F_ENV + " def_form gdef_form setf_form")]
FILES = [F_SCO, F_ENV, F_INT]
TECHNIQUE = "property-based differential testing of generated programs with colliding names against a reference interpreter"
QUICK, THOROUGH = 14000, 120000
RULE = "programs over the names x y z w with nested functions returned as closures and called later; non-trivial = a function was called and at least 3 definitions or assignments took effect"
NAMES = ["x", "y", "z", "w"]


class G(object):
    def __init__(self, r):
        self.r = r
        self.gf = {}        # global function name -> number of parameters
        self.clos = []      # global variables which hold closures of one argument

    def e(self, d):
        """expression"""
        r = self.r
        if d <= 0 or r.random() < 0.3:
            return r.choice(NAMES) if r.random() < 0.75 else r.randint(0, 9) if r.random() < 0.8 else r.choice([["if", False, 1], ["do"], None, {"q": []}, {"s": r.choice(["", "x", "s"])}, True, False, {"d": "1.5"}, {"q": r.choice(NAMES)}])
        k = r.random()
        if k < 0.3:
            return ["list"] + [self.e(d - 1) for _ in range(r.randint(1, 3))]
        if k < 0.45:
            return ["+", ["len", ["list", self.e(d - 1)]], r.randint(0, 5)]
        if k < 0.6 and self.gf:
            f = r.choice(sorted(self.gf))
            n = self.gf[f]
            if r.random() < 0.1:
                n = max(0, n + r.choice([-1, 1]))
            return [f] + [self.e(d - 1) for _ in range(n)]
        if k < 0.7 and self.clos:
            return [r.choice(self.clos), self.e(d - 1)]
        if k < 0.8:
            return ["apply", self.lam(1, d - 1), ["list", self.e(d - 1)]]
        if k < 0.85:
            return ["map", self.lam(1, d - 1), ["list", self.e(d - 1), self.e(d - 1)]]
        if k < 0.9:
            return ["eval", {"q": self.e(d - 1)}]
        return self.assign(d)

    def assign(self, d):
        r = self.r
        n = r.choice(NAMES)
        if r.random() < 0.08:
            # the name is computed
            n = r.choice([{"s": n}, ["sym", {"s": n}], {"q": n}, ["+", {"s": n[:1]}, {"s": n[1:]}], ["first", ["list", {"s": n}]], ["if", True, {"q": n}]])
            return [r.choice(["def", "def", "gdef", "setf"]), n if not (isinstance(n, list) and n[0] == "first") else ["rval", n], self.e(d - 1)]
        return choose(r, [(3, lambda: ["setf", n, self.e(d - 1)]), (2, lambda: ["def", n, self.e(d - 1)]), (1, lambda: ["gdef", n, self.e(d - 1)]), (0.5, lambda: ["delvar", {"q": n}])])()

    def lam(self, n, d):
        r = self.r
        ps = r.sample(NAMES, n) if n <= 4 else NAMES
        return [r.choice(["lambda", "fn"]), ps, self.body(d)]

    def body(self, d):
        r = self.r
        items = []
        for _ in range(r.randint(0, 3)):
            k = r.random()
            if k < 0.6:
                items.append(self.assign(d))
            elif k < 0.7:
                items.append(["if", r.random() < 0.5, ["do", self.assign(d)], ["do", self.assign(d)]])
            elif k < 0.8:
                items.append(["defn", r.choice(["x", "h"]), r.sample(NAMES, r.randint(0, 2)), ["list"] + r.sample(NAMES, 2)])
                if items[-1][1] == "h" and r.random() < 0.7:
                    items.append(["println", ["h"] + [self.e(0) for _ in items[-1][2]]])
            else:
                items.append(["println", self.e(d - 1)])
        k = r.random()
        if k < 0.3 and d > 0:
            tail = ["do", self.lam(1, d - 1)]
        elif k < 0.4 and d > 0:
            tail = ["list", self.lam(1, d - 1), self.lam(0, d - 1)]
        else:
            tail = ["list"] + [self.e(d - 1) for _ in range(r.randint(1, 3))]
        return ["do"] + items + [tail] if items or r.random() < 0.3 else tail


def gen(r, tier):
    g = G(r)
    prog = []
    for n in NAMES:
        if r.random() < 0.6:
            prog.append(["def", n, 100 + len(prog)])
    for _ in range(r.randint(4, 11)):
        k = r.random()
        if k < 0.25:
            f = r.choice(["f", "g"])
            n = r.randint(0, 3)
            prog.append([r.choice(["defn", "defn", "gdefn"]), f, r.sample(NAMES, n), g.body(2)])
            g.gf[f] = n
        elif k < 0.4:
            # a function which makes closures
            m = "mk%d" % len(prog)
            ps = r.sample(NAMES, r.randint(0, 2))
            pre = [g.assign(1) for _ in range(r.randint(0, 2))]
            lam = g.lam(1, 2) if r.random() < 0.6 else ["lambda", r.sample(NAMES, 1), ["do", ["setf", r.choice(NAMES), ["list", r.choice(NAMES), 1]], ["list"] + NAMES[:r.randint(1, 4)]]]
            prog.append(["defn", m, ps, ["do"] + pre + [lam]])
            for _ in range(r.randint(1, 2)):
                c = "c%d" % len(prog)
                prog.append(["def", c, [m] + [r.randint(10, 20) for _ in ps]])
                g.clos.append(c)
        elif k < 0.5:
            # two closures over the same variables
            m = "p%d" % len(prog)
            a, b = r.sample(NAMES, 2)
            prog.append(["def", m, [["lambda", [a, b], ["list", ["lambda", [], ["setf", a, ["list", a, b]]], ["lambda", [], ["list", a, b]]]], 1, 2]
                         if r.random() < 0.0 else ["apply", ["lambda", [a, b], ["list", ["lambda", [], ["setf", a, ["list", "len", b]]], ["lambda", [], ["list", a, b]]]], ["list", 1, 2]]])
            prog.append(["list", ["apply", ["nth", 1, m], ["list"]], ["apply", ["nth", 0, m], ["list"]], ["apply", ["nth", 1, m], ["list"]]])
        elif k < 0.57:
            # functions nested several levels deep, each with its own variables
            n = r.randint(2, 5)
            ps = ["u%d" % i for i in range(n)] if r.random() < 0.5 else [r.choice(NAMES) for _ in range(n)]
            pool = ps + NAMES[:2]
            e = ["list"] + [r.choice(pool) for _ in range(r.randint(2, 5))]
            if r.random() < 0.5:
                e = ["do", [r.choice(["setf", "setf", "def", "gdef"]), r.choice(pool), ["list", r.choice(pool), len(prog)]], e]
            for i in reversed(range(1, n)):
                e = [r.choice(["lambda", "lambda", "fn"]), [ps[i]], e]
                if r.random() < 0.5:
                    v = r.choice(pool)
                    e = ["do"] + [r.choice([["def", v, ["list", ps[i - 1]]], ["setf", v, r.choice(pool)], ["println", v], ["setf", v, 7]]) for _ in range(r.randint(1, 2))] + [["do", e]]
            prog.append(["defn", "nest", [ps[0]], e])
            call = ["nest", 1]
            for i in range(1, n):
                prog.append(["def", "nv%d" % i, call if r.random() < 0.8 else ["nest", 1] if i == 1 else call])
                call = ["nv%d" % i, 10 ** i]
            for _ in range(r.randint(1, 3)):
                prog.append(["list", call] if r.random() < 0.8 else call)
            if n > 2 and r.random() < 0.5:
                prog.append(["list", ["apply", ["nv%d" % (n - 2), 77], ["list", 88]], call])
        elif k < 0.75:
            e = g.e(3)
            prog.append(e if isinstance(e, list) else ["list", e])
        else:
            prog.append(g.assign(2))
        if r.random() < 0.5:
            prog.append(["list"] + NAMES)
    prog.append(["list"] + NAMES)
    return {"prog": prog}


def check(env, case):
    it, exp = check_prog(env, case)
    labels_from(env, it, exp)
    env.nontrivial(calls(it, "def", "gdef", "setf", "delvar", "defn", "gdefn") >= 3 and any(isinstance(f, list) and f and f[0] in ("defn", "gdefn") for f in case["prog"]) or calls(it, "apply", "map") > 0)
