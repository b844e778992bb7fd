import os
from ..gens import rint, rdbl, rstr, choose
from ..common import *
from .. import build
from .. import model as M

TITLE = "The standard library functions and macros do what their comments say"
STATEMENT = ("After importing the standard library, second, length, strlen and dict-len give the second element, and the number of elements, characters and entries; find gives the index of the first equal element of a list or character of a string, or -1; "
             "dotimes runs its statement for 0, 1, ... below the count and removes its counter afterwards, foreach calls the function with every element in order, setq assigns, "
             "and defstruct generates a constructor, a type predicate and one accessor per field which agree with each other. isCpp is true, isNET and isHaxe are false, and the expression builders give the documented call and parameter lists.")
OVER = ["programs"]
QUANT = "all lists, strings, dictionaries, counts, functions and field lists, used at global level, nested and inside of functions"
WHY = "The library is tested with a few fixed calls; nested loops, loops in functions, empty containers and arbitrary structs are not."
MECH = [("standard library", F_LIB), ("macros", F_INT), ("import", F_ENV + " Import")]
FILES = [F_LIB, F_INT, F_ENV]
TECHNIQUE = "property-based differential testing against independent definitions of the library functions in the reference interpreter"
QUICK, THOROUGH = 8000, 60000
RULE = "sessions which import the library and use 3-10 generated calls; non-trivial = at least 3 library functions or macros were evaluated"
LIB = os.path.join(build.REPO, "Library", "fuellib.fuel")


def sym_list(*a):
    return M.LList([M.Sym(x) for x in a])


def install(it):
    """independent definitions"""
    g = it.glob.vars

    def f(name, n, special=False):
        def deco(fn):
            def h(it, args, scope):
                if not special:
                    args = (list(args) + [M.NIL] * n)[:n]
                return fn(it, args, scope)
            g[name] = M.Builtin(name, h, special)
        return deco

    @f("second", 1)
    def _(it, a, s):
        v = a[0]
        if isinstance(v, str):
            return M.substring(v, 1)[:1]
        return M.elem(M.listval(v), 1)

    for n in ("length", "strlen", "dict-len"):
        g[n] = M.Builtin(n, (lambda it, args, s: M.b_len(it, (list(args) + [M.NIL])[:1], s)), False)
    for n, v in (("isNET", False), ("isCpp", True), ("isHaxe", False)):
        g[n] = M.Builtin(n, (lambda v: lambda it, args, s: v)(v), False)

    @f("find", 2)
    def _(it, a, s):
        key, l = a
        items = list(l) if isinstance(l, str) else M.listval(l)
        it.tick(len(items) * 10)
        for i, e in enumerate(items):
            if M.equal_op(key, M.unraw(e)):
                return i
        return -1

    @f("setq", 2, True)
    def _(it, a, s):
        return M.b_setf(it, a, s)

    @f("dotimes", 2, True)
    def _(it, a, s):
        c, n = a[0].l.items
        s.vars[c.name] = 0
        while True:
            lim = it.value(n, s)
            if not M.less(it.resolve(c.name, s), lim, False):
                break
            it.eval(a[1], s)
            if s.in_return:
                raise M.OutOfDomain("return from a loop macro")
            it.tick(20)
            it.set_in_scopes(c.name, M.arith("+", it.resolve(c.name, s), 1), s)
        s.vars.pop(c.name, None)
        return True

    @f("foreach", 2)
    def _(it, a, s):
        l, fn = a
        items = list(l) if isinstance(l, str) else M.listval(l)
        if items and not isinstance(fn, (M.Func, M.Builtin)):
            raise M.LispErr(None)
        for e in list(items):
            it.tick(10)
            it.call(fn, [M.unraw(e)], s)
        return len(items) if items else M.UNDEF

    @f("arg-list-expression", 1)
    def _(it, a, s):
        return sym_list(*["p%d" % i for i in range(a[0])])

    @f("arg-list-with-obj-expression", 2)
    def _(it, a, s):
        return M.LList([a[0]] + ["" for _ in ()] + [M.Sym("p%d" % i) for i in range(a[1])])

    @f("create-call-expression", 4)
    def _(it, a, s):
        return M.LList([a[0]] + ([a[2]] if a[2] is not M.NIL and not (isinstance(a[2], M.LList) and not a[2].items) else []) + [M.Sym(M.to_text(a[1]))] + [M.Sym("p%d" % i) for i in range(a[3])])

    @f("defstruct", 1, True)
    def _(it, a, s):
        name = a[0].name
        fields = [x.name for x in a[1:]]
        tag = M.Sym("#" + name)

        def make(it, args, s):
            args = (list(args) + [M.NIL] * len(fields))[:len(fields)]
            return M.LList([tag] + args)

        def is_p(it, args, s):
            d = (list(args) + [M.NIL])[0]
            if not isinstance(d, M.LList):
                return False
            if not d.items:
                raise M.LispErr(None)
            return M.equal_op(M.unraw(d.items[0]), tag)
        s.vars["make-" + name] = M.Builtin("make", make, False)
        s.vars["is-" + name + "-p"] = M.Builtin("is", is_p, False)
        for i, fl in enumerate(fields):
            def get(it, args, s, i=i):
                d = (list(args) + [M.NIL])[0]
                if isinstance(d, str):
                    return M.substring(d, i + 1, 1)
                return M.elem(M.listval(d), i + 1)
            s.vars["get-" + name + "-" + fl] = M.Builtin("get", get, False)
        return False


def val(r):
    return choose(r, [(4, lambda: r.randint(0, 5)), (2, lambda: rstr(r, 3)), (1, lambda: rdbl(r)), (1, lambda: r.random() < 0.5), (0.6, lambda: None), (1, lambda: {"q": [1, 2]}), (0.5, lambda: {"q": "a"})])()


def seq(r):
    return choose(r, [(4, lambda: ["list"] + [val(r) for _ in range(r.choice([0, 1, 2, 3, 5, 9]))]), (2, lambda: {"q": [r.randint(0, 9) for _ in range(r.choice([0, 1, 2, 3, 4, 5, 6, 12]))]}), (3, lambda: rstr(r, r.choice([6, 6, 15]))), (0.3, lambda: val(r)), (0.7, lambda: "l0")])()


class G(object):
    def __init__(self, r):
        self.r = r
        self.n = 0
        self.structs = {}

    def loop(self, d, env):
        r = self.r
        self.n += 1
        c = r.choice(["c%d" % self.n, "i", "j"]) if d > 1 else "c%d" % self.n
        if c in env:
            c = "k%d" % self.n
        env = env + [c]
        body = choose(r, [(3, lambda: ["println"] + r.sample(env, min(len(env), r.randint(1, 3)))), (2, lambda: ["setf", "acc", ["append", "acc", ["list"] + [r.choice(env)]]]),
                          (2 if d > 0 else 0, lambda: self.loop(d - 1, env)), (1.5, lambda: ["do", ["setf", "acc", ["cons", c, "acc"]], ["println", c]]),
                          (1, lambda: ["setq", "x", ["+", "x", c]]), (1, lambda: ["foreach", ["list", c, 7], ["lambda", ["e"], ["println", {"s": "e"}, "e"]]])])()
        lim = choose(r, [(4, r.randint(0, 4)), (1, ["len", "l0"]), (1, "x") if False else (1, ["+", 1, 1]), (0.2, {"d": "2.5"}), (0.5, env[0] if len(env) > 1 else 2), (0.2, -1)])
        return ["dotimes", [c, lim], body]


def gen(r, tier):
    g = G(r)
    prog = [["def", "acc", {"q": []}], ["def", "x", 3], ["def", "l0", seq(r) if r.random() < 0.9 else None]]
    if prog[2][2] == "l0":
        prog[2][2] = {"q": [3, 1, 2]}
    for _ in range(r.randint(3, 10)):
        k = r.random()
        if k < 0.12:
            prog.append([r.choice(["second", "length", "strlen"]), seq(r)])
        elif k < 0.17:
            prog += [["def", "d", ["make-dict"]], ["dict-set", "d", val(r) if False else r.randint(0, 3), 1], ["dict-set", "d", r.randint(0, 3), 2], ["dict-len", "d"]]
        elif k < 0.35:
            s = seq(r)
            key = val(r)
            if isinstance(s, list) and len(s) > 1 and r.random() < 0.6:
                key = r.choice(s[1:])
            elif isinstance(s, dict) and "s" in s and s["s"] and r.random() < 0.7:
                key = {"s": r.choice(s["s"])}
            prog.append(["find", key, s])
        elif k < 0.55:
            lp = g.loop(2, [])
            prog.append(["do", lp, ["println", lp[1][0]], ["list", "acc", "x", lp[1][0]]])
        elif k < 0.63:
            f = "f%d" % len(prog)
            prog += [["defn", f, ["n"], ["do", ["def", "loc", 0], ["dotimes", ["q", "n"], ["setf", "loc", ["+", "loc", "q", 1]]], ["list", "loc", "n", "q"]]], [f, r.choice([0, 1, 2, 3, 4, 9, 13])], [f, 2]]
        elif k < 0.75:
            prog.append(["do", ["foreach", seq(r), choose(r, [(3, ["lambda", ["e"], ["println", "e"]]), (2, ["lambda", ["e"], ["setf", "acc", ["cons", "e", "acc"]]]), (0.3, 5)])], ["list", "acc"]])
        elif k < 0.8:
            prog.append(["setq", r.choice(["x", "acc", "nosuch"]), val(r)])
        elif k < 0.9:
            name = r.choice(["pt", "person", "a-b", "s1"])
            fields = r.sample(["px", "py", "nm", "z1", "w-w", "f6", "f7", "f8", "f9"], r.choice([0, 1, 2, 3, 4, 9]))
            if name in g.structs:
                fields = g.structs[name]
            else:
                prog.append(["do", ["defstruct", name] + fields, ["println", "__i"], ["nop"]])
                g.structs[name] = fields
            v = "v%d" % len(prog)
            prog.append(["def", v, ["make-" + name] + [val(r) for _ in fields]])
            others = sorted(g.structs)
            prog.append(["list"] + [["is-%s-p" % o, v] for o in others] + [["get-%s-%s" % (name, f), v] for f in fields])
            prog.append(["is-%s-p" % name, val(r)])
            if fields:
                i = r.randrange(len(fields))
                prog += [["setf", ["nth", i + 1, v], 55], ["list", ["get-%s-%s" % (name, fields[i]), v], v]]
        elif k < 0.95:
            prog.append(r.choice([["arg-list-expression", r.choice([0, 1, 2, 3, 5, 11])], ["arg-list-with-obj-expression", {"q": "obj"}, r.choice([0, 1, 2, 4, 10])],
                                  ["create-call-expression", {"q": "call"}, {"s": "Meth"}, {"q": "obj"}, r.choice([0, 1, 2, 3, 12])], ["create-call-expression", {"q": "call-static"}, {"q": "m"}, None, r.randint(0, 3)]]))
        else:
            prog.append(["list", ["isCpp"], ["isNET"], ["isHaxe"]])
    prog.append(["list", "acc", "x", "l0"])
    return {"prog": prog}


USED = ("second", "length", "strlen", "dict-len", "find", "setq", "dotimes", "foreach", "defstruct", "make", "is", "get", "arg-list-expression", "arg-list-with-obj-expression", "create-call-expression", "isCpp")


def check(env, case):
    prog = case["prog"]
    it = M.Interp(max_steps=12000)
    install(it)
    exp = []
    for f in prog:
        (k, v), out = it.outcome([f])
        exp.append(((k, M.typed(v) if k == "ok" else v), out))
    res = env.worker.session(["(import \"%s\")" % LIB] + [M.render(f) for f in prog])
    if not res[0].ok or res[0].out:
        env.fail("importing the library: %s" % res[0].brief())
    for f, e, q in zip(prog, exp, res[1:]):
        m = M.mismatch(e[0], e[1], q, False)
        if m:
            env.fail("%s\n in %s\n %s" % (M.render(f), "\n ".join(M.render(x) for x in prog), m))
    labels_from(env, it, exp)
    env.nontrivial(sum(it.stats.get(n, 0) for n in USED) >= 3)
