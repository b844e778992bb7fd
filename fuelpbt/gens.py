"""Typed random programs in source form (see model.render)."""
import math

INTS = [0, 1, -1, 2, 3, 5, 7, 8, 10, 31, 32, 33, 100, 255, 256, 1000, 65535, 65536, 46340, 46341, -46341,
        2147483647, 2147483646, -2147483648, -2147483647, 1073741824, -1073741824]
DBLS = ["0.0", "0.5", "1.0", "-1.0", "1.5", "2.5", "-2.5", "3.0", "0.1", "0.25", "100.0", "1e3", "-0.0", "123456.789",
        "1e-9", "1e9", "2147483647.0", "2147483648.5", "-3.75", "0.001", "1e15", "4.0", "10.0"]
STRS = ["", "a", "b", "ab", "abc", "A", "Hello World", " x ", "1", "42", "-7", "3.5", "nil", "x y", "(a b)", "'", "tt",
        "aab", "aaaa", "#t", "zz", "foo;bar", "{0}", "back\\slash", "quo\"te", "line\nbreak", "tab\there"]


def rint(r):
    k = r.random()
    if k < 0.55:
        return r.randint(-10, 20)
    if k < 0.75:
        return r.choice(INTS)
    if k < 0.9:
        return r.randint(-1000, 1000)
    return r.randint(-2147483648, 2147483647)


def rdbl(r):
    k = r.random()
    if k < 0.5:
        return {"d": r.choice(DBLS)}
    if k < 0.8:
        return {"d": "%d.%d" % (r.randint(-50, 50), r.choice([0, 5, 25, 75, 125]))}
    if k < 0.94:
        return {"d": repr(r.uniform(-1e6, 1e6))}
    return {"d": "%.*f" % (r.choice([1, 3, 6, 9]), r.uniform(-1, 1) * 10 ** r.randint(-6, 18))}


ALPHA = "abcxyzABC019 _-+.,;'(){}[]\"\\\n\t#@`~/*\x00\xe4\xff"


def rtext(r, maxlen=12, alpha=ALPHA):
    k = r.random()
    if k < 0.4:
        return r.choice(STRS)
    if k < 0.6:
        return "".join(r.choice("ab") for _ in range(r.randint(0, maxlen)))
    return "".join(r.choice(alpha) for _ in range(r.randint(0, maxlen)))


def rstr(r, maxlen=12):
    return {"s": rtext(r, maxlen)}


def num_like(s):
    """does a string start like a number"""
    return False


def choose(r, weighted):
    tot = sum(w for w, _ in weighted)
    x = r.random() * tot
    for w, v in weighted:
        x -= w
        if x < 0:
            return v
    return weighted[-1][1]


class Gen(object):
    """weights: category -> weight of its productions (default 1)"""

    def __init__(self, r, weights=None, err=0.03, names=None, max_depth=4, default=1.0):
        self.r = r
        self.w = weights or {}
        self.default = default
        self.err = err
        self.max_depth = max_depth
        self.vars = [{}]            # stack of scopes: name -> type
        self.funs = {}              # name -> (arg types, result type)
        self.counter = 0
        self.protected = set()

    # -- names
    def fresh(self, base="v"):
        self.counter += 1
        return "%s%d" % (base, self.counter)

    def names_of(self, typ):
        out = []
        for s in self.vars:
            for n, t in s.items():
                if t == typ or typ == "any" and t != "fun" or typ == "num" and t in ("int", "dbl") or typ == "list" and t in ("ilist", "slist"):
                    out.append(n)
        return out

    def cat(self, c):
        return self.w.get(c, self.default)

    # -- expressions
    def expr(self, typ, d=None):
        r = self.r
        if d is None:
            d = self.max_depth
        if self.err and r.random() < self.err:
            typ = r.choice(["int", "dbl", "bool", "str", "list", "any", "nil"])
        if typ == "any":
            typ = choose(r, [(4, "int"), (2, "dbl"), (2, "bool"), (3, "str"), (3, "list"), (0.5, "nil"), (0.4, "sym")])
        if typ == "num":
            typ = "int" if r.random() < 0.65 else "dbl"
        vs = self.names_of(typ)
        if vs and r.random() < (0.35 if d > 0 else 0.6):
            return r.choice(vs)
        if d <= 0 or r.random() < 0.18:
            return self.leaf(typ)
        prods = getattr(self, "p_" + typ)()
        prods = [(w, p) for w, p in prods if w > 0]
        return choose(r, prods)(d - 1)

    def leaf(self, typ):
        r = self.r
        if typ == "int":
            return rint(r)
        if typ == "dbl":
            return rdbl(r)
        if typ == "bool":
            return r.random() < 0.5
        if typ == "str":
            return rstr(r)
        if typ == "ilist":
            n = r.choice([0, 1, 2, 3, 4, 5])
            e = [rint(r) for _ in range(n)]
            return {"q": e} if r.random() < 0.5 else ["list"] + e
        if typ == "slist":
            e = [rstr(r, 5) for _ in range(r.randint(0, 4))]
            return ["list"] + e
        if typ == "list":
            return self.list_leaf(2)
        if typ == "nil":
            return r.choice([None, {"q": []}, None])
        if typ == "sym":
            return {"q": r.choice(["a", "foo", "x-y", "q1", "+"])}
        if typ == "fun1":
            return self.fun_expr(["int"], "int")
        if typ == "fun2":
            return self.fun_expr(["int", "int"], "int")
        raise KeyError(typ)

    def quoted_item(self, depth):
        r = self.r
        k = r.random()
        if k < 0.4:
            return rint(r)
        if k < 0.5:
            return rdbl(r)
        if k < 0.65:
            return rstr(r, 5)
        if k < 0.72:
            return r.random() < 0.5
        if k < 0.8:
            return r.choice(["sy", "foo", "a-b"])
        if k < 0.83:
            return None
        if depth > 0:
            return [self.quoted_item(depth - 1) for _ in range(r.randint(0, 3))]
        return rint(r)

    def list_leaf(self, depth):
        r = self.r
        if r.random() < 0.55:
            return {"q": [self.quoted_item(depth) for _ in range(r.choice([0, 1, 1, 2, 3, 4, 5]))]}
        return ["list"] + [self.leaf(r.choice(["int", "str", "bool", "dbl"])) if depth <= 0 or r.random() < 0.7 else self.list_leaf(depth - 1)
                           for _ in range(r.choice([0, 1, 1, 2, 3, 4]))]

    def generic(self, typ, d):
        """forms which can have any type"""
        r = self.r
        out = [
            (0.7 * self.cat("if"), lambda d: ["if", self.expr("bool", d), self.expr(typ, d), self.expr(typ, d)]),
            (0.4 * self.cat("do"), lambda d: ["do"] + [self.sub_stmt(d) for _ in range(r.randint(0, 2))] + [["nth", 0, ["list", self.expr(typ, d)]] if r.random() < 0.3 else self.as_call(typ, d)]),
            (0.3 * self.cat("eval"), lambda d: ["eval", {"q": self.expr(typ, d)}]),
            (0.3 * self.cat("lambda"), lambda d: self.let_lambda(typ, d)),
        ]
        fs = [n for n, (a, t) in self.funs.items() if t == typ]
        if fs:
            out.append((2.5 * self.cat("call"), lambda d: self.call_user(r.choice(fs), d)))
        return out

    def as_call(self, typ, d):
        e = self.expr(typ, d)
        return e if isinstance(e, list) and e else ["first", ["list", e]]

    def let_lambda(self, typ, d):
        """(apply (lambda (p) body) (list arg))"""
        r = self.r
        p = self.fresh("p")
        t = r.choice(["int", "str", "ilist", "bool", "dbl"])
        arg = self.expr(t, d)
        self.vars.append({p: t})
        body = self.expr(typ, d)
        self.vars.pop()
        return ["apply", ["lambda", [p], body], ["list", arg]]

    def call_user(self, name, d):
        r = self.r
        args, _ = self.funs[name]
        e = [name] + [self.expr(t, min(d, 2)) for t in args]
        if r.random() < 0.04 and len(e) > 1:
            e.pop()
        elif r.random() < 0.04:
            e.append(self.expr("int", 0))
        return e

    def p_int(self):
        r = self.r
        A, L, S, B = self.cat("arith"), self.cat("list"), self.cat("str"), self.cat("bits")
        return self.generic("int", 0) + [
            (3 * A, lambda d: [r.choice(["+", "-", "*", "+", "-", "add", "sub", "mul"])] + [self.expr("int", d) for _ in range(r.choice([1, 2, 2, 2, 3, 4]))]),
            (1 * A, lambda d: [r.choice(["/", "%", "div", "mod"])] + [self.expr("int", d) for _ in range(r.choice([2, 2, 2, 3, 1]))]),
            (0.8 * B, lambda d: [r.choice(["<<", ">>", "&", "|", "^"]), self.expr("int", d), self.expr("int", d)]),
            (0.2 * B, lambda d: ["~", self.expr("int", d)]),
            (0.7 * L, lambda d: [r.choice(["len"]), self.expr(r.choice(["list", "ilist", "str"]), d)]),
            (1.2 * L, lambda d: [r.choice(["first", "last", "car"]), self.ne_ilist(d)]),
            (0.8 * L, lambda d: ["nth", r.choice([0, 0, 1, 1, 2, self.expr("int", 0)]), self.ne_ilist(d)]),
            (0.7 * self.cat("hof"), lambda d: ["reduce", self.fun_expr(["int", "int"], "int"), self.expr("ilist", d), self.expr("int", d)]),
            (0.5 * S, lambda d: ["search", self.expr("str", d), self.expr("str", d)]),
            (0.4 * self.cat("conv"), lambda d: ["int", choose(r, [(2, self.small_dbl), (1, lambda: self.expr("bool", d)), (2, lambda: {"s": str(rint(r))})])()]),
            (0.2 * self.cat("conv"), lambda d: ["parse-integer", {"s": str(rint(r))}]),
            (0.3 * self.cat("conv"), lambda d: ["type", self.expr("any", d)]),
            (0.4 * self.cat("hof"), lambda d: ["apply", r.choice(["+", "*", "-"]), self.ne_ilist(d)]),
        ]

    def small_dbl(self):
        r = self.r
        return {"d": repr(round(r.uniform(-1000, 1000), 3))}

    def ne_ilist(self, d):
        r = self.r
        if r.random() < 0.5:
            return ["list"] + [self.expr("int", d - 1) for _ in range(r.randint(1, 4))]
        if r.random() < 0.5:
            return ["cons", self.expr("int", d - 1), self.expr("ilist", d - 1)]
        return self.expr("ilist", d)

    def p_dbl(self):
        r = self.r
        A = self.cat("arith")
        return self.generic("dbl", 0) + [
            (3 * A, lambda d: self.mixed(r.choice(["+", "-", "*", "/"]), d)),
            (0.6 * A, lambda d: ["%", self.expr("dbl", d), self.expr(r.choice(["dbl", "int"]), d)]),
            (0.5 * self.cat("conv"), lambda d: ["float", self.expr("int", d)]),
            (0.2 * A, lambda d: ["-", self.expr("dbl", d)]),
        ]

    def mixed(self, op, d):
        r = self.r
        n = r.choice([2, 2, 2, 3])
        e = [self.expr("num", d) for _ in range(n)]
        e[r.randrange(n)] = self.expr("dbl", d)
        return [op] + e

    def p_bool(self):
        r = self.r
        C, L = self.cat("cmp"), self.cat("logic")
        return self.generic("bool", 0) + [
            (2 * C, lambda d: [r.choice(["<", "<=", ">", ">="]), self.expr("num", d), self.expr("num", d)]),
            (0.7 * C, lambda d: [r.choice(["<", "<=", ">", ">="]), self.expr("str", d), self.expr("str", d)]),
            (1.5 * C, lambda d: (lambda t: [r.choice(["=", "==", "!=", "equal"]), self.expr(t, d), self.expr(t, d)])(r.choice(["int", "str", "list", "bool", "dbl", "num", "any"]))),
            (0.3 * C, lambda d: [r.choice(["=", "!="]), self.expr("any", d), self.expr("any", d)]),
            (1.5 * L, lambda d: [r.choice(["and", "or", "&&", "||"])] + [self.expr("bool", d) for _ in range(r.choice([0, 1, 2, 2, 3, 4]))]),
            (0.8 * L, lambda d: [r.choice(["not", "!"]), self.expr("bool", d)]),
        ]

    def p_str(self):
        r = self.r
        S = self.cat("str")
        return self.generic("str", 0) + [
            (2 * S, lambda d: ["+", self.expr("str", d)] + [self.expr(r.choice(["str", "str", "int", "dbl"]), d) for _ in range(r.choice([1, 1, 2]))]),
            (1 * S, lambda d: ["slice", self.expr("str", d), r.randint(0, 4), r.randint(-1, 5)]),
            (0.6 * S, lambda d: [r.choice(["first", "last", "rest", "reverse", "car", "cdr"]), self.expr("str", d)]),
            (0.5 * S, lambda d: ["nth", r.randint(0, 4), self.expr("str", d)]),
            (0.8 * S, lambda d: [r.choice(["trim", "lower-case", "upper-case"]), self.expr("str", d)]),
            (0.6 * S, lambda d: ["replace", self.expr("str", d), {"s": r.choice(["a", "b", "ab", "aa", "x", "1", " "])}, rstr(r, 3)]),
            (0.8 * self.cat("conv"), lambda d: ["str", self.expr("any", d)]),
            (0.6 * self.cat("format"), lambda d: ["format", {"s": r.choice(["{0}", "{0} {1}", "<{1}:{0}>", "{0,5}|{1,-5}|", "x{2}y{0}", "{0}{0}"])}] + [self.expr(r.choice(["int", "str", "bool", "dbl"]), d) for _ in range(r.choice([1, 2, 3]))]),
            (0.3 * self.cat("conv"), lambda d: ["typestr", self.expr("any", d)]),
            (0.5 * self.cat("print"), lambda d: [r.choice(["print", "println"])] + [self.expr("any", d) for _ in range(r.choice([0, 1, 1, 2, 3]))]),
        ]

    def p_ilist(self):
        r = self.r
        L, H = self.cat("list"), self.cat("hof")
        return self.generic("ilist", 0) + [
            (1.5 * L, lambda d: ["list"] + [self.expr("int", d) for _ in range(r.choice([0, 1, 2, 3, 4]))]),
            (1 * L, lambda d: ["cons", self.expr("int", d), self.expr("ilist", d)]),
            (1 * L, lambda d: [r.choice(["rest", "cdr", "reverse"]), self.expr("ilist", d)]),
            (1 * L, lambda d: [r.choice(["append", "append", "+"])] + [self.expr("ilist", d) for _ in range(r.choice([2, 2, 3]))]),
            (1 * H, lambda d: ["map", self.fun_expr(["int"], "int"), self.expr("ilist", d)]),
            (0.4 * self.cat("quasi"), lambda d: {"qq": [r.choice([rint(r), {"u": self.expr("int", d)}, {"us": self.expr("ilist", d)}]) for _ in range(r.choice([1, 3, 4]))]}),
            (0.5, lambda d: self.leaf("ilist")),
        ]

    def p_slist(self):
        return [(1, lambda d: self.leaf("slist"))]

    def p_list(self):
        r = self.r
        L, H = self.cat("list"), self.cat("hof")
        return self.generic("list", 0) + [
            (1.5 * L, lambda d: ["list"] + [self.expr("any", d) for _ in range(r.choice([0, 1, 2, 3, 4]))]),
            (1 * L, lambda d: ["cons", self.expr("any", d), self.expr(r.choice(["list", "ilist", "list", "nil"]), d)]),
            (1 * L, lambda d: [r.choice(["rest", "cdr", "reverse"]), self.expr("list", d)]),
            (1 * L, lambda d: [r.choice(["append", "append", "+"]), self.expr("list", d), self.expr(r.choice(["list", "ilist"]), d)]),
            (0.8 * H, lambda d: ["map", self.fun_expr(["any"], "any"), self.expr("list", d)]),
            (0.6 * self.cat("quasi"), lambda d: {"qq": [r.choice([self.quoted_item(1), {"u": self.expr("any", d)}, {"us": self.expr("list", d)}]) for _ in range(r.choice([1, 3, 4]))]}),
            (1, lambda d: self.leaf("list")),
        ]

    def p_nil(self):
        return [(1, lambda d: self.leaf("nil"))]

    def p_sym(self):
        return [(1, lambda d: self.leaf("sym"))]

    def p_fun1(self):
        return [(1, lambda d: self.fun_expr(["int"], "int"))]

    def p_fun2(self):
        return [(1, lambda d: self.fun_expr(["int", "int"], "int"))]

    def fun_expr(self, args, res):
        r = self.r
        fs = [n for n, (a, t) in self.funs.items() if a == args and t == res]
        if fs and r.random() < 0.4:
            return r.choice(fs)
        if args == ["int", "int"] and r.random() < 0.3:
            return r.choice(["+", "*", "-"])
        ps = [self.fresh("p") for _ in args]
        self.vars.append(dict(zip(ps, args)))
        body = self.expr(res, 2)
        self.vars.pop()
        return [r.choice(["lambda", "fn"]), ps, body]

    # -- statements
    def sub_stmt(self, d):
        r = self.r
        k = r.random()
        if k < 0.5:
            return ["println", self.expr("any", min(d, 1))]
        n = self.assignable()
        if n is not None and k < 0.8:
            return ["setf", n, self.expr(self.type_of(n), min(d, 2))]
        return ["print", self.expr("any", min(d, 1))]

    def assignable(self):
        names = [n for s in self.vars for n, t in s.items() if n not in self.protected and t in ("int", "dbl", "bool", "str", "ilist", "list")]
        return self.r.choice(names) if names else None

    def type_of(self, n):
        for s in reversed(self.vars):
            if n in s:
                return s[n]
        return "int"

    def stmt(self, d=3):
        r = self.r
        prods = [
            (3 * self.cat("def"), self.s_def),
            (2 * self.cat("print"), lambda d: ["println"] + [self.expr("any", d) for _ in range(r.choice([1, 1, 2]))]),
            (2, lambda d: self.as_call("any", d)),
            (1.5 * self.cat("setf"), self.s_setf),
            (0.8 * self.cat("while"), self.s_while),
            (1 * self.cat("if"), lambda d: ["if", self.expr("bool", d), self.block(d), self.block(d)][:r.choice([3, 4, 4])]),
            (1 * self.cat("defn"), self.s_defn),
            (0.5 * self.cat("do"), lambda d: self.block(d)),
            (0.8 * self.cat("mutate"), self.s_mutate),
        ]
        return choose(r, [(w, p) for w, p in prods if w > 0])(d - 1)

    def block(self, d):
        """a do block; definitions inside stay in the enclosing scope"""
        n = self.r.randint(1, 3)
        saved = [dict(s) for s in self.vars]
        out = ["do"] + [self.stmt(max(d - 1, 1)) for _ in range(n)]
        # names defined only there may be undefined afterwards
        self.vars = saved
        return out

    def s_def(self, d):
        r = self.r
        t = choose(r, [(4, "int"), (2, "dbl"), (2, "bool"), (3, "str"), (3, "ilist"), (3, "list")])
        old = [n for n in self.names_of(t) if n not in self.protected]
        n = r.choice(old) if old and r.random() < 0.2 else self.fresh()
        e = [r.choice(["def", "def", "def", "gdef"]) if len(self.vars) == 1 else "def", n, self.expr(t, d)]
        self.vars[-1][n] = t
        return e

    def s_setf(self, d):
        n = self.assignable()
        if n is None:
            return self.s_def(d)
        return ["setf", n, self.expr(self.type_of(n), d)]

    def s_mutate(self, d):
        r = self.r
        ls = [n for n in self.names_of("list") + self.names_of("ilist")]
        if not ls:
            return self.s_def(d)
        n = r.choice(ls)
        t = "int" if self.type_of(n) == "ilist" else "any"
        k = r.random()
        if k < 0.35:
            return ["push", self.expr(t, d), n] + ([r.randint(0, 2)] if r.random() < 0.4 else [])
        if k < 0.65:
            return ["pop", n] + ([r.randint(0, 2)] if r.random() < 0.4 else [])
        if k < 0.85:
            return ["setf", [r.choice(["first", "last"]), n], self.expr(t, d)]
        return ["setf", ["nth", r.randint(0, 2), n], self.expr(t, d)]

    def s_while(self, d):
        r = self.r
        i = self.fresh("i")
        n = r.randint(0, 4)
        self.vars[-1][i] = "int"
        self.protected.add(i)
        body = [self.stmt(max(1, d - 1)) for _ in range(r.randint(0, 2))]
        return ["do", ["def", i, 0],
                ["while", ["<", i, n], ["do"] + body + [["setf", i, ["+", i, 1]]]]]

    def s_defn(self, d):
        r = self.r
        f = self.fresh("f")
        args = [choose(r, [(4, "int"), (1, "str"), (1, "ilist"), (1, "list"), (1, "bool"), (1, "dbl")]) for _ in range(r.choice([0, 1, 1, 2, 2, 3]))]
        res = choose(r, [(4, "int"), (1, "str"), (1, "ilist"), (1, "list"), (1, "bool"), (1, "dbl")])
        ps = [self.fresh("p") for _ in args]
        # only global names and the parameters are visible
        self.vars.append(dict(zip(ps, args)))
        body = []
        for _ in range(r.choice([0, 0, 1, 2])):
            body.append(self.stmt(2))
        tail = self.as_call(res, 2)
        if r.random() < 0.2 * self.cat("return"):
            tail = ["do", ["if", self.expr("bool", 1), ["return", self.expr(res, 1)]], tail]
        self.vars.pop()
        code = tail if not body else ["do"] + body + [tail]
        out = [r.choice(["defn", "defn", "gdefn"]) if len(self.vars) == 1 else "defn", f, ps, code] if r.random() < 0.8 else ["def", f, ["lambda", ps, code]]
        if len(self.vars) == 1:
            self.funs[f] = (args, res)
        return out

    def program(self, n):
        return [self.stmt() for _ in range(n)]
