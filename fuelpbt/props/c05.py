import os
import re
from ..gens import rint, choose
from ..common import *

TITLE = "Run-time errors name the exact line, module and call stack"
STATEMENT = ("When a call of an unknown function, or of a built-in with a wrong number of arguments, fails, the reported error names that function, the module (script, imported file or evaluated string) and the line of the failing call's function name in the text of that module, counted over comments, multi-line strings and blank lines, together with the character range of that name (which may begin with white space or comments standing before the name). "
             "The call stack of the error lists the active calls from the script down to the failing function, each with the function's name (empty for anonymous functions), its module and the line at which it is executing. "
             "If arguments of a call are calls themselves, a reported line may lie anywhere inside of the call's text, otherwise it is exact.")
OVER = ["programs"]
QUANT = "all chains of function calls through nested control forms, map/apply/reduce, evalstr and imported modules, with arbitrary layout (comments, blank lines, strings containing newlines or semicolons) and arbitrary earlier calls"
WHY = "Tests check one or two fixed scripts; the line of every call in every layout and of every frame of a call stack is a space of programs."
MECH = [("line numbers of tokens", F_TOK + " Tokenize"), ("current token", F_INT + " EvalAst"), ("error data", F_EXC + " AddModuleNameAndStackInfos, AddTokenInfos"), ("call stack", F_SCO + " DumpStackToString"), ("module names", F_SCO + ", " + F_ENV)]
FILES = [F_TOK, F_INT, F_EXC, F_SCO, F_ENV, F_LSP]
TECHNIQUE = "property-based testing: generated call chains whose failing position is known by construction"
QUICK, THOROUGH = 32000, 300000
RULE = "programs of up to 6 functions in up to 3 modules, the innermost of which fails at a position known by construction; non-trivial = at least 2 frames and the failing call is not on line 1"

SEPS = [" ", "\n", "\n\n  ", " ; a comment ( \" ' x\n", "\t", "  ", "\r\n", "\n;\n", "\n; c1\n; c2 )\n   ", ";direct\n", ";\n;;\n"]
FAILS = [("undefd1", ["1"], 'Function "undefd1" not found'), ("nosuch-fn", [], 'Function "nosuch-fn" not found'), ("first", ["1", "2", "3"], "Bad argument count in first, has 3 expected 1"),
         ("nth", ["1"], "Bad argument count in nth, has 1 expected 2"), ("dict-get", [], "Bad argument count in dict-get, has 0 expected 2"), ("not", [], "Bad argument count in not, has 0 expected 1"),
         ("slice", ["\"a;b\"", "1"], "Bad argument count in slice, has 2 expected 3"), ("trim", [], "Bad argument count in trim, has 0 expected 1"), ("search", ["x"], "Bad argument count in search, has 1 expected between 2 and 4"),
         ("parse-integer", [], "Bad argument count in parse-integer, has 0 expected 1"), ("pop", [], "Bad argument count in pop, has 0 expected between 1 and 2"),
         ("if", ["1"], "Bad argument count in if, has 1 expected between 2 and 3"), ("while", ["#t"], "Bad argument count in while, has 1 expected 2"), ("quote", [], "Bad argument count in quote, has 0 expected 1"),
         ("gone", ["\"two\nlines\""], 'Function "gone" not found'), ("return", [], "Bad argument count in return, has 0 expected 1"), ("rest", ["x", "1"], "Bad argument count in rest, has 2 expected 1"), ("reverse", [], "Bad argument count in reverse, has 0 expected 1"),
         ("Math-Sin", [], "Bad argument count in Math-Sin, has 0 expected 1"), ("def", ["q"], None), ("setf", ["q"], None), ("eval", [], "Bad argument count in eval, has 0 expected 1"), ("sym", [], "Bad argument count in sym, has 0 expected 1")]
WRAPS = ["plus", "do", "if1", "if2", "while", "def", "list", "return", "and", "str", "qq", "strarg", "not", "eval", "nested", "setf", "ok", "evalok", "evalok2"]
VIAS = ["call", "call", "call", "call", "map", "apply", "reduce", "evalstr", "callnest", "lambda", "import"]


def gen(r, tier):
    nf = r.choice([0, 1, 1, 2, 2, 3, 4, 6]) if r.random() < 0.97 else r.randint(7, 18)
    nm = r.choice([0, 0, 0, 1, 1, 2])
    frames = []
    for i in range(nf + 1):
        frames.append({"w": [r.choice(WRAPS) for _ in range(r.choice([0, 1, 1, 2, 3]))], "via": r.choice(VIAS), "mod": r.randint(0, nm) if i else 0,
                       "ws": [r.randrange(len(SEPS)) if r.random() < 0.6 else 0 for _ in range(r.choice([1, 3, 5, 11]))],
                       "op": [r.randrange(len(SEPS) + 1) if r.random() < 0.5 else 0 for _ in range(r.choice([1, 2, 5]))] if r.random() < 0.3 else [],
                       "how": r.choice(["defn", "defn", "defn", "gdefn", "def", "lambda"])})
    return {"frames": frames, "fail": r.randrange(len(FAILS)), "fnest": r.random() < 0.1, "order": r.random() < 0.5, "warm": r.choice([0, 0, 1, 2]),
            "entry": r.choice(["eval", "eval", "save", "second", "main", "module", "twice", "savev"]), "lead": r.randrange(len(SEPS)), "short": r.random() < 0.3}


class Text(object):
    def __init__(self):
        self.t = ""

    def line(self):
        return self.t.count("\n") + 1


class Rend(object):
    """renders one frame's expression, noting the position of its inner call"""

    def __init__(self, text, ws, op=None):
        self.x = text
        self.ws = ws or [0]
        self.op = op or [0]      # white space behind opening parentheses (0: none)
        self.j = 0
        self.i = 0
        self.pos = None

    def e(self, s):
        self.x.t += s

    def s(self):
        self.e(SEPS[self.ws[self.i % len(self.ws)] % len(SEPS)])
        self.i += 1

    def open(self):
        self.e("(")
        k = self.op[self.j % len(self.op)]
        self.j += 1
        self.e(SEPS[k % len(SEPS)] if k else "")

    def seq(self, *parts):
        for k, p in enumerate(parts):
            if k:
                self.s()
            if callable(p):
                p()
            else:
                self.e(p)

    def lst(self, *parts):
        self.open()
        self.seq(*parts)
        self.e(")")

    def wrap(self, ws, inner):
        if not ws:
            inner()
            return
        k, rest = ws[0], ws[1:]
        c = lambda: self.wrap(rest, inner)
        if k == "plus":
            self.lst("+", "1", c)
        elif k == "do":
            self.lst("do", lambda: self.lst("+", "1", "2"), c, lambda: self.lst("print", "\"never\""))
        elif k == "if1":
            self.lst("if", "#t", c, "0")
        elif k == "if2":
            self.lst("if", lambda: self.lst("<", "2", "1"), "0", c)
        elif k == "while":
            self.lst("while", "#t", c)
        elif k == "def":
            self.lst("def", "loc", c)
        elif k == "list":
            self.lst("list", "1", lambda: self.lst("list", "2", "x"), c)
        elif k == "return":
            self.lst("return", c)
        elif k == "and":
            self.lst("and", "#t", c)
        elif k == "not":
            self.lst("not", c)
        elif k == "str":
            self.lst("str", c)
        elif k == "eval":
            self.lst("eval", lambda: self.lst("quote", c))
        elif k == "strarg":
            self.lst("list", "\"semi;colon and\nnew ' ( line\"", c)
        elif k == "qq":
            self.e("`")
            self.lst("a", lambda: (self.e(","), c()))
        elif k == "nested":
            self.lst("do", lambda: self.lst("list", lambda: self.lst("+", "1", "2"), lambda: self.lst("list")), c)
        elif k == "setf":
            self.lst("setf", "gv", c)
        elif k == "ok":
            self.lst("do", lambda: self.lst("okf", "3"), c)
        elif k == "evalok2":
            # ... also if it has no value or the value nil
            self.lst("do", lambda: self.lst("list", lambda: self.lst("evalstr", "\"nil\""), lambda: self.lst("evalstr", "\"(if #f\n 1)\"")), c)
        elif k == "evalok":
            # an evaluated text before: positions and module of the rest stay as they are
            self.lst("do", lambda: self.lst("evalstr", "\"(okf\n\n 4)\""), c)
        else:
            raise model.OutOfDomain("wrap")

    def call(self, name, args, nest):
        """the call itself: records where"""
        o = len(self.x.t) + 1
        self.open()
        l0 = self.x.line()
        a = len(self.x.t)
        self.e(name)
        b = len(self.x.t)
        for q in args:
            self.s()
            if nest:
                self.lst("okf", q)
            else:
                self.e(q)
        if len(self.ws) % 2 == 0:
            self.s()
        self.e(")")
        self.pos = {"line": l0, "open": o, "start": a, "stop": b, "lo": l0, "hi": self.x.line(), "exact": not (nest and args), "name": name}


def build_case(env, case, dirname, salt):
    frames = case["frames"]
    if not frames or not isinstance(frames, list):
        raise model.OutOfDomain("no frames")
    fname, fargs, fmsg = FAILS[case["fail"] % len(FAILS)]
    n = len(frames)
    texts = {0: Text()}
    where = []
    for i, f in enumerate(frames):
        # the text a frame's function stands in; an imported frame has a file of its own
        where.append(100 + i if i and frames[i - 1]["via"] == "import" else f["mod"])
        texts.setdefault(where[-1], Text())
    texts[0].t += SEPS[case["lead"] % len(SEPS)].lstrip() if True else ""
    files = sorted(m for m in texts if m)
    mods = [m for m in files if m < 100]
    paths = dict((m, os.path.join(dirname, "mod%d%s.fuel" % (m, salt))) for m in files)
    given = dict((m, "mod%d%s%s" % (m, salt, ".fuel" if m % 2 else "") if case.get("short") else paths[m]) for m in files)      # found in $FUELPATH
    exp = []
    for m in mods:
        texts[0].t += "(import \"%s\")%s" % (given[m], SEPS[case["lead"] % len(SEPS)])
    texts[0].t += "(defn okf (x)\n (do (list x)\n (first (list x))))\n(def gv 0)\n"
    order = list(range(1, n))
    if case["order"]:
        order.reverse()

    def body(i, R, evs):
        f = frames[i]

        def inner():
            if i == n - 1:
                R.call(fname, fargs, case["fnest"] and fargs)
                return
            g = "fun%d" % (i + 1)
            via = f["via"]
            if via == "map":
                R.call("map", [g, "'(1 2)"], False)
            elif via == "apply":
                R.call("apply", [g, "'(1)"], False)
            elif via == "reduce":
                R.call("reduce", [g, "'(1 2)", "0"], False)
            elif via == "callnest":
                R.call(g, ["7", "8"], True)
            elif via == "evalstr":
                # the frame executes inside of the evaluated text
                code = "(+ 1\n (%s\n 5))" % g
                R.call("evalstr", ["\"%s\"" % code], False)
                R.pos.update(evs=code, line=2, lo=2, hi=2)
            elif via == "import":
                R.call("import", ['"%s"' % given[where[i + 1]]], False)
            elif via == "lambda":
                R.call(g, ["\"a\nb\""], False)
            else:
                R.call(g, ["5"], False)
        R.wrap(f["w"], inner)

    pos = {}
    for i in order:
        f = frames[i]
        T = texts[where[i]]
        T.t += "\n" * (i % 3) if case["order"] else SEPS[(f["ws"] or [0])[0] % len(SEPS)]
        R = Rend(T, f["ws"], f.get("op"))
        nm = "fun%d" % i
        if where[i] >= 100:
            body(i, R, None)
        elif f["how"] in ("defn", "gdefn"):
            R.lst(f["how"], nm, "(x y)", lambda: body(i, R, None))
        else:
            R.lst("def" if f["how"] == "def" else "def", nm, lambda: R.lst("lambda" if f["how"] == "lambda" else "fn", "(x y)", lambda: body(i, R, None)))
        pos[i] = R.pos
    T = texts[0]
    for k in range(case["warm"]):
        T.t += "\n(okf\n\n 1) ; warm up\n"
    T.t += SEPS[case["lead"] % len(SEPS)]
    R = Rend(T, frames[0]["ws"], frames[0].get("op"))
    body(0, R, None)
    pos[0] = R.pos
    for m in files:
        with open(paths[m], "w", newline="") as fo:
            fo.write(texts[m].t)
    return T.t, texts, paths, pos, (fname, fmsg), where


def parse_stack(s):
    out = []
    s = s.rstrip("\n")
    for part in re.split(r"\n(?= {0,9}\d+ name=)", s):
        m = re.match(r"\s*(\d+) name=(.*?)\s+lineno=(-?\d+)\s+module=(.*?)\s*$", part, re.S)
        if not m:
            return None
        out.append((int(m.group(1)), m.group(2), int(m.group(3)), m.group(4)))
    return out


def check(env, case):
    env.count = getattr(env, "count", 0) + 1
    d = env.subdir("c05")
    code, texts, paths, pos, (fname, fmsg), where = build_case(env, case, d, env.count)
    w = env.worker
    frames = case["frames"]
    n = len(frames)
    entry = case["entry"]
    main = {"main": "cmdline", "module": "my-module"}.get(entry, "main")
    modname = lambda i: paths[where[i]] if where[i] else main
    want = []
    for i in range(n):
        p = pos[i]
        mod = modname(i)
        if p.get("evs"):
            mod = "<evalstr>:%s:%s" % (mod, p["evs"])
        nm = "<main>" if i == 0 else "import " + paths[where[i]] if where[i] >= 100 else "fun%d" % i if frames[i]["how"] in ("defn", "gdefn") else ""      # anonymous functions have no name
        want.append((i + 1, nm, p, mod))
    f = pos[n - 1]
    what = "%s\n" % "\n".join("--- %s\n%s" % (paths.get(m, main), t.t) for m, t in sorted(texts.items()))

    def line_ok(p, l):
        return l == p["line"] if p["exact"] else p["lo"] <= l <= p["hi"]

    def check_stack(s):
        got = parse_stack(s)
        if got is None or len(got) != n:
            env.fail("%s the call stack should have %d frames (%r): %s" % (what, n, [x[1] for x in want], s))
        for g, x in zip(got, want):
            if g[0] != x[0] or g[1] != x[1] or g[3] != x[3] or not line_ok(x[2], g[2]):
                env.fail("%s frame %r of the call stack should be %r line %s module %r:\n%s" % (what, g, x[1], x[2]["line"], x[3], s))

    w.raw(["setenv", "FUELPATH"] + ([d] if case.get("short") else []))
    if entry in ("save", "main", "savev"):
        q = w.save(code, flags="v" if entry == "savev" else "") if entry != "main" else w.main(["-e", code])
        m = re.search(r"\nError executing script\.\n\n(.*?) --> line=(-?\d+) start=(-?\d+) stop=(-?\d+) module=(.*?)\n\nCallstack:\n(.*?)\n\n", q.out + "\n\n", re.S)
        if not m:
            env.fail("%s no error report in the output %r" % (what, q.out))
        msg, line, start, stop, mod, stack = m.group(1), int(m.group(2)), int(m.group(3)), int(m.group(4)), m.group(5), m.group(6)
    else:
        frs = [code]
        if entry == "second":
            frs = ["(do\n\n(okf0 1))", "(defn h1 (x)\n (do (first)\n1))\n(h1 3)", code]
        elif entry == "twice":
            frs = [code, code]
        q = w.session(frs, module=main)[-1]
        if q.status != "lisp":
            env.fail("%s should fail with an error: %s" % (what, q.brief()))
        msg, line, start, stop, mod, stack = q.message, int(q.line), int(q.start), int(q.stop), q.module, q.stack
    if fmsg is not None and msg != fmsg or fname not in msg and fmsg is not None:
        env.fail("%s the message is %r instead of %r" % (what, msg, fmsg))
    if not line_ok(f, line):
        env.fail("%s the error is reported for line %d, the failing call is in line %d" % (what, line, f["line"]))
    if mod != want[-1][3]:
        env.fail("%s the error is reported for module %r instead of %r" % (what, mod, want[-1][3]))
    if f["exact"]:
        t = texts[where[n - 1]].t
        # the range begins behind the opening bracket, or behind white space there, and ends with the name
        if stop != f["stop"] or not f["open"] <= start <= f["start"]:
            env.fail("%s the error is reported for the text range %d-%d instead of %d-%d" % (what, start, stop, f["start"], f["stop"]))
    check_stack(stack)
    env.nontrivial(n >= 2 and f["line"] > 1)
    env.label("frames %d" % n, "modules %d" % len(texts), "entry " + entry, "fails in " + fname)
    for x in frames[:-1]:
        env.label("via " + x["via"])
    for x in frames:
        for k in x["w"]:
            env.label("inside of " + k)


def describe(case):
    import tempfile
    import shutil
    d = tempfile.mkdtemp()
    try:
        _, texts, paths, _, _, _ = build_case(None, case, d, 0)
        out = []
        for m, t in sorted(texts.items()):
            out += ["--- module %d" % m] + t.t.split("\n")
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)
