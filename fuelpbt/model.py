"""Reference interpreter: an independent, slow model of the language.

Source form of programs (JSON-able, see `render`):
  int | {"d": "1.5"} | {"s": "text"} | "symbol" | true/false | null (nil)
  [ ... ] a call / list,   {"q": x} 'x   {"qq": x} `x   {"u": x} ,x   {"us": x} ,@x

Run-time values: int float bool NIL UNDEF str Sym LList Dct Func Builtin.
A list element is a value, or Raw(LList) for a nested list which came from the
reader (only those are evaluated by `eval`).
"""
import math
import sys

sys.setrecursionlimit(20000)


class OutOfDomain(Exception):
    """The program leaves what the model specifies: the case says nothing."""


class LispErr(Exception):
    def __init__(self, msg=None):
        Exception.__init__(self, msg)
        self.msg = msg          # None: an error, message not specified


class _Single(object):
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


NIL = _Single("NIL")
UNDEF = _Single("UNDEF")
NOVAL = _Single("NOVAL")        # "no result" of a form (null)


class Sym(object):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Sym) and o.name == self.name

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "Sym(%s)" % self.name


class LList(object):
    __slots__ = ("items",)

    def __init__(self, items=()):
        self.items = list(items)


class Raw(object):
    __slots__ = ("l",)

    def __init__(self, l):
        self.l = l


class Dct(object):
    __slots__ = ("d",)

    def __init__(self):
        self.d = {}             # canonical key -> (key, value)


class Func(object):
    __slots__ = ("formals", "body", "scope", "name", "module", "sig")

    def __init__(self, formals, body, scope, name):
        self.formals, self.body, self.scope, self.name = formals, body, scope, name
        self.sig = None


class Builtin(object):
    __slots__ = ("name", "fn", "special")

    def __init__(self, name, fn, special):
        self.name, self.fn, self.special = name, fn, special


class Macro(object):
    __slots__ = ("formals", "expr", "compile_time")

    def __init__(self, formals, expr, ct):
        self.formals, self.expr, self.compile_time = formals, expr, ct


class LValue(object):
    __slots__ = ("set",)

    def __init__(self, s):
        self.set = s


class Scope(object):
    __slots__ = ("vars", "glob", "closure", "in_return", "needs_lvalue", "args", "in_eval", "cur", "prev", "name", "module")

    def __init__(self, glob=None, closure=None):
        self.vars = {}
        self.glob = glob if glob is not None else self
        self.closure = closure
        self.in_return = False
        self.needs_lvalue = False
        self.args = None
        self.in_eval = False
        self.cur = None             # the last called name (debugger)
        self.prev = None
        self.name = "<main>"
        self.module = "main"


def wrap32(n):
    n &= 0xFFFFFFFF
    return n - (1 << 32) if n & 0x80000000 else n


def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool)


def unraw(v):
    return v.l if isinstance(v, Raw) else v


def ltype(v):
    v = unraw(v)
    if v is NIL:
        return "Nil"
    if v is UNDEF:
        return "Undefined"
    if isinstance(v, bool):
        return "Bool"
    if isinstance(v, int):
        return "Int"
    if isinstance(v, float):
        return "Double"
    if isinstance(v, str):
        return "String"
    if isinstance(v, LList):
        return "List"
    if isinstance(v, (Func, Builtin)):
        return "Function"
    if isinstance(v, Sym):
        return "Symbol"
    if isinstance(v, Dct):
        return "NativeDictionary"
    raise OutOfDomain("type of %r" % (v,))


TYPE_NO = {"Undefined": 0, "Nil": 1, "Bool": 2, "Int": 3, "Double": 4, "String": 5, "List": 6,
           "Function": 7, "Symbol": 8, "NativeDictionary": 9}


def fmt_double(d):
    if math.isnan(d):
        raise OutOfDomain("text of nan")
    return "%f" % d


def key_order(v):
    t = ltype(v)
    if t in ("Int", "Double"):
        if isinstance(v, float) and math.isnan(v):
            raise OutOfDomain("nan key")
        return (1, float(v), b"")
    return (0, float(TYPE_NO[t]), to_text(v).encode("latin-1"))


def dict_items(d):
    return [d.d[k] for k in sorted(d.d)]


def debug_text(v):
    v = unraw(v)
    return '"' + v + '"' if isinstance(v, str) else to_text(v)


def to_text(v, depth=0):
    v = unraw(v)
    if depth > 200:
        raise OutOfDomain("cyclic or very deep value")
    if isinstance(v, bool):
        return "#t" if v else "#f"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, float):
        return fmt_double(v)
    if isinstance(v, str):
        return v
    if v is NIL:
        return "NIL"
    if v is UNDEF:
        return "<undefined>"
    if isinstance(v, Sym):
        return v.name
    if isinstance(v, LList):
        parts = []
        for e in v.items:
            e = unraw(e)
            parts.append('"' + e + '"' if isinstance(e, str) else to_text(e, depth + 1))
            if parts[-1] == "":
                raise OutOfDomain("empty symbol in a printed list")
        return "(" + " ".join(parts) + ")"
    if isinstance(v, Dct):
        return "{ " + ", ".join("[" + debug_text(k) + " : " + debug_text(x) + "]" for k, x in dict_items(v)) + " }"
    raise OutOfDomain("text of %s" % type(v).__name__)


def add_text(v):
    """text of an operand of + when the other one is a string"""
    if isinstance(v, str):
        return v
    if isinstance(v, bool):
        raise OutOfDomain("string + bool")
    if isinstance(v, (int, float, Sym)):
        return to_text(v)
    raise OutOfDomain("string + %s" % ltype(v))


def listval(v):
    v = unraw(v)
    if v is NIL:
        return []
    if isinstance(v, LList):
        return v.items
    raise LispErr("Invalid cast for list")


def is_list(v):
    v = unraw(v)
    return v is NIL or isinstance(v, LList)


def to_int(v):
    if isinstance(v, bool):
        return 1 if v else 0
    if isinstance(v, int):
        return v
    if isinstance(v, float):
        if not (-2147483649.0 < v < 2147483648.0):
            raise LispErr("Invalid cast for int")
        return int(v)
    if isinstance(v, str):
        n = stoi(v)
        if n is not None:
            return n
    raise LispErr("Invalid cast for int")


def to_double(v):
    if isinstance(v, bool):
        return 1.0 if v else 0.0
    if isinstance(v, (int, float)):
        return float(v)
    if isinstance(v, str):
        x = stod(v)
        if x is not None:
            return x
    raise LispErr("Invalid cast for double")


def intval(v):
    if not is_int(v):
        raise LispErr("Invalid cast for int")
    return v


def boolval(v):
    if not isinstance(v, bool):
        raise LispErr("Invalid cast for bool")
    return v


def no_operator(op, l, r):
    return LispErr("no %s operator for types %s and %s" % (op, ltype(l), ltype(r)))


def ordinal(s):
    b = s.encode("latin-1")
    if b"\0" in b:
        raise OutOfDomain("zero byte")
    return b


TOL = 1e-8


def equal_op(l, r):
    l, r = unraw(l), unraw(r)
    if isinstance(l, Dct) and isinstance(r, Dct):
        return l is r
    if isinstance(l, Sym) or isinstance(r, Sym):
        return isinstance(l, Sym) and isinstance(r, Sym) and l.name == r.name
    if isinstance(l, bool) and isinstance(r, bool):
        return l == r
    if l is NIL or r is NIL:
        return l is NIL and r is NIL
    if isinstance(l, LList) and isinstance(r, LList):
        if len(l.items) != len(r.items):
            return False
        for a, b in zip(l.items, r.items):
            try:
                if not equal_op(a, b):
                    return False
            except LispErr:
                return False
        return True
    if l is UNDEF or r is UNDEF:
        return l is UNDEF and r is UNDEF
    if isinstance(l, str) or isinstance(r, str):
        return to_text(l) == to_text(r)
    if isinstance(l, float) or isinstance(r, float):
        a, b = to_double(l), to_double(r)
        if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
            raise OutOfDomain("equality of non-finite numbers")
        diff = abs(a - b)
        if 0.5e-8 < diff < 2e-8:
            raise OutOfDomain("equality at the edge of the tolerance")
        return diff < TOL
    if is_int(l) or is_int(r):
        return to_int(l) == to_int(r)
    raise no_operator("==", l, r)


def less(l, r, eq):
    if isinstance(l, float) or isinstance(r, float):
        a, b = to_double(l), to_double(r)
        if math.isnan(a) or math.isnan(b):
            raise OutOfDomain("ordering of nan")
        return a <= b if eq else a < b
    if is_int(l) or is_int(r):
        a, b = to_int(l), to_int(r)
        return a <= b if eq else a < b
    if isinstance(l, str) or isinstance(r, str):
        a, b = ordinal(to_text(l)), ordinal(to_text(r))
        return a <= b if eq else a < b
    raise LispErr(None)


def trunc_div(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def arith(op, l, r):
    if op == "+":
        if isinstance(l, str) or isinstance(r, str):
            return add_text(l) + add_text(r)
    if isinstance(l, float) or isinstance(r, float):
        a, b = to_double(l), to_double(r)
        try:
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op == "/":
                if b == 0.0:
                    if a == 0.0 or math.isnan(a):
                        return float("nan")
                    return math.copysign(float("inf"), a) * math.copysign(1.0, b)
                return a / b
            if b == 0.0 or math.isinf(a):
                return float("nan")
            return math.fmod(a, b)
        except OverflowError:
            raise OutOfDomain("overflow")
    if is_int(l) or is_int(r):
        if op in "/%" and to_int(r) == 0:
            raise LispErr("Division by zero" if is_int(l) and is_int(r) else None)
        a, b = to_int(l), to_int(r)
        if op == "+":
            return wrap32(a + b)
        if op == "-":
            return wrap32(a - b)
        if op == "*":
            return wrap32(a * b)
        if op == "/":
            return wrap32(trunc_div(a, b))
        return wrap32(a - b * trunc_div(a, b))
    if op == "+" and is_list(l) and is_list(r):
        return LList(listval(l) + listval(r))
    raise no_operator(op, l, r)


def substring(s, off, n=None):
    if off < 0 or off > len(s):
        raise LispErr("Index out of range")
    return s[off:] if n is None else s[off:off + n]


WS = " \t\n\r\v\f"


def stoi(s):
    """std::stoi with a full match, or None"""
    t = s.lstrip(WS)
    u = t[1:] if t[:1] in ("+", "-") else t
    if not u or any(c not in "0123456789" for c in u):
        return None
    n = int(t)
    return n if -2147483648 <= n <= 2147483647 else None


def stod_prefix(s):
    t = s.lstrip(WS)
    import re
    if re.match(r"[+-]?(0[xX]|[iI][nN]|[nN][aA])", t):
        raise OutOfDomain("special number text")
    m = re.match(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?", t)
    if not m:
        return None
    v = float(m.group(0))
    return None if math.isinf(v) else v


def stod(s):
    """a text which is a number as a whole, or None"""
    t = s.lstrip(WS)
    import re
    if re.match(r"[+-]?(0[xX]|[iI][nN]|[nN][aA])", t):
        raise OutOfDomain("special number text")
    m = re.match(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?$", t)
    if not m or t.endswith("\n"):
        return None
    v = float(t)
    if math.isinf(v):
        raise OutOfDomain("number out of range")
    return v


def format_text(fmt, args):
    """one pass; {n} and {n,w} with n in 0..4"""
    import re
    out = []
    pos = 0
    while pos < len(fmt):
        m = re.compile(r"\{([0-4])(?:,([^}]*))?\}").match(fmt, pos)
        if m:
            w = 0
            if m.group(2) is not None:
                mm = re.match(r"[ \t\n\v\f\r]*([+-]?[0-9]+)", m.group(2))
                if not mm:
                    out.append(fmt[pos])
                    pos += 1
                    continue
                w = int(mm.group(1))
                if abs(w) > 100000:
                    raise OutOfDomain("width")
            i = int(m.group(1))
            if i >= len(args):
                raise LispErr("Not enough items for format string: " + fmt)
            a = args[i]
            out.append(a.rjust(w, " ") if w > 0 else a.ljust(-w, " "))
            pos = m.end()
        else:
            out.append(fmt[pos])
            pos += 1
    return "".join(out)


# ---- source form ------------------------------------------------------------

class Reader(object):
    """JSON source form -> run-time form"""

    def __call__(self, x):
        if x is None:
            return NIL              # becomes the empty list when macros are expanded
        if isinstance(x, (bool, int)):
            return x
        if isinstance(x, str):
            return Sym(x)
        if isinstance(x, list):
            return Raw(LList([self(e) for e in x]))
        if isinstance(x, dict):
            (k, v), = x.items()
            if k == "d":
                return float(v)
            if k == "s":
                return v
            head = {"q": "quote", "qq": "quasiquote", "u": "_unquote", "us": "_unquotesplicing"}[k]
            return Raw(LList([Sym(head), self(v)]))
        raise OutOfDomain("bad source form %r" % (x,))


to_runtime = Reader()


def esc(s):
    out = []
    for c in s:
        if c == "\\":
            out.append("\\\\")
        elif c == '"':
            out.append('\\"')
        elif c == "\n":
            out.append("\\n")
        elif c == "\r":
            out.append("\\r")
        elif c == "\t":
            out.append("\\t")
        else:
            out.append(c)
    return '"' + "".join(out) + '"'


def render(x):
    if x is None:
        return "nil"
    if x is True:
        return "#t"
    if x is False:
        return "#f"
    if isinstance(x, int):
        return str(x)
    if isinstance(x, str):
        return x
    if isinstance(x, list):
        return "(" + " ".join(render(e) for e in x) + ")"
    (k, v), = x.items()
    if k == "d":
        return v
    if k == "s":
        return esc(v)
    if k == "raw":
        return v
    return {"q": "'", "qq": "`", "u": ",", "us": ",@"}[k] + render(v)


def render_prog(stmts):
    return "\n".join(render(s) for s in stmts)


# ---- text reader (for evalstr and the reader properties) -----------------------

class ReadError(Exception):
    pass


def tokenize(code):
    """Tokens of a text: ('(',) (')',) ("'",) ('`',) (',',) (',@',) ('s',text) ('a',text) ; comments dropped"""
    toks = []
    i, n = 0, len(code)
    cur = None
    instr = False
    while i < n:
        c = code[i]
        if instr:
            if c == "\\":
                if i + 1 >= n:
                    raise ReadError("string not closed")
                e = code[i + 1]
                if e == '"' or e == "\\":
                    cur += e
                elif e in "nrt":
                    cur += {"n": "\n", "r": "\r", "t": "\t"}[e]
                elif e in WS or e in "()';`,":
                    raise OutOfDomain("backslash before a delimiter")
                else:
                    raise ReadError("Invalid character after backslash")
                i += 2
                continue
            if c == '"':
                toks.append(("s", cur))
                cur, instr = None, False
            else:
                cur += c
            i += 1
            continue
        if c in WS or c in "()';`,\"":
            if cur is not None:
                toks.append(("a", cur))
                cur = None
        if c in WS:
            pass
        elif c in "()":
            toks.append((c,))
        elif c == ";":
            while i < n and code[i] != "\n":
                i += 1
            continue
        elif c in "'`,":
            if c == "," and code[i + 1:i + 2] == "@":
                toks.append((",@",))
                i += 1
            else:
                toks.append((c,))
        elif c == '"':
            cur, instr = "", True
        elif c == "\\":
            raise OutOfDomain("backslash outside of a string")
        else:
            cur = (cur or "") + c
        i += 1
    if instr:
        raise ReadError("string not closed")
    if cur is not None:
        toks.append(("a", cur))
    return toks


def atom_value(t):
    import re
    if re.match(r"[+-]?[0-9]+$", t):
        n = int(t)
        if -2147483648 <= n <= 2147483647:
            return n
        return float(t)
    if re.match(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?$", t):
        v = stod_prefix(t)
        if v is None:
            raise OutOfDomain("number out of range")
        return v
    if re.match(r"[+-]?(0x[0-9a-f.p+-]*|inf(inity)?|nan(\(.*)?)$", t, re.I):
        raise OutOfDomain("unusual number")
    if t in ("#t", "true"):
        return True
    if t in ("#f", "false"):
        return False
    if t.lower() == "nil":
        return Raw(LList())
    return Sym(t)


def read_forms(code):
    """list of run-time forms of a text"""
    toks = tokenize(code)
    pos = 0

    def form(p):
        if p >= len(toks):
            raise ReadError("expression expected")
        t = toks[p]
        if t[0] == "(":
            p += 1
            items = []
            while True:
                if p >= len(toks):
                    raise ReadError("brackets")
                if toks[p][0] == ")":
                    return Raw(LList(items)), p + 1
                v, p = form(p)
                items.append(v)
        if t[0] == ")":
            raise ReadError("brackets")
        if t[0] in ("'", "`", ",", ",@"):
            v, p = form(p + 1)
            head = {"'": "quote", "`": "quasiquote", ",": "_unquote", ",@": "_unquotesplicing"}[t[0]]
            return Raw(LList([Sym(head), v])), p
        if t[0] == "s":
            return t[1], p + 1
        return atom_value(t[1]), p + 1

    out = []
    while pos < len(toks):
        v, pos = form(pos)
        out.append(v)
    return out


# ---- the interpreter ------------------------------------------------------------

BUILTINS = {}


def builtin(*names, **kw):
    special = kw.get("special", False)

    def deco(f):
        for n in names:
            BUILTINS[n] = (f, special)
        return f
    return deco


def check(name, args, lo, hi=None):
    hi = lo if hi is None else hi
    if not lo <= len(args) <= hi:
        if lo == hi:
            raise LispErr("Bad argument count in %s, has %d expected %d" % (name, len(args), lo))
        raise LispErr("Bad argument count in %s, has %d expected between %d and %d" % (name, len(args), lo, hi))


# names which exist in the real interpreter but are not modelled
UNMODELLED = set("""fuel version copyright help doc searchdoc htmldoc break vars tickcount sleep date-time
platform _unquote _unquotesplicing unquote unquotesplicing macros""".split())


class Interp(object):
    def __init__(self, max_steps=6000, max_depth=120, inputs=()):
        self.glob = Scope()
        for n, (f, sp) in BUILTINS.items():
            self.glob.vars[n] = Builtin(n, f, sp)
        for n in UNMODELLED:
            self.glob.vars[n] = Builtin(n, None, False)
        self.macros = {}
        self.files = None           # path -> text, or None: import is outside the model
        self.fs = None              # the file system (class FileSystem), or None: outside the model
        self.libpath = ""
        self.fuelpath = None
        self.modules = {}
        self.tracing = False        # execution trace (option -x)
        self.error_hook = None      # called when the body of a function fails
        self.hook = None            # called before every call, after its arguments were evaluated
        self.collect = False        # (trace #t)
        self.tracebuf = ""
        self.out = []
        self.inputs = list(inputs)
        self.steps = 0
        self.depth = 0
        self.max_steps, self.max_depth = max_steps, max_depth
        self.stats = {}
        self.size = 0

    # -- entry points
    def run(self, forms):
        """evaluate one script / fragment given in source form"""
        return self.run_forms([to_runtime(f) for f in forms], self.glob)

    def module_forms(self, path):
        return [to_runtime(f) for f in self.files[path]]

    def run_forms(self, forms, scope):
        if not scope.in_eval:
            scope.in_return = False
        ast = Raw(LList([Sym("do")] + forms))
        ast = self.expand(ast, scope)
        if ast is None:
            raise OutOfDomain("script removed")
        return self.eval(ast, scope)

    def outcome(self, forms):
        """('ok', value) | ('err', message or None), and the output of this fragment"""
        n = len(self.out)
        try:
            v = self.run(forms)
            r = ("ok", v)
        except LispErr as e:
            r = ("err", e.msg)
        except ReadError:
            r = ("err", None)
        except RecursionError:
            raise OutOfDomain("recursion")
        # an error leaves the flag set by evaluating setf targets etc. alone: it is restored
        return r, "".join(self.out[n:])

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.max_steps:
            raise OutOfDomain("too many steps")

    # -- names
    def resolve(self, name, scope):
        v = scope.vars.get(name)
        if v is not None:
            return v
        v = scope.glob.vars.get(name)
        if v is not None:
            return v
        c = scope.closure
        while c is not None:
            v = c.vars.get(name)
            if v is not None:
                return v
            c = c.closure
        for path in sorted(self.modules):
            v = self.modules[path].vars.get(name)
            if v is not None:
                return v
        return Sym(name)

    def set_in_scopes(self, name, value, scope):
        if name:
            if name in scope.vars:
                scope.vars[name] = value
                return
            c = scope.closure
            while c is not None:
                if name in c.vars:
                    c.vars[name] = value
                    return
                c = c.closure
            if name in scope.glob.vars:
                scope.glob.vars[name] = value
                return
        raise LispErr("Symbol " + name + " not found")

    # -- evaluation
    def value(self, ast, scope):
        v = self.eval(ast, scope)
        return UNDEF if v is NOVAL else v

    def eval(self, ast, scope):
        self.tick()
        if ast is NOVAL:
            return NOVAL
        if isinstance(ast, Sym):
            v = self.resolve(ast.name, scope)
            return unraw(v)
        if isinstance(ast, Raw):
            items = ast.l.items
        elif isinstance(ast, LList):
            items = ast.items
        else:
            return ast
        if not items:
            return NIL
        self.depth += 1
        try:
            if self.depth > self.max_depth:
                raise OutOfDomain("too deep")
            return self.call_form(items, scope)
        finally:
            self.depth -= 1

    def call_form(self, items, scope):
        head = items[0]
        m = self.macros.get(to_text(head)) if isinstance(head, Sym) else None
        if isinstance(head, (str, bool)) and to_text(head) in self.macros:
            raise OutOfDomain("macro called by a non-symbol")
        if m is not None:
            if m.compile_time:
                raise OutOfDomain("compile-time macro at run time")
            flag = [False]
            expr = self.replace_formals(m, items, scope, flag)
            return self.eval(Raw(LList(expr)), scope)
        if getattr(head, "line", None) is not None:
            scope.cur = head
        if isinstance(head, Sym):
            fn = self.resolve(head.name, scope)
        else:
            fn = head
        if not isinstance(fn, (Func, Builtin)):
            raise LispErr('Function "%s" not found' % fn.name if isinstance(fn, Sym) else 'Function "')
        if isinstance(fn, Builtin) and fn.fn is None:
            raise OutOfDomain("builtin %s" % fn.name)
        special = isinstance(fn, Builtin) and fn.special
        if self.tracing:
            self.out.append("--> %s\n" % to_text(head))
        args = []
        if special:
            args = list(items[1:])
        else:
            # plain names first, then the nested calls
            res = [self.resolve(a.name, scope) if isinstance(a, Sym) else a for a in items[1:]]
            for orig, r in zip(items[1:], res):
                if isinstance(r, Raw):
                    if isinstance(orig, Sym):
                        raise OutOfDomain("raw list in a variable")
                    r = self.value(r, scope)
                args.append(r)
        if self.hook is not None:
            self.hook(head, scope)
        return self.call(fn, args, scope)

    def call(self, fn, args, scope):
        self.tick()
        if isinstance(fn, Builtin):
            if fn.fn is None:
                raise OutOfDomain("builtin %s" % fn.name)
            n = self.stats.get(fn.name, 0)
            self.stats[fn.name] = n + 1
            return fn.fn(self, args, scope)
        child = Scope(scope.glob, fn.scope)
        child.prev, child.name, child.module = scope, fn.name, fn.scope.module
        child.needs_lvalue = fn.scope.needs_lvalue
        args = list(args) + [NIL] * (len(fn.formals) - len(args))
        for f, a in zip(fn.formals, args):
            child.vars[f] = a
        child.args = LList(args)
        if len(args) > len(fn.formals):
            child.vars["_additionalArgs"] = LList(args[len(fn.formals):])
        try:
            return self.value(fn.body, child)
        except LispErr as e:
            if self.error_hook is not None:
                self.error_hook(e, fn.body, child)
            raise

    # -- macros
    def replace_symbol(self, name, repl, items, splice, flag):
        out = []
        for e in items:
            if isinstance(e, Sym) and e.name == name:
                if splice:
                    out.extend(repl.l.items)
                else:
                    out.append(repl)
                flag[0] = True
            elif isinstance(e, Raw):
                out.append(Raw(LList(self.replace_symbol(name, repl, e.l.items, splice, flag))))
            else:
                out.append(e)
        return out

    def replace_formals(self, macro, items, scope, flag):
        self.tick(len(items))
        dummy = [False]
        quoted = Raw(LList([Sym("quote"), LList(items[1:])]))
        expr = self.replace_symbol("quoted-macro-args", quoted, macro.expr, True, dummy)
        for i, f in enumerate(macro.formals):
            if i + 1 >= len(items):
                raise LispErr("Bad argument count in macro %s, has %d expected %d" % (to_text(items[0]), len(items) - 1, len(macro.formals)))
            a = items[i + 1]
            if isinstance(a, Raw):
                v = self.expand1(a, scope, flag)
                if v is None:
                    v = UNDEF
            else:
                v = a
            # the argument must not mention parameters which are replaced later
            later = set(macro.formals[i + 1:])
            if later and mentions(v, later):
                raise OutOfDomain("macro argument mentions a later parameter")
            expr = self.replace_symbol(f, v, expr, False, flag)
            self.tick(len(expr))
        return expr

    def expand(self, ast, scope):
        while True:
            self.tick()
            flag = [False]
            ast = self.expand1(ast, scope, flag)
            if not flag[0]:
                return ast

    def expand1(self, ast, scope, flag):
        self.tick()
        if ast is None or not isinstance(ast, Raw):
            return ast
        items = ast.l.items
        if not items:
            return ast
        head = items[0]
        if isinstance(head, Sym):
            v = scope.vars.get(head.name)
            if head.name == "define-macro-expand" and scope is not self.glob:
                raise OutOfDomain("compile-time macro in a module")
            if isinstance(v, Builtin) and v.name == "define-macro-expand":
                v.fn(self, list(items[1:]), scope)
                return None
            m = self.macros.get(head.name)
            if m is not None and m.compile_time and scope is not self.glob:
                raise OutOfDomain("compile-time macro in a module")
            if m is not None and m.compile_time:
                flag[0] = True
                expr = self.replace_formals(m, items, scope, flag)
                r = self.value(Raw(LList(expr)), scope)
                if isinstance(r, LList):
                    return Raw(r)
                return r
        elif isinstance(head, (str, bool)) and to_text(head) in self.macros:
            raise OutOfDomain("macro called by a non-symbol")
        out = []
        for e in items:
            r = self.expand(e, scope)
            if r is not None:
                out.append(Raw(r) if isinstance(r, LList) else Raw(LList()) if r is NIL else r)
        return Raw(LList(out))


def mentions(v, names):
    if isinstance(v, Sym):
        return v.name in names
    if isinstance(v, (Raw, LList)):
        return any(mentions(e, names) for e in unraw(v).items)
    return False


def fold(name, op):
    def f(it, args, scope):
        if not args:
            check(name, args, 1)
        args = [unraw(a) for a in args]
        r = args[0]
        for a in args[1:]:
            r = arith(op, r, a)
            if isinstance(r, str) and len(r) > 20000:
                raise OutOfDomain("big string")
        return r
    return f


BUILTINS["+"] = BUILTINS["add"] = BUILTINS["string"] = (fold("add", "+"), False)
BUILTINS["*"] = BUILTINS["mul"] = (fold("mul", "*"), False)
BUILTINS["/"] = BUILTINS["div"] = (fold("div", "/"), False)
BUILTINS["%"] = BUILTINS["mod"] = (fold("mod", "%"), False)


@builtin("-", "sub")
def b_sub(it, args, scope):
    if len(args) == 1:
        v = args[0]
        if is_int(v):
            return wrap32(-v)
        if isinstance(v, float):
            return -v
        raise LispErr("Unary operator - not available for " + ltype(v))
    return fold("sub", "-")(it, args, scope)


def cmp(name, f):
    def g(it, args, scope):
        check(name, args, 2)
        return f(unraw(args[0]), unraw(args[1]))
    return g


BUILTINS["<"] = (cmp("<", lambda l, r: less(l, r, False)), False)
BUILTINS["<="] = (cmp("<=", lambda l, r: less(l, r, True)), False)
BUILTINS[">"] = (cmp(">", lambda l, r: less(r, l, False)), False)
BUILTINS[">="] = (cmp(">=", lambda l, r: less(r, l, True)), False)
for _n in ("=", "==", "equal"):
    BUILTINS[_n] = (cmp("==", equal_op), False)
BUILTINS["!="] = (cmp("!=", lambda l, r: not equal_op(l, r)), False)


@builtin("not", "!")
def b_not(it, args, scope):
    check("not", args, 1)
    return not boolval(args[0])


def bits(name, f):
    def g(it, args, scope):
        check(name, args, 2)
        return wrap32(f(intval(args[0]), intval(args[1])))
    return g


BUILTINS["<<"] = (bits("left-shift", lambda a, b: a << (b & 31)), False)
BUILTINS[">>"] = (bits("right-shift", lambda a, b: a >> (b & 31)), False)
BUILTINS["|"] = (bits("binary-or", lambda a, b: a | b), False)
BUILTINS["&"] = (bits("binary-and", lambda a, b: a & b), False)
BUILTINS["^"] = (bits("binary-xor", lambda a, b: a ^ b), False)


@builtin("~")
def b_bnot(it, args, scope):
    check("binary-not", args, 1)
    return ~intval(args[0])


# ---- special forms

@builtin("and", "&&", special=True)
def b_and(it, args, scope):
    r = True
    for a in args:
        r = boolval(it.value(a, scope))
        if not r:
            break
    return r


@builtin("or", "||", special=True)
def b_or(it, args, scope):
    r = False
    for a in args:
        r = boolval(it.value(a, scope))
        if r:
            break
    return r


def arg_if_needed(it, a, scope):
    return it.value(a, scope) if isinstance(a, Raw) else a


def define(name, glob):
    def f(it, args, scope):
        check(name, args, 2)
        s = arg_if_needed(it, args[0], scope)
        if not isinstance(s, (Sym, str)):
            raise LispErr("Symbol expected")
        v = it.value(args[1], scope)
        (scope.glob if glob else scope).vars[to_text(s)] = v
        return v
    return f


BUILTINS["def"] = (define("def", False), True)
BUILTINS["gdef"] = (define("gdef", True), True)


@builtin("setf", special=True)
def b_setf(it, args, scope):
    check("setf", args, 2)
    saved = scope.needs_lvalue
    scope.needs_lvalue = True
    try:
        target = arg_if_needed(it, args[0], scope)
    finally:
        scope.needs_lvalue = saved
    v = it.value(args[1], scope)
    if isinstance(target, LValue):
        target.set(v)
    else:
        if not isinstance(target, (Sym, str)):
            raise OutOfDomain("odd setf target")
        it.set_in_scopes(to_text(target), v, scope)
    return v


@builtin("rval", special=True)
def b_rval(it, args, scope):
    check("rval", args, 1)
    saved = scope.needs_lvalue
    scope.needs_lvalue = False
    try:
        return arg_if_needed(it, args[0], scope)
    finally:
        scope.needs_lvalue = saved


@builtin("quote", special=True)
def b_quote(it, args, scope):
    check("quote", args, 1)
    a = args[0]
    if isinstance(a, Raw):
        it.tick(len(a.l.items) // 8)
        return LList(a.l.items)
    return a


def quasi(it, items, scope):
    """-> (value or Raw, splicing)"""
    it.tick()
    if len(items) == 2 and isinstance(items[0], Sym) and items[0].name in ("_unquote", "_unquotesplicing"):
        return it.value(items[1], scope), items[0].name == "_unquotesplicing"
    out = []
    for e in items:
        if isinstance(e, Raw):
            r, sp = quasi(it, e.l.items, scope)
            if sp:
                out.extend(listval(r))
            else:
                out.append(r)
        else:
            out.append(e)
    return Raw(LList(out)), False


@builtin("quasiquote", special=True)
def b_quasi(it, args, scope):
    check("quasiquote", args, 1)
    a = args[0]
    if not isinstance(a, Raw):
        return a
    r, sp = quasi(it, a.l.items, scope)
    if sp:
        raise OutOfDomain("splicing outside of a list")
    return unraw(r)


@builtin("if", special=True)
def b_if(it, args, scope):
    if len(args) not in (2, 3):
        raise LispErr(None)
    if boolval(it.value(args[0], scope)):
        return it.eval(args[1], scope)
    return it.eval(args[2], scope) if len(args) > 2 else NOVAL


@builtin("while", special=True)
def b_while(it, args, scope):
    check("while", args, 2)
    r = UNDEF

    def cond():
        c = it.value(args[0], scope)
        if isinstance(c, bool):
            return c
        if is_int(c):
            return c != 0
        if isinstance(c, float):
            return abs(c) > TOL
        raise LispErr(None)
    while cond():
        r = it.eval(args[1], scope)
        if scope.in_return:
            break
    return r


@builtin("do", "begin", special=True)
def b_do(it, args, scope):
    r = UNDEF
    for a in args:
        if not isinstance(a, Raw):
            raise LispErr("List expected in do")
        r = it.eval(a, scope)
        if scope.in_return:
            break
    return r


def formals_of(a):
    if isinstance(a, Raw):
        items = a.l.items
    elif isinstance(a, LList):
        items = a.items
    elif a is NIL:
        items = []
    else:
        raise OutOfDomain("odd formal parameters")
    out = []
    for f in items:
        if not isinstance(f, Sym):
            raise OutOfDomain("odd formal parameter")
        out.append(f.name)
    return out


@builtin("fn", "lambda", special=True)
def b_fn(it, args, scope):
    if len(args) < 2:
        check("fn", args, 2)
    return Func(formals_of(args[0]), args[1], scope, "")


def defn(name):
    def f(it, args, scope):
        check(name, args, 3)
        n = arg_if_needed(it, args[0], scope)
        if isinstance(args[0], Raw):
            raise OutOfDomain("computed function name")
        if not isinstance(n, (Sym, str)):
            raise OutOfDomain("odd function name")
        v = Func(formals_of(args[1]), args[2], scope, to_text(n))
        (scope.glob if name == "gdef" else scope).vars[to_text(n)] = v
        return v
    return f


BUILTINS["defn"] = (defn("def"), True)
BUILTINS["gdefn"] = (defn("gdef"), True)


@builtin("define-macro", "define-macro-eval", special=True)
def b_defmacro(it, args, scope):
    check("define-macro-eval", args, 3)
    if not (isinstance(args[0], Sym) and isinstance(args[1], Raw) and isinstance(args[2], Raw)):
        raise OutOfDomain("odd macro definition")
    it.macros[args[0].name] = Macro(formals_of(args[1]), args[2].l.items, False)
    return NOVAL


@builtin("define-macro-expand", special=True)
def b_defexpand(it, args, scope):
    check("define-macro-expand", args, 3)
    if not (isinstance(args[0], Sym) and isinstance(args[1], Raw) and isinstance(args[2], Raw)):
        raise OutOfDomain("odd macro definition")
    e = it.expand(args[2], scope)
    if not isinstance(e, Raw):
        raise OutOfDomain("odd macro body")
    it.macros[args[0].name] = Macro(formals_of(args[1]), e.l.items, True)
    return NOVAL


@builtin("import")
def b_import(it, args, scope):
    if it.files is None:
        raise OutOfDomain("import")
    result = UNDEF
    for a in args:
        if not isinstance(a, (str, Sym)):
            raise OutOfDomain("odd import")
        name = to_text(a).replace("\\", "/")
        if not name:
            raise OutOfDomain("odd import")
        ext = name if name.endswith(".fuel") else name + ".fuel"
        tries = [name, it.libpath + "/" + ext, "./Library/" + ext, "./lib/fuel/" + ext]
        if it.fuelpath is not None:
            tries.append(it.fuelpath + "/" + ext)
        for path in tries:
            norm = path[2:] if path.startswith("./") else path
            if norm in it.files:
                break
        else:
            it.out.append("WARNING: Library %s not found! Tried path %s\n" % (name, tries[-1]))
            continue
        if it.files[norm] == "":
            continue
        mod = Scope(it.glob)
        mod.prev, mod.name, mod.module = scope, "import " + path, path
        result = it.run_forms(it.module_forms(norm), mod)
        it.modules[path] = mod
    return result


@builtin("return")
def b_return(it, args, scope):
    check("return", args, 1)
    scope.in_return = True
    return args[0]


@builtin("nop")
def b_nop(it, args, scope):
    return UNDEF


# ---- functions

def need_function(name, v):
    if not isinstance(v, (Func, Builtin)):
        raise LispErr("No function in " + name)
    if isinstance(v, Builtin) and v.special:
        raise OutOfDomain("special form as a function value")
    return v


def need_list(name, v):
    if not is_list(v):
        raise LispErr("No list in " + name)
    return listval(v)


@builtin("map")
def b_map(it, args, scope):
    check("map", args, 2)
    f = need_function("map", args[0])
    out = []
    for e in list(need_list("map", args[1])):
        v = it.call(f, [unraw(e)], scope)
        out.append(UNDEF if v is NOVAL else v)
    return LList(out)


@builtin("reduce")
def b_reduce(it, args, scope):
    check("reduce", args, 3)
    f = need_function("reduce", args[0])
    r = args[2]
    for e in list(need_list("reduce", args[1])):
        r = it.call(f, [unraw(e), r], scope)
        if r is NOVAL:
            r = UNDEF
    return r


@builtin("apply")
def b_apply(it, args, scope):
    check("apply", args, 2)
    f = it.value(args[0], scope)
    if not is_list(args[1]):
        raise LispErr("Expected list as arguments in apply")
    if isinstance(f, Builtin) and f.special:
        raise OutOfDomain("apply of a special form")
    if not isinstance(f, (Func, Builtin)):
        raise LispErr(None)
    return it.call(f, [unraw(e) for e in listval(args[1])], scope)


@builtin("eval")
def b_eval(it, args, scope):
    check("eval", args, 1)
    a = args[0]
    return it.eval(LList(a.items) if isinstance(a, LList) else a, scope)


@builtin("evalstr")
def b_evalstr(it, args, scope):
    if it.tracing:
        raise OutOfDomain("evalstr while tracing")
    check("evalstr", args, 1)
    if scope.in_eval:
        raise OutOfDomain("nested evalstr")
    forms = read_forms(to_text(args[0]))
    if scope is not scope.glob and any(mentions(f, set(it.macros) | {"define-macro-expand"}) for f in forms):
        raise OutOfDomain("macros in evalstr inside a function")
    scope.in_eval = True
    try:
        return it.run_forms(forms, scope)
    finally:
        scope.in_eval = False


@builtin("args")
def b_args(it, args, scope):
    check("args", args, 0)
    return LList(scope.args.items) if scope.args is not None else LList()


@builtin("argscount")
def b_argscount(it, args, scope):
    check("argscount", args, 0)
    return len(scope.args.items) if scope.args is not None else 0


@builtin("arg")
def b_arg(it, args, scope):
    check("arg", args, 1)
    i = intval(args[0])
    l = scope.args.items if scope.args is not None else []
    if not 0 <= i < len(l):
        raise LispErr("Index out of range in args function (index=%d max=%d)" % (i, len(l)))
    return unraw(l[i])


@builtin("need-l-value")
def b_needl(it, args, scope):
    check("need-l-value", args, 0)
    return scope.needs_lvalue


@builtin("delvar")
def b_delvar(it, args, scope):
    check("delvar", args, 1)
    n = to_text(args[0])
    if n in scope.vars:
        if isinstance(scope.vars[n], Builtin):
            raise OutOfDomain("delvar of a builtin")
        del scope.vars[n]
        return True
    return False


# ---- lists and strings

@builtin("list")
def b_list(it, args, scope):
    return LList(args)


@builtin("cons")
def b_cons(it, args, scope):
    out = list(args[:1])
    if len(args) > 1:
        if is_list(args[1]):
            out += listval(args[1])
        else:
            out.append(args[1])
    return LList(out)


@builtin("len")
def b_len(it, args, scope):
    check("len", args, 1)
    v = args[0]
    if isinstance(v, Dct):
        return len(v.d)
    if isinstance(v, str):
        return len(v)
    return len(listval(v))


def lvalue(lst, index):
    def set_(v):
        l = unraw(lst)
        if l is NIL:
            raise LispErr("Index out of range")
        items = listval(l)
        i = len(items) - 1 if index == "last" else index
        if not items or not 0 <= i < len(items):
            raise LispErr("Index out of range")
        items[i] = v
    return LValue(set_)


def elem(items, i):
    if not 0 <= i < len(items):
        raise LispErr("Index out of range")
    return unraw(items[i])


@builtin("first", "car")
def b_first(it, args, scope):
    check("first", args, 1)
    v = args[0]
    if isinstance(v, str):
        return v[:1]
    if scope.needs_lvalue:
        return lvalue(v, 0)
    return elem(listval(v), 0)


@builtin("last")
def b_last(it, args, scope):
    check("last", args, 1)
    v = args[0]
    if isinstance(v, str):
        return substring(v, len(v) - 1)
    if scope.needs_lvalue:
        return lvalue(v, "last")
    l = listval(v)
    return elem(l, len(l) - 1)


@builtin("rest", "cdr")
def b_rest(it, args, scope):
    check("rest", args, 1)
    v = args[0]
    if isinstance(v, str):
        return substring(v, 1)
    return LList(listval(v)[1:])


@builtin("nth")
def b_nth(it, args, scope):
    check("nth", args, 2)
    i = intval(args[0])
    v = args[1]
    if isinstance(v, str):
        return substring(v, i, 1)
    if scope.needs_lvalue:
        return lvalue(v, i)
    return elem(listval(v), i)


@builtin("push")
def b_push(it, args, scope):
    check("push", args, 2, 3)
    pos = to_int(args[2]) if len(args) > 2 else 0
    if not is_list(args[1]):
        raise LispErr(None)
    items = listval(args[1])
    if pos < len(items):
        if pos < 0:
            raise LispErr("Index out of range")
        items.insert(pos, args[0])
        if len(items) > 400:
            raise OutOfDomain("long list")
        return LList(items)
    return NIL


@builtin("pop")
def b_pop(it, args, scope):
    check("pop", args, 1, 2)
    pos = to_int(args[1]) if len(args) > 1 else 0
    if not is_list(args[0]):
        raise LispErr(None)
    items = listval(args[0])
    if pos < len(items):
        if pos < 0:
            raise LispErr("Index out of range")
        return unraw(items.pop(pos))
    return NIL


@builtin("append")
def b_append(it, args, scope):
    out = []
    for a in args:
        out += listval(a)
    if len(out) > 2000:
        raise OutOfDomain("long list")
    return LList(out)


@builtin("reverse")
def b_reverse(it, args, scope):
    check("reverse", args, 1)
    v = args[0]
    if isinstance(v, str):
        return v[::-1]
    return LList(listval(v)[::-1])


@builtin("sym")
def b_sym(it, args, scope):
    check("sym", args, 1)
    return Sym(to_text(args[0]))


@builtin("str")
def b_str(it, args, scope):
    check("str", args, 1)
    return to_text(args[0])


def joined(args):
    text = ""
    for a in args:
        if text:
            text += " "
        text += to_text(a)
    return text


@builtin("print")
def b_print(it, args, scope):
    t = joined(args)
    if it.collect:
        it.tracebuf += t
    it.out.append(t)
    return t


@builtin("println")
def b_println(it, args, scope):
    t = joined(args)
    if it.collect:
        it.tracebuf += t
    it.out.append(t + "\n")
    return t


@builtin("trace")
def b_trace(it, args, scope):
    check("trace", args, 1)
    it.collect = boolval(args[0])
    return it.collect


@builtin("gettrace")
def b_gettrace(it, args, scope):
    return it.tracebuf


@builtin("flush")
def b_flush(it, args, scope):
    check("flush", args, 0)
    return UNDEF


@builtin("format")
def b_format(it, args, scope):
    check("format", args, 1, 6)
    return format_text(to_text(args[0]), [to_text(a) for a in args[1:]])


@builtin("readline")
def b_readline(it, args, scope):
    check("readline", args, 0)
    return it.inputs.pop(0) if it.inputs else ""


@builtin("parse-integer")
def b_parseint(it, args, scope):
    check("parse-integer", args, 1)
    v = stoi(to_text(args[0]))
    return UNDEF if v is None else v


@builtin("parse-float")
def b_parsefloat(it, args, scope):
    check("parse-float", args, 1)
    v = stod_prefix(to_text(args[0]))
    return UNDEF if v is None else v


@builtin("int")
def b_int(it, args, scope):
    check("int", args, 1)
    v = args[0]
    if isinstance(v, str):
        return b_parseint(it, args, scope)
    if isinstance(v, (bool, int, float)):
        if isinstance(v, float) and not (-2147483649.0 < v < 2147483648.0):
            return UNDEF
        return to_int(v)
    return UNDEF


@builtin("float")
def b_float(it, args, scope):
    check("float", args, 1)
    v = args[0]
    if isinstance(v, str):
        return b_parsefloat(it, args, scope)
    if isinstance(v, (bool, int, float)):
        return to_double(v)
    return UNDEF


@builtin("type")
def b_type(it, args, scope):
    check("type", args, 1)
    return TYPE_NO[ltype(args[0])]


@builtin("typestr")
def b_typestr(it, args, scope):
    check("typestr", args, 1)
    return ltype(args[0])


@builtin("search")
def b_search(it, args, scope):
    check("search", args, 2, 4)
    needle = to_text(args[0])
    src = args[1]
    pos = to_int(args[2]) if len(args) > 2 else None
    n = to_int(args[3]) if len(args) > 3 else None
    if isinstance(src, str):
        if pos is not None and pos < 0 or n is not None and n < 0:
            raise OutOfDomain("negative search range")
        if pos is None:
            return src.find(needle)
        if pos > len(src):
            return -1
        if n is None:
            return src.find(needle, pos)
        return src.find(needle, pos, pos + n)
    if src is not NIL and isinstance(src, LList) or src is NIL:
        if pos is not None:
            raise OutOfDomain("list search with position")
        for i, e in enumerate(listval(src)):
            e = unraw(e)
            if to_text(e) == needle:
                return i
        return -1
    raise LispErr(None)


@builtin("slice")
def b_slice(it, args, scope):
    check("slice", args, 3)
    s = to_text(args[0])
    start = to_int(args[1])
    n = to_int(args[2])
    return substring(s, start, n if n >= 0 else None)


@builtin("replace")
def b_replace(it, args, scope):
    check("replace", args, 3)
    s, a, b = [to_text(x) for x in args]
    if a == "":
        raise OutOfDomain("replace of nothing")
    r = s.replace(a, b)
    if len(r) > 20000:
        raise OutOfDomain("big string")
    return r


def only_string(v):
    if not isinstance(v, str):
        raise OutOfDomain("string function on %s" % ltype(v))
    return v


@builtin("trim")
def b_trim(it, args, scope):
    check("trim", args, 1)
    return only_string(args[0]).strip(WS)


@builtin("lower-case")
def b_lower(it, args, scope):
    check("lower-case", args, 1)
    return "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in only_string(args[0]))


@builtin("upper-case")
def b_upper(it, args, scope):
    check("upper-case", args, 1)
    return "".join(chr(ord(c) - 32) if "a" <= c <= "z" else c for c in only_string(args[0]))


# ---- dictionaries

def need_dict(name, v):
    if not isinstance(v, Dct):
        raise LispErr("No dictionary in " + name)
    return v.d


def dkey(v):
    if isinstance(v, (Func, Builtin)):
        raise OutOfDomain("function as a key")
    return key_order(v)


@builtin("make-dict")
def b_makedict(it, args, scope):
    check("make-dict", args, 0)
    return Dct()


@builtin("dict-set")
def b_dictset(it, args, scope):
    check("dict-set", args, 3)
    d = need_dict("dict-set", args[0])
    k = dkey(args[1])
    # the key keeps the form it was first stored with
    d[k] = (d[k][0] if k in d else args[1], args[2])
    return args[2]


@builtin("dict-get")
def b_dictget(it, args, scope):
    check("dict-get", args, 2)
    d = need_dict("dict-get", args[0])
    k = dkey(args[1])
    return unraw(d[k][1]) if k in d else UNDEF


@builtin("dict-remove")
def b_dictremove(it, args, scope):
    check("dict-remove", args, 2)
    d = need_dict("dict-remove", args[0])
    return d.pop(dkey(args[1]), None) is not None


@builtin("dict-keys")
def b_dictkeys(it, args, scope):
    check("dict-keys", args, 1)
    need_dict("dict-keys", args[0])
    return LList([k for k, _ in dict_items(args[0])])


@builtin("dict-clear")
def b_dictclear(it, args, scope):
    check("dict-clear", args, 1)
    need_dict("dict-clear", args[0]).clear()
    return UNDEF


@builtin("dict-contains-key")
def b_dicthas(it, args, scope):
    check("dict-contains-key", args, 2)
    return dkey(args[1]) in need_dict("dict-contains-key", args[0])


@builtin("dict-contains-value")
def b_dicthasval(it, args, scope):
    check("dict-contains-value", args, 2)
    d = need_dict("dict-contains-value", args[0])
    for k, v in dict_items(args[0]):
        try:
            if equal_op(v, args[1]):
                return True
        except LispErr:
            pass
    return False


# ---- mathematical functions: the C library's

def _libm(cname, n=1):
    import ctypes
    f = getattr(ctypes.CDLL("libm.so.6"), cname)
    f.restype = ctypes.c_double
    f.argtypes = [ctypes.c_double] * n
    return f


MATH = {"Sin": "sin", "Sinh": "sinh", "Asin": "asin", "Cos": "cos", "Cosh": "cosh", "Acos": "acos", "Tan": "tan", "Tanh": "tanh", "Atan": "atan", "Exp": "exp", "Log": "log",
        "Log10": "log10", "Sqrt": "sqrt", "Round": "round", "Truncate": "trunc", "Abs": "fabs", "Floor": "floor", "Ceiling": "ceil"}


def _math(name, f, n):
    def g(it, args, scope):
        check(name, args, n)
        return f(*[to_double(a) for a in args])
    builtin(name)(g)


for _n, _c in MATH.items():
    _math("Math-" + _n, _libm(_c), 1)
_math("Math-Pow", _libm("pow", 2), 2)
_math("Math-Pi", lambda: math.pi, 0)


# ---- files

class FileSystem(object):
    """the files (path -> text) and directories below the current directory"""

    def __init__(self):
        self.files = {}
        self.dirs = {""}

    def resolve(self, name):
        """-> (normal path or None if there is no such directory, must be a directory)"""
        if name == "" or name.startswith("/") or "\0" in name:
            if name == "":
                return None, False
            raise OutOfDomain("path")
        cur = ""
        parts = name.split("/")
        last = max(i for i, c in enumerate(parts) if c not in ("",)) if any(parts) else 0
        isdir = name.endswith("/")
        for i, c in enumerate(parts):
            if c == "":
                continue
            if cur not in self.dirs:
                return None, False
            if c == ".":
                isdir = isdir or i == last
                continue
            if c == "..":
                if cur == "":
                    raise OutOfDomain("path outside")
                cur = cur.rpartition("/")[0]
                isdir = isdir or i == last
                continue
            if len(c.encode("latin-1")) > 255:
                return None, False
            cur = cur + "/" + c if cur else c
        if isdir and cur in self.files:
            return None, True
        return cur, isdir

    def exists(self, name):
        return self.resolve(name)[0] in self.files

    def read(self, name):
        return self.files.get(self.resolve(name)[0], "")

    def write(self, name, text):
        if name == "/dev/full":
            return text == ""
        p, isdir = self.resolve(name)
        if p is None or isdir or p in self.dirs or p.rpartition("/")[0] not in self.dirs:
            return False
        self.files[p] = text
        return True


def need_fs(it):
    if it.fs is None:
        raise OutOfDomain("file functions")
    return it.fs


@builtin("File-Exists")
def b_fileexists(it, args, scope):
    fs = need_fs(it)
    check("File-Exists", args, 1)
    return fs.exists(to_text(args[0]))


@builtin("File-ReadAllText")
def b_fileread(it, args, scope):
    fs = need_fs(it)
    check("File-ReadAllText", args, 1)
    return fs.read(to_text(args[0]))


@builtin("File-WriteAllText")
def b_filewrite(it, args, scope):
    fs = need_fs(it)
    check("File-WriteAllText", args, 2)
    return fs.write(to_text(args[0]), to_text(args[1]))


# ---- comparison with the answers of the real interpreter

def typed(v, depth=0):
    """model value -> the decoded form of the driver's dump"""
    v = unraw(v)
    if depth > 300:
        raise OutOfDomain("cyclic value")
    if v is NOVAL:
        return ("?", "null")
    if v is NIL:
        return ("n",)
    if v is UNDEF:
        return ("u",)
    if isinstance(v, bool):
        return ("b", v)
    if isinstance(v, int):
        return ("i", v)
    if isinstance(v, float):
        return ("d", v)
    if isinstance(v, str):
        return ("s", v)
    if isinstance(v, Sym):
        return ("y", v.name)
    if isinstance(v, LList):
        return ("l", tuple(typed(e, depth + 1) for e in v.items))
    if isinstance(v, Dct):
        return ("D", tuple((typed(k, depth + 1), typed(x, depth + 1)) for k, x in dict_items(v)))
    if isinstance(v, (Func, Builtin)):
        return ("f", "")
    raise OutOfDomain("value %r" % (v,))


def same(a, b):
    """structural comparison; doubles bit-wise except that all nans are alike"""
    if a[0] != b[0]:
        return False
    if a[0] == "f" or a[0] == "e":
        return True
    if a[0] == "d":
        return a[1] == b[1] and math.copysign(1, a[1]) == math.copysign(1, b[1]) or (math.isnan(a[1]) and math.isnan(b[1]))
    if a[0] == "l":
        return len(a[1]) == len(b[1]) and all(same(x, y) for x, y in zip(a[1], b[1]))
    if a[0] == "D":
        return len(a[1]) == len(b[1]) and all(same(x, y) and same(p, q) for (x, p), (y, q) in zip(a[1], b[1]))
    return a == b


def mismatch(expected, out, res, exact_message=True):
    """expected: ('ok', typed value) | ('err', msg|None).  None if they agree."""
    if expected[0] == "ok":
        if not res.ok:
            return "expected value %s and output %r, got %s" % (show(expected[1]), out, res.brief())
        if not same(expected[1], res.value):
            return "expected value %s, got %s" % (show(expected[1]), show(res.value))
    else:
        if res.ok:
            return "expected an error (%r), got %s" % (expected[1], res.brief())
        if res.status not in ("lisp", "base"):
            return "expected a language error (%r), got %s" % (expected[1], res.brief())
        if exact_message and expected[1] is not None and not res.message.startswith(expected[1]):
            return "expected the error %r, got %r" % (expected[1], res.message)
    if out is not None and out != res.out:
        return "expected output %r, got %r" % (out, res.out)
    return None


def show(t):
    k = t[0]
    if k == "n":
        return "NIL"
    if k == "u":
        return "undefined"
    if k == "l":
        return "(" + " ".join(show(e) for e in t[1]) + ")"
    if k == "D":
        return "{" + ", ".join(show(a) + ":" + show(b) for a, b in t[1]) + "}"
    if k == "b":
        return "#t" if t[1] else "#f"
    if k == "f":
        return "<function>"
    return repr(t[1]) if k in "ids" else (t[1] if k == "y" else repr(t))
