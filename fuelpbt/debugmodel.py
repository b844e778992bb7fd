"""Reference model of the debugger: a reference interpreter which knows source positions and
consumes debugger commands, producing the complete expected transcript."""
from . import model
from .model import Sym, Raw, LList, OutOfDomain, LispErr, NOVAL, UNDEF

PROMPT = "FUEL(isp)-DBG> "
SEPS = [" ", "\n", "\n  ", " ; note (\n", "  ", "\n\n   "]


class PSym(Sym):
    __slots__ = ("line", "start", "stop")

    def __init__(self, name, line, start, stop):
        Sym.__init__(self, name)
        self.line, self.start, self.stop = line, start, stop


class Stop(Exception):
    pass


class Layout(object):
    """renders source forms with generated white space, yields run-time forms with positions"""

    def __init__(self, ws, op=None):
        self.ws = [w for w in ws if isinstance(w, int)] or [0]
        self.op = [w for w in op or [] if isinstance(w, int)]      # white space behind opening parentheses (0: none)
        self.j = 0
        self.i = 0
        self.text = ""

    def sep(self):
        self.text += SEPS[self.ws[self.i % len(self.ws)] % len(SEPS)]
        self.i += 1

    def atom(self, t):
        self.text += t

    def form(self, x):
        if x is None:
            self.atom("nil")
            return Raw(LList())
        if isinstance(x, (bool, int)):
            self.atom(model.render(x))
            return x
        if isinstance(x, str):
            s = PSym(x, self.text.count("\n") + 1, len(self.text), len(self.text) + len(x))
            self.atom(x)
            return s
        if isinstance(x, list):
            self.atom("(")
            back = ""
            if self.op:
                # only white space: the range of a token begins behind the token before it
                k = self.op[self.j % len(self.op)] % 4
                back = ["", " ", "\n  ", "  \n"][k]
                self.text += back
                self.j += 1
            out = []
            for k, e in enumerate(x):
                if k:
                    self.sep()
                out.append(self.form(e))
                if not k and isinstance(e, str):
                    out[0].start -= len(back)
            self.atom(")")
            return Raw(LList(out))
        (k, v), = x.items()
        if k in ("s", "d"):
            self.atom(model.render(x))
            return model.to_runtime(x)
        if k == "q":
            self.atom("'")
            return Raw(LList([Sym("quote"), self.form(v)]))
        raise OutOfDomain("layout")

    def program(self, forms):
        self.atom("; a program\n")
        out = []
        for f in forms:
            if not isinstance(f, list) or not f:
                raise OutOfDomain("statement")
            out.append(self.form(f))
            self.atom("\n" if self.ws[self.i % len(self.ws)] % 3 else " ")
            self.i += 1
        return out


class DebugInterp(model.Interp):
    def __init__(self, session, **kw):
        model.Interp.__init__(self, **kw)
        self.session = session
        self.glob.module = session.main
        self.files = dict((k, k) for k in session.modules)
        self.glob.vars["break"] = model.Builtin("break", b_break, False)
        self.hook = session.on_call
        self.error_hook = session.on_error
        self.tracing = session.trace
        self.out = session.out

    def module_forms(self, path):
        return self.session.modules[path]

    def call_form(self, items, scope):
        if not isinstance(items[0], Sym) and self.hook is not None:
            raise OutOfDomain("no name in front")
        return model.Interp.call_form(self, items, scope)

    def run_forms(self, forms, scope):
        if not scope.in_eval:
            scope.in_return = False
        ast = self.expand(Raw(LList([PSym("do", 1, -3, -1)] + forms)), scope)
        if ast is None:
            raise OutOfDomain("script removed")
        return self.eval(ast, scope)


def b_break(it, args, scope):
    it.out.append("break -> call stack:\n")
    s = it.session
    s.dump_stack(scope, s.depth(scope))
    s.loop(scope)
    return UNDEF


class Session(object):
    def __init__(self, main, forms, modules, cmds, max_steps=6000, texts=None, trace=False):
        self.trace = trace
        self.suspended = []
        self.texts = texts or {}
        self.main, self.forms, self.modules = main, forms, modules
        self.cmds = list(cmds)
        self.pos = 0
        self.bps = []
        self.out = []
        self.max_steps = max_steps
        self.stats = {"stops": 0, "bp": 0, "cond": 0, "runs": 0, "failed": 0, "errors": 0}
        self.reset()

    def reset(self):
        self.stop = True
        self.stopfn = lambda scope: True

    def write(self, t):
        self.out.append(t + "\n")

    def next_cmd(self):
        if self.pos >= len(self.cmds):
            return ["q"]
        self.pos += 1
        return self.cmds[self.pos - 1]

    def depth(self, scope):
        n = 0
        while scope is not None:
            n += 1
            scope = scope.prev
        return n

    # -- the whole debugger session
    def run(self):
        last = None
        while True:
            it = DebugInterp(self, max_steps=self.max_steps)
            self.it = it
            try:
                v = it.run_forms(self.forms, it.glob)
            except Stop:
                break
            except LispErr as e:
                self.stats["failed"] += 1
                self.write("\nException: EXCEPTION: %s\x01" % known(e))
                self.write("\nStack:\n<TODO>")
                try:
                    self.loop(it.glob)
                except Stop:
                    pass
                break
            except RecursionError:
                raise OutOfDomain("recursion")
            if v is NOVAL:
                raise OutOfDomain("no result")
            last = v
            self.stats["runs"] += 1
            self.reset()
            self.write("restart program")
        return last, "".join(self.out)

    def on_call(self, head, scope):
        line = getattr(head, "line", None)
        if (self.stop and self.stopfn(scope)) or self.hits(line, scope):
            self.stop = False
            self.stats["stops"] += 1
            c = scope.cur
            self.write("--> %s line=%d start=%d stop=%d module=%s token=%s" % (model.to_text(head), c.line, c.start, c.stop, scope.module, c.name))
            self.loop(scope)

    def on_error(self, e, body, scope):
        self.stats["errors"] += 1
        self.write("EXCEPTION: %s\x01" % known(e))
        body = model.unraw(body)
        if not isinstance(body, LList) or not body.items or scope.cur is None:
            raise OutOfDomain("error in an odd body")
        c = scope.cur
        self.write("--> %s line=%d start=%d stop=%d module=%s token=%s" % (model.to_text(body.items[0]), c.line, c.start, c.stop, scope.module, c.name))
        self.loop(scope)

    def hits(self, line, scope):
        for (l, mod, text, form) in self.bps:
            if mod == scope.module and l == line:
                if not text:
                    self.stats["bp"] += 1
                    return True
                self.stats["cond"] += 1
                keep = self.save(scope)
                self.it.hook = self.it.error_hook = None
                try:
                    v = self.it.run_forms([model.to_runtime(form)], scope)
                    r = v is not NOVAL and model.boolval(v)
                except LispErr:
                    self.write("Error: bad condition for line %d: %s" % (l, text))
                    r = False
                finally:
                    self.it.hook, self.it.error_hook = self.on_call, self.on_error
                    self.restore(scope, keep)
                return r
        return False

    def save(self, scope):
        # an expression is evaluated without tracing where the tracing is switched on, in the global scope
        keep = (scope.cur, scope.in_return, self.it.tracing)
        if scope is self.it.glob:
            self.it.tracing = False
        return keep

    def restore(self, scope, keep):
        scope.cur, scope.in_return, self.it.tracing = keep

    def dump_stack(self, top, level):
        lines = []
        n = self.depth(top)
        s = top
        while s is not None:
            lines.append("%3s%5d name=%-35s lineno=%-4d module=%s\n" % ("-->" if level == n else "   ", n, s.name, s.cur.line, s.module))
            s = s.prev
            n -= 1
        self.write("".join(reversed(lines)))

    def dump_vars(self, scope):
        names = [n for n, v in scope.vars.items() if not isinstance(v, model.Builtin) and n != "_additionalArgs"]
        if "_additionalArgs" in scope.vars:
            raise OutOfDomain("additional arguments")
        for n in sorted(names):
            v = scope.vars[n]
            if isinstance(v, model.Func):
                text = "function"
                if v.name:
                    text += " (%s)" % " ".join([v.name] + [model.to_text(f) for f in v.formals])
                self.write("%20s --> %-40s : %s " % (n, text, "Function"))
                continue
            v = UNDEF if v is NOVAL else v
            self.write("%20s --> %-40s : %s " % (n, model.debug_text(v), type_name(v)))

    def loop(self, top):
        cur = top
        while True:
            self.out.append(PROMPT)
            c = self.next_cmd()
            k = c[0]
            if k in ("q", "quit", "exit", ""):
                raise Stop()
            if k in ("s", "step"):
                self.stop, self.stopfn = True, lambda scope: True
                return
            if k in ("v", "over"):
                n = self.depth(cur)
                self.stop, self.stopfn = True, lambda scope: n >= self.depth(scope)
                return
            if k in ("o", "out"):
                n = self.depth(cur)
                self.stop, self.stopfn = True, lambda scope: n - 1 >= self.depth(scope)
                return
            if k in ("r", "run"):
                self.stop = False
                return
            if k in ("k", "stack"):
                self.dump_stack(top, self.depth(cur))
            elif k in ("u", "up"):
                if cur is top and cur in self.suspended:
                    raise OutOfDomain("up in an expression evaluated in a calling function")
                s = top
                while s is not cur and s.prev is not cur:
                    s = s.prev
                cur = s
            elif k in ("d", "down"):
                if cur.prev is not None:
                    cur = cur.prev
            elif k in ("l", "locals"):
                self.dump_vars(cur)
            elif k in ("g", "globals"):
                self.dump_vars(self.it.glob)
            elif k in ("t", "list"):
                self.write("Breakpoints:")
                for i, (l, mod, text, form) in enumerate(self.bps):
                    self.write("#%-3d line=%-5d module=%-25s condition=%s" % (i + 1, l, mod, text))
            elif k == "b":
                line, mod, form = c[1], c[2], c[3]
                if not isinstance(line, int):
                    self.write("Warning: no breakpoint set or modified")
                    continue
                mod = mod if mod else cur.module
                new = (line, mod, model.render(form) if form is not None else "", form)
                for i, b in enumerate(self.bps):
                    if b[0] == line and b[1] == mod:
                        self.bps[i] = new
                        break
                else:
                    self.bps.append(new)
            elif k == "clear":
                n = c[1]
                if isinstance(n, int) and 1 <= n <= len(self.bps):
                    del self.bps[n - 1]
                else:
                    self.write("Warning: no breakpoint cleared")
            elif k == "clearall":
                self.write("Really delete all breakpoints? (y/n)")
                if c[1][-1].upper() in ("Y", "YES"):
                    self.bps = []
            elif k in ("c", "code"):
                if cur.module not in self.texts:
                    raise OutOfDomain("no source")
                for i, t in enumerate(self.texts[cur.module].split("\n")):
                    bp = any(b[0] == i + 1 and b[1] == cur.module for b in self.bps)
                    self.write("%3d %2s %3s %s" % (i + 1, "B " if bp else "  ", "-->" if cur.cur.line == i + 1 else "", t))
            elif k in ("modules", "macros"):
                for n in sorted(self.it.modules if k == "modules" else self.it.macros):
                    self.write(n)
            elif k in ("doc", "searchdoc"):
                if c[1].startswith(("(", ")")):
                    self.write("Exception: Brackets out of balance")
                else:
                    text = DOCS.get((k, c[1]))
                    if text is None:
                        raise OutOfDomain("documentation")
                    keep = self.save(cur)
                    if self.it.tracing:
                        self.write("--> do\n--> %s\n--> quote" % k)
                    self.restore(cur, keep)
                    self.write("\n".join([text, text]) + "\n")
            elif k == "e":
                keep = self.save(cur)
                self.suspended.append(cur if cur is not top else None)
                try:
                    v = self.it.run_forms([Layout([0]).form(c[1])], cur)
                    self.write("result=" + model.to_text(UNDEF if v is NOVAL else v))
                except LispErr as e:
                    if e.msg is None or e.msg == 'Function "':       # called a literal: no position here
                        raise OutOfDomain("unknown message")
                    self.write("Exception: " + e.msg + "\x01")
                finally:
                    self.suspended.pop()
                    self.restore(cur, keep)
            else:
                raise OutOfDomain("command")


def known(e):
    if e.msg is None:
        raise OutOfDomain("unknown message")
    return e.msg


def type_name(v):
    v = model.unraw(v)
    if isinstance(v, bool):
        return "Bool"
    if isinstance(v, int):
        return "Int"
    if isinstance(v, float):
        return "Double"
    if isinstance(v, str):
        return "String"
    if isinstance(v, LList):
        return "List"
    raise OutOfDomain("type in a variable dump")


def entry(name, syntax, text):
    return "-" * 49 + "\n\n%s\n\nSyntax: %s\n\n%s\n\n\n" % (name, syntax, text)


KEYS = entry("dict-keys ", "(dict-keys dict)", "Returns all keys in the dictionary.")
COUNT = entry("argscount", "(argscount)", "Returns the number of arguments for the current function.")
DOCS = {("doc", "dict-keys"): KEYS, ("searchdoc", "dict-keys"): KEYS, ("searchdoc", "ict-k"): KEYS, ("doc", "argsc"): COUNT, ("searchdoc", "rgscount"): COUNT, ("doc", "rgscount"): "", ("doc", "nosuch"): "", ("searchdoc", "nosuch"): "", ("doc", "ict-k"): ""}


def command_text(c):
    """the line(s) typed"""
    k = c[0]
    if k == "b":
        sp = " " * (c[6] if len(c) > 6 else 1)
        t = "%s%s%s" % ("break" if c[4] else "b", sp, "%s:%s" % (c[2], c[1]) if c[2] and not c[5] else '"%s":%s' % (c[2], c[1]) if c[2] else c[1])
        if c[3] is not None:
            t += sp + model.render(c[3]) + sp[1:]
        return t
    if k in ("clear", "doc", "searchdoc"):
        return "%s %s" % (k, c[1])
    if k == "clearall":
        return "clear\n" + "\n".join(c[1])
    if k == "e":
        return model.render(c[1])
    return k
