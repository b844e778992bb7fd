import os
import re

from ..gens import rint, rstr, choose, Gen
from ..common import *
from .. import model

TITLE = "Watching a program in the debugger does not change what it does"
STATEMENT = ("A program run under the debugger, whatever breakpoints, conditions, steps, listings and evaluated expressions without side effects are used at its stops, prints exactly what it prints in a plain run, in the same order, and fails with the same error or not at all; leaving the debugger early only cuts its output short. "
             "This holds for every run after a restart of the program as well. "
             "A command which is unknown, malformed or out of place is answered and changes nothing.")
OVER = ["programs", "histories"]
QUANT = "all programs, failing ones included, and all sequences of debugger commands without side effects"
WHY = "Tests compare a fixed transcript; that no command at no stop disturbs the program is a statement about all programs and command histories."
MECH = [("stop handling", F_DBG + " InteractiveLoop HitsBreakpoint DebuggerLoop"), ("call hook and error stop", F_INT + " EvalAst"), ("listings", F_SCO + " DumpVars DumpStackToString")]
FILES = [F_DBG, F_INT, F_SCO, F_LSP]
TECHNIQUE = "metamorphic testing: generated programs and command histories, debugged run compared with the plain run"
QUICK, THOROUGH = 4800, 40000
RULE = "programs of 4-12 statements (functions, closures, macros, loops, list changes, about a third failing) with printed lines, 5-40 debugger commands; non-trivial = at least 4 stops and 2 printed lines"

REGRESS = [{"prog": [["def", "x", 1], ["println", {"s": "@"}, "x"]], "cmds": ['b "a', "r"], "sep": "\n", "split": 1}, {"prog": [["println", {"s": "@"}], ["nosuch"]], "cmds": ["s", "s", "s", "s", "(+ 1 (+ 1 1))"], "sep": "\n", "split": 1}]
CONDS = [None, None, "(< 1 2)", "(< 2 1)", "(> v1 0)", "(nosuch)", "5", "(list)", "#f", "(== p1 1)", "(", ")", "'", "(do (def q9 3) (== q9 3))", "(and (< 1 2) (nosuch 1))", "\"s\"", "(+ 1", "(eval '(< 1 2))", "((lambda (z) (< z 2)) 1)", "(apply (lambda (z) (< z 2)) '(1))",
         "(if (< 1 2) #t #f)", "(map (lambda (z) z) '(1))", "(do (return #t) #f)", "(return #t)"]
EXPRS = ["(+ 1 2)", "v1", "v2", "p1", "(list v1 v2 v3)", "(nosuch)", "(first)", "(", ")", "(+ 1", "\"abc", "'", "nil", "(str v1)", "(args)", "(argscount)", "(len v3)", "(if #t 1 2)", "(type v1)", "(quasiquote (1 (unquote v1)))", "5", "\"text\"", "(1 2)", "xyz", "(apply (lambda (a b) (+ a b)) '(1 2))",
         "(map (lambda (z) (* z z)) '(1 2 3))", "(eval '(+ 1 2))", "(evalstr \"(+ 1 2)\")", "(return 5)", "(do (return 1) 2)", "(do (def zq 1) (while (< zq 3) (setf zq (+ zq 1))) zq)", "(vars)", "(tickcount)", "(nth 0 (list 1 2))", "((lambda (a) a) 3)", "#(", "(arg 0)", "(arg 7)", "(/ 1 0)", "this", "(gettrace)"]


def printing(f, n=[0]):
    if isinstance(f, list):
        if f and f[0] in ("println", "print"):
            return ["println", {"s": "@"}] + [printing(x) for x in f[1:]]
        return [printing(x) for x in f]
    if isinstance(f, dict) and list(f)[0] in ("q", "qq", "u", "us"):
        k = list(f)[0]
        return {k: f[k]} if k == "q" and not isinstance(f[k], list) else {k: printing(f[k])}
    return f


def command(r, n):
    def bp():
        c = r.choice(CONDS)
        where = r.choice([str(r.randint(1, n)), str(r.randint(1, n)), "prog.fuel:%d" % r.randint(1, n), '"prog.fuel":%d' % r.randint(1, n), "mod.fuel:%d" % r.randint(1, 4), "x", "-1", "99999999999999", ":", ":3", "prog.fuel:", '"', '"a', "\"a\":", "1 2 3"])
        return r.choice(["b", "b", "break"]) + " " + where + (" " + c if c else "")
    return choose(r, [(4, lambda: r.choice(["s", "step"])), (3, lambda: r.choice(["v", "over"])), (2, lambda: r.choice(["o", "out"])), (2.5, lambda: r.choice(["r", "run"])), (4, bp),
                      (4, lambda: r.choice(EXPRS)), (2, lambda: r.choice(["k", "stack", "u", "up", "d", "down", "l", "locals", "g", "globals", "c", "code"])), (0.3, lambda: r.choice(["t", "list"])),
                      (0.35, lambda: r.choice(["help", "h", "about", "funcs", "macros", "builtins", "modules", "version", "ver", "doc", "doc map", "doc map nosuch", "searchdoc dict", "searchdoc", "doc nosuch", "doc )", "doc (", "doc  map", "doc \"", "searchdoc (", "searchdoc )", "doc '", "docu x", "doc @", "searchdoc ,", "doc ;", "doc map ("])),
                      (0.6, lambda: "clear " + r.choice(["1", "2", "9", "0", "-1", "x", "1 2", "99999999999999"])), (0.2, lambda: r.choice(["clear\ny", "clear\nn", "clear\n"])), (0.35, lambda: "restart"), (0.1, lambda: r.choice(["q", "quit", "exit", "", "   "])),
                      (0.4, lambda: "".join(r.choice("()'`,@\"; abkstov1{}0") for _ in range(r.randint(1, 8))) + "("), (0.3, lambda: "  " + r.choice(["s", "v", "(+ 1 1)"]) + "  ")])()


def gen(r, tier):
    g = Gen(r, {"print": 1.3, "mutate": 1, "call": 2, "defn": 1.5}, err=r.choice([0, 0, 0.02]), max_depth=3)
    prog = []
    if r.random() < 0.3:
        prog.append(["define-macro-eval", "me", ["a", "b"], ["do", ["println", {"s": "m"}, "a"], ["list", "b", "a"]]])
    if r.random() < 0.2:
        prog.append(["define-macro-expand", "mx", ["a"], {"q": ["do", ["println", {"s": "x"}, "a"]]}])
    macs = [f[1] for f in prog]
    for _ in range(r.randint(4, 11)):
        s = g.stmt()
        if r.random() < 0.3:
            s = ["println", s] if s[0] not in ("def", "defn", "gdef", "gdefn", "setf", "while", "do") else s
        prog.append(s)
        if macs and r.random() < 0.3:
            m = r.choice(macs)
            prog.append(["println", [m, g.expr("int", 2)] + ([g.expr("str", 1)] if m == "me" else [])])
    if r.random() < 0.15:
        prog.insert(r.randint(0, len(prog)), choose(r, [(1, ["nosuch", 1]), (1, ["first"]), (1, ["do", ["defn", "bad", ["x"], ["do", ["println", "x"], ["nosuch", "x"]]], ["map", "bad", ["list", 1, 2]]])]))
    prog.append(["println", {"s": "end"}] + sorted(g.vars[0]))
    prog = [printing(f) for f in prog]
    sep = r.choice(["\n", "\n", " ", "\n\n", "\n; c (\n"])
    n = len(prog) * (1 + sep.count("\n"))
    cmds = [command(r, n) for _ in range(r.randint(4, 40))]
    return {"prog": prog, "cmds": cmds, "sep": sep, "split": r.randint(0, 3)}


def text_of(case):
    t = case["sep"].join(model.render(f) for f in case["prog"])
    if case["split"] == 0:      # several lines per statement
        out, ins, depth = "", False, 0
        i = 0
        while i < len(t):
            c = t[i]
            if ins:
                out += c
                if c == "\\":
                    i += 1
                    out += t[i]
                elif c == '"':
                    ins = False
            else:
                if c == '"':
                    ins = True
                out += "\n" if c == " " and i % 3 == 0 else c
                if c == ";":
                    while i + 1 < len(t) and t[i + 1] != "\n":
                        i += 1
                        out += t[i]
            i += 1
        t = out
    return t


def describe(case):
    return {"program": text_of(case).split("\n"), "commands": "\n".join(case["cmds"]).split("\n")}


def lines(t):
    return [l for l in t.split("\n") if l.startswith("@")]


def check(env, case):
    prog = case["prog"]
    if not prog or not all(isinstance(f, list) and f for f in prog) or not all(isinstance(c, str) for c in case["cmds"]):
        raise model.OutOfDomain("no program")
    it = model.Interp(max_steps=8000)
    it.outcome(prog)                    # programs outside the model (endless, too big) are left out
    text = text_of(case)
    with open(os.path.join(env.scratch, "prog.fuel"), "w", newline="", encoding="latin-1") as f:
        f.write(text)
    plain = env.worker.main(["prog.fuel"])
    env.expect(plain.ok, "the plain run ends with %s %s" % (plain.status, plain.message))
    m = re.search(r"\nError executing script\.\n\n(.*?)(?: --> line=|\n\nError executing script|\n*\Z)", plain.cout, re.S)
    want = lines(plain.cout)
    inp = "\n".join(case["cmds"]) + "\n"
    dbg = env.worker.main(["-d", "prog.fuel"], inp=inp)
    env.expect(dbg.ok, "the debugger ends with %s %s" % (dbg.status, dbg.message))
    i = dbg.cout.find("Type \"help\" for informations.\n\n")
    env.expect(i >= 0, "no header: %r" % dbg.cout)
    t = dbg.cout[i + 31:].replace("FUEL(isp)-DBG> ", "")
    segs = ("\n" + t).split("\nrestart program\n")
    stops = 0
    restarts = case["cmds"].count("restart")
    for j, s in enumerate(segs):
        got = lines(s)
        e = re.search(r"\n\nException: EXCEPTION: (.*?)\n\nStack:\n", "\n" + s, re.S)
        stops += s.count("--> ")
        last = j == len(segs) - 1
        where = "run %d of the program under the debugger prints\n%s\ninstead of\n%s\n-- program\n%s\n-- transcript\n%s" % (j + 1, "\n".join(got), "\n".join(want), text, s[:3000])
        if e:
            env.expect(m, "the program fails under the debugger only, %s\n%s" % (e.group(1), where))
            env.expect(e.group(1) == m.group(1), "the program fails with %r instead of %r" % (e.group(1), m.group(1)))
            env.expect(got == want, where)
        elif last or m is not None:
            # the debugger was left, or the failed program restarted at an inner stop
            env.expect(got == want[:len(got)], where)
        else:
            env.expect(got == want, where)
    env.label("failing program" if m else "succeeding program", "%d runs" % min(len(segs), 5))
    for c in case["cmds"]:
        w = c.split()
        env.label("command " + (w[0] if w and w[0].isalpha() and len(w[0]) < 10 else "expression"))
    env.nontrivial(stops >= 4 and len(want) >= 2)
