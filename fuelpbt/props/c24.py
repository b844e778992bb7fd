import os

from ..gens import rint, rstr, choose
from ..common import *
from .. import model, debugmodel

TITLE = "Breakpoints and stepping stop the program exactly where they should"
STATEMENT = ("Under the debugger a program stops before its first call, then, each time after the arguments of a call were evaluated: after step at the next call, after over at the next call which is not inside of a function called meanwhile, after out at the next call in a calling function, and always at a call whose name stands in a line of its module with a breakpoint whose condition, evaluated with the variables of that call, is true. "
             "At a stop the call, its position, the call stack and the variables of the function selected with up and down are shown and expressions are evaluated there, while a condition which fails or is no boolean is reported and does not stop. "
             "Breakpoints are listed in the order in which they were set, one per line and module (the last one wins), removed by their number, and kept when the finished program is restarted.")
OVER = ["programs", "histories"]
QUANT = "all programs of nested function calls, loops and modules in arbitrary layout, and all sequences of debugger commands"
WHY = "Tests drive two or three fixed command sequences; where a program stops depends on the command history, the call depth and the layout of the program."
MECH = [("debugger", F_DBG + " NeedsBreak HitsBreakpoint DoStep DoStepOver DoStepOut InteractiveLoop"), ("call hook", F_INT + " EvalAst"), ("call stack", F_SCO + " DumpStackToString")]
FILES = [F_DBG, F_INT, F_SCO]
TECHNIQUE = "model-based testing: generated programs and command histories against a reference model of interpreter and debugger, comparing complete transcripts"
QUICK, THOROUGH = 11000, 100000
RULE = "a program of 4-9 statements with up to 4 functions in 1-2 files and 5-25 debugger commands; non-trivial = at least 3 stops, at least one in a function or at a breakpoint"
ANSWERS = ("Y", "YES", "N", "NO", "")
V = ["x", "y", "n"]


def expr(r, d, vs, fs):
    k = r.random()
    if fs and r.random() < 0.012:
        return r.choice([["nosuch", expr(r, 0, vs, {})], ["nth", 9, ["list", 1]], ["if", 5, 1, 2], ["if", ["<", expr(r, 0, vs, {}), 3], ["nosuch"], 1], ["first"], ["list", 1, ["nosuch"]], ["apply", 5, {"q": [1]}]])
    if d <= 0 or k < 0.25:
        return r.choice(vs) if vs and r.random() < 0.6 else r.randint(0, 9)
    if k < 0.5:
        return [r.choice(["+", "-", "*"]), expr(r, d - 1, vs, fs), expr(r, d - 1, vs, fs)]
    if k < 0.85 and fs:
        f = r.choice(sorted(fs))
        if f == "rec":
            return ["rec", r.randint(0, 2) if r.random() < 0.9 else r.randint(3, 16)]
        if f == "mac":
            return ["mac", expr(r, d - 1, vs, fs), expr(r, d - 1, vs, fs)]
        return [f] + [expr(r, d - 1, vs, fs) for _ in range(fs[f])]
    if k < 0.9:
        return ["apply", ["lambda", ["x"], ["+", "x", expr(r, d - 1, vs + ["x"], {})]], {"q": [r.randint(0, 5)]}]
    return ["if", ["<", expr(r, d - 1, vs, fs), expr(r, 0, vs, fs)], expr(r, d - 1, vs, fs), expr(r, 0, vs, fs)]


def stmt(r, d, vs, fs):
    return choose(r, [(3, lambda: ["println", expr(r, d, vs, fs)]), (2, lambda: ["println", {"s": r.choice(["a", "line"])}, expr(r, d, vs, fs)]), (1.5, lambda: ["def", r.choice(V), expr(r, d, vs, fs)]),
                      (1, lambda: ["do", ["def", "k", 0], ["while", ["<", "k", r.randint(1, 3)], ["do", ["println", expr(r, d - 1, vs, fs)], ["setf", "k", ["+", "k", 1]]]]]),
                      (0.7, lambda: ["println", ["map", r.choice([["lambda", ["y"], ["+", "y", expr(r, 1, vs, {})]]] + [f for f in fs if fs[f] == 1 and f not in ("rec", "mac")]), {"q": [1, 2]}]]),
                      (0.5, lambda: ["do", stmt(r, 0, vs, fs), stmt(r, 0, vs, fs)]), (0.3, lambda: ["break"])])()


def fun(r, name, vs, fs):
    n = r.randint(0, 2)
    ps = r.sample(["x", "y", "z"], n)
    if name == "rec":
        return ["defn", "rec", ["n"], ["if", ["<=", "n", 0], 0, ["+", "n", ["rec", ["-", "n", 1]]]]], 1
    b = expr(r, 2, ps + vs[:1], fs)
    if r.random() < 0.6:
        b = ["do"] + [stmt(r, 1, ps + vs[:1], fs) for _ in range(r.randint(1, 2))] + [b if isinstance(b, list) else ["+", b, 0]]
    return ["defn", name, ps, b], n


def usercall(r, fs):
    f = r.choice(sorted(fs))
    return [f] + [r.randint(0, 2) for _ in range(1 if f == "rec" else fs[f])]


def burst(r, fs):
    """moving between the functions of the call stack, looking and evaluating there"""
    out = []
    for _ in range(r.randint(2, 6)):
        out.append(choose(r, [(3, lambda: ["d"]), (2, lambda: ["u"]), (0.7, lambda: ["k"]), (1, lambda: ["l"]), (0.5, lambda: ["c"]), (1, lambda: ["e", usercall(r, fs) if r.random() < 0.6 else ["list", "x", "y", "n"]])])())
    return out + r.choice([[["k"]], [["l"]], [["s"]], [["o"]], [["v"]]])


def command(r, lines, hasmod, fs):
    def bp():
        mod = r.choice(["", "", "", "mod.fuel" if hasmod else "", "main.fuel", "main.fuel", r.choice(["nofile", "sub/main.fuel", "main", "ain.fuel", "main.fuel.fuel", "xmod.fuel", "mod", "MAIN.FUEL"])])
        cond = r.choice([None, None, [">", "x", r.randint(0, 5)], ["==", r.choice(["n", "y", "k"]), r.randint(0, 2)], ["<", "x", 3], ["and", ["<", 1, 2], ["<", "x", "y"]], ["+", 1, "x"], ["nosuch", 1], ["do", ["println", {"s": "cond"}], ["<", 1, 2]],
                         ["setf", "x", 5]])
        line = r.randint(2, lines) if r.random() < 0.95 else r.choice(["x", "3x", 99, 0, "+"])
        return ["b", line, mod, cond, r.random() < 0.3, r.random() < 0.3, r.choice([1, 1, 1, 2, 3])]
    return choose(r, [(3, lambda: [r.choice(["s", "s", "step"])]), (3, lambda: [r.choice(["v", "v", "over"])]), (2, lambda: [r.choice(["o", "out"])]), (2, lambda: [r.choice(["r", "r", "run"])]), (2.5, bp),
                      (1, lambda: [r.choice(["k", "stack"])]), (0.6, lambda: [r.choice(["u", "up"])]), (0.9, lambda: [r.choice(["d", "down"])]), (0.6, lambda: [r.choice(["l", "locals"])]), (0.25, lambda: [r.choice(["g", "globals"])]), (0.5, lambda: [r.choice(["t", "list"])]),
                      (0.4, lambda: ["clear", r.choice([1, 1, 2, 3, 0, 9, "x"])]), (0.6, lambda: [r.choice(["c", "code"])]), (0.2, lambda: [r.choice(["modules", "macros"])]), (0.4, lambda: r.choice([list(d) for d in debugmodel.DOCS] + [["doc", ")"], ["doc", "("], ["searchdoc", "("], ["doc", "(x"]])), (0.15, lambda: ["clearall", [r.choice(["maybe", "yy", "0", "ye", "t"]) for _ in range(r.choice([0, 0, 1, 2]))] + [r.choice(["y", "Y", "yes", "YES", "Yes", "y", "n", "N", "no", "No", ""])]]),
                      (1, lambda: ["e", r.choice([["+", "x", 1], ["list", "x", "y", "n", "k"], ["setf", "x", r.randint(0, 9)], ["println", "x", {"s": "!"}], ["nosuch"], ["first"], ["list", ["+", 1, 2], "y"], ["def", "y", 7]] + [usercall(r, fs)] * 3 + ([["import", {"s": "mod.fuel"}]] if hasmod else []))]),
                      (0.08, lambda: [r.choice(["q", "quit", "exit"])])])()


def gen(r, tier):
    fs = {}
    mod = []
    prog = []
    if r.random() < 0.35:
        for nm in ["mf", "mg"][:r.randint(1, 2)]:
            f, n = fun(r, nm, [], fs)
            mod.append(f)
            fs[nm] = n
        if r.random() < 0.3:
            mod.append(["println", {"s": "module"}])
        if r.random() < 0.08:
            mod.append(r.choice([["nosuch"], ["first"], ["println", ["nth", 9, ["list", 1]]], ["if", 5, 1, 2]]))
        prog.append(["import", {"s": "mod.fuel"}])
    for v in r.sample(["x", "y", "n"], r.randint(1, 3)):
        prog.append(["def", v, r.randint(0, 9)])
    vs = [f[1] for f in prog if f[0] == "def"]
    if r.random() < 0.25:
        prog.append(["define-macro-eval", "mac", ["a", "b"], choose(r, [(1, ["+", ["*", "a", 2], "b"]), (1, ["do", ["println", "a"], ["+", "b", "a"]]), (1, ["if", ["<", "a", "b"], ["-", "b", "a"], ["+", "a", 0]]), (0.5, ["apply", ["lambda", ["z"], ["+", "z", "a"]], ["list", "b"]])])])
        fs["mac"] = 2
    for nm in r.sample(["f", "g", "h", "rec"], r.randint(1, 3)):
        f, n = fun(r, nm, vs, fs)
        prog.append(f)
        fs[nm] = n
    for _ in range(r.randint(2, 5)):
        prog.append(stmt(r, r.randint(1, 3), vs, fs))
    prog.append(["list", 1])
    ws = [r.choice([0, 0, 0, 0, 1, 2, 3, 4, 5]) for _ in range(r.choice([1, 2, 5, 9, 16]))]
    op = [r.choice([0, 0, 0, 1, 2, 3, 4, 5, 6]) for _ in range(r.choice([2, 5, 9]))] if r.random() < 0.25 else []
    L = debugmodel.Layout(ws, op)
    L.program(prog)
    n = L.text.count("\n") + 1
    fs["rec"] = 1
    cmds = []
    ncmds = r.randint(4, 25)
    while len(cmds) < ncmds:
        cmds += burst(r, fs) if r.random() < 0.06 else [command(r, n, bool(mod), fs)]
    return {"prog": prog, "mod": mod, "ws": ws, "op": op, "cmds": cmds, "trace": r.random() < 0.08, "e": r.random() < 0.08}


def describe(case):
    L = debugmodel.Layout(case["ws"], case.get("op"))
    L.program(case["prog"])
    M = debugmodel.Layout(case["ws"], case.get("op"))
    M.program(case["mod"])
    return {"program": L.text.split("\n"), "module": M.text.split("\n"), "commands": "\n".join(debugmodel.command_text(c) for c in case["cmds"]).split("\n")}


def check(env, case):
    L = debugmodel.Layout(case["ws"], case.get("op"))
    forms = L.program(case["prog"])
    M = debugmodel.Layout(case["ws"], case.get("op"))
    mforms = M.program(case["mod"])
    for c in case["cmds"]:
        if not isinstance(c, list) or not c or c[0] == "b" and (len(c) not in (6, 7) or len(c) == 7 and (not isinstance(c[6], int) or c[6] < 1)) or c[0] in ("clear", "clearall", "e", "doc", "searchdoc") and len(c) != 2 or c[0] in ("doc", "searchdoc") and not isinstance(c[1], str):
            raise model.OutOfDomain("command")
        if c[0] == "clearall" and not (isinstance(c[1], list) and c[1] and all(isinstance(a, str) and "\n" not in a and a.upper() not in ANSWERS for a in c[1][:-1]) and isinstance(c[1][-1], str) and c[1][-1].upper() in ANSWERS):
            raise model.OutOfDomain("command")
        if c[0] == "e" and not (isinstance(c[1], list) and c[1]) or c[0] == "b" and (c[3] is not None and not isinstance(c[3], list) or c[1] == 1 or not isinstance(c[1], (int, str)) or isinstance(c[1], int) and c[1] < 0):
            raise model.OutOfDomain("command")
    # the text can also be given on the command line
    main = "command-line" if case.get("e") else "main.fuel"
    cmds = [c[:2] + [main] + c[3:] if c[0] == "b" and c[2] == "main.fuel" else c for c in case["cmds"]]
    s = debugmodel.Session(main, forms, {"mod.fuel": mforms} if case["mod"] else {}, cmds, texts={main: L.text, "mod.fuel": M.text}, trace=bool(case.get("trace")))
    last, want = s.run()
    with open(os.path.join(env.scratch, "main.fuel"), "w") as f:
        f.write(L.text)
    q = os.path.join(env.scratch, "mod.fuel")
    if case["mod"]:
        with open(q, "w") as f:
            f.write(M.text)
    elif os.path.exists(q):
        os.unlink(q)
    inp = "\n".join(debugmodel.command_text(c) for c in cmds) + "\n"
    if main == "command-line" and L.text.startswith("-"):
        raise model.OutOfDomain("text")
    res = env.worker.main(["-d"] + (["-t"] if s.trace else []) + (["-e", L.text] if main == "command-line" else ["main.fuel"]), inp=inp)
    if not res.ok:
        env.fail("the debugger ends with %s %s" % (res.status, res.message))
    head = "Type \"help\" for informations.\n\n"
    i = res.cout.find(head)
    got = res.cout[i + len(head):].split("\n")
    if s.trace:
        want += "Result=%s\n" % ("<undefined>" if last is None else model.to_text(last))
    want = want.split("\n")
    for j, w in enumerate(want):         # the model knows the beginning of some messages only
        if w.endswith("\x01"):
            want[j] = w[:-1]
            if j < len(got) and got[j].startswith(w[:-1]):
                got[j] = w[:-1]
    got, want = "\n".join(got), "\n".join(want)
    if i < 0 or got != want:
        k = 0
        while k < min(len(got), len(want)) and got[k] == want[k]:
            k += 1
        b = want.rfind("\n", 0, k) + 1
        env.fail("the transcript differs after\n%s\n-- expected:\n%s\n-- got:\n%s" % (want[max(0, b - 400):b], want[b:b + 300], got[b:b + 300]))
    env.label("%d complete runs" % min(s.stats["runs"], 3), "with a module" if case["mod"] else "one file")
    if s.stats["errors"] or s.stats["failed"]:
        env.label("stops at an error")
    if main == "command-line":
        env.label("program on the command line")
    if s.trace:
        env.label("with tracing")
    if s.stats["bp"]:
        env.label("stops at a breakpoint")
    if s.stats["cond"]:
        env.label("evaluates a condition")
    for c in case["cmds"][:s.pos]:
        env.label("command " + c[0])
    env.nontrivial(s.stats["stops"] >= 3 and (s.stats["bp"] or s.stats["cond"] or "name=" in want or s.stats["stops"] > 4))
