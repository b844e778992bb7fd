import os
import re
import subprocess

from ..gens import rint, rstr, choose, Gen
from ..common import *
from .. import model, build

TITLE = "The command line runs exactly the given scripts, reports and options"
STATEMENT = ("The command line program runs the text given with -e, or every script file in the given order, each in a fresh interpreter, wherever the options stand; it prints what they print and for a failing one an error report with the message (and the script's name where the position is known), after which the remaining scripts still run. "
             "-t also shows the functions called and, like --macro-expand (which shows the expanded program and does not run it), the last result; -m adds the time, -x more about errors, -l the directory in which imports are searched, and -v and -h show version and help and run nothing. "
             "Unknown options and a second library path are reported and nothing is run, and the interactive shell -i, which runs no script, answers every line with its result or its error.")
OVER = ["inputs", "programs"]
QUANT = "all combinations and orders of options, script files and texts, succeeding or failing"
WHY = "Tests call a few fixed combinations; order, repetition and failing scripts in between multiply."
MECH = [("options", F_FUE + " MainExtended ContainsOptionAndRemove GetScriptFilesFromProgramArgs"), ("error report", F_LSP + " SaveEval"), ("interactive shell", F_DBG + " InteractiveLoop"), ("main program", "CppLisp/CppLisp/FuelMain.cpp")]
FILES = [F_FUE, F_LSP, F_DBG, "CppLisp/CppLisp/FuelMain.cpp"]
TECHNIQUE = "model-based property testing: generated command lines and script files against a reference interpreter, in process and through the real program"
QUICK, THOROUGH = 20000, 100000
RULE = "1-4 generated scripts (some failing, missing or empty), random options in random order, 4% through the real executable, 4% interactive; non-trivial = at least one statement was evaluated"


def script(r):
    g = Gen(r, err=r.choice([0, 0, 0.03]), max_depth=2)
    p = [["println", {"s": "out"}, rint(r)]] if r.random() < 0.7 else []
    for _ in range(r.randint(1, 4)):
        p.append(g.stmt())
    if r.random() < 0.25:
        p.insert(r.randint(0, len(p)), r.choice([["nosuch", 1], ["first"], ["nth", 7, {"q": [1]}], ["do", ["defn", "bad", ["x"], ["nosuch", "x"]], ["bad", 1]], ["+", "undefined-var", 1]]))
    if r.random() < 0.2:
        p.insert(0, ["define-macro-expand", "mx", ["a"], {"q": ["list", "a", "a"]}])
        p.append(["println", ["mx", g.expr("int", 1)]])
    if r.random() < 0.2:
        p.insert(0, ["def", "shared", rint(r)])
    if r.random() < 0.2:
        p.append(["println", "shared"])
    if r.random() < 0.3:
        p.append(["list", ["+", "shared", 1] if r.random() < 0.2 else rint(r), rstr(r, 4), {"q": ["a", 1]}])
    return p


def gen(r, tier):
    k = r.random()
    if k < 0.04:
        g = Gen(r, err=0.08, max_depth=2)
        return {"mode": "shell", "prog": [g.stmt() if r.random() < 0.8 else ["list", ["nosuch", 1]] for _ in range(r.randint(1, 8))], "tracing": False,
                "also": r.choice([[], [], ["other.fuel"], ["-e", "(println 77)"], ["-m"], ["-x", "other.fuel"], ["nosuch.fuel"], ["-l=lib"]])}
    opts = []
    for o, w in (("-t", 0.3), ("-x", 0.2), ("-m", 0.2), ("--macro-expand", 0.12), ("-v", 0.02), ("-h", 0.02), ("-q", 0.02), ("--unknown", 0.02), ("-", 0.01), ("-e", 0.3)):
        if r.random() < w:
            opts.append(o)
    ld = r.choice(["lib", "lib", "a=b", "l b", "x/y=z", "deep/er", "=", "l.fuel", "-e"])
    if r.random() < 0.12:
        opts.append("-l=" + ld)
        if r.random() < 0.25:
            opts.append("-l=other")
    if r.random() < 0.04 and opts:
        opts.append(r.choice(opts))
    n = r.choice([1, 1, 1, 2, 2, 3, 4])
    scripts = [{"name": r.choice(["a.fuel", "sub/b", "c with blank.fuel", "d.lisp", "e{0}.fuel"]), "prog": script(r)} for i in range(n)]
    for s in scripts:
        s["missing"] = r.random() < 0.05
        s["broken"] = r.random() < 0.05
        if "-l=" + ld in opts and r.random() < 0.6:
            s["prog"].insert(0, ["import", {"s": r.choice(["lib1", "lib1.fuel"])}])
            s["prog"].append(["println", ["libfun", 1]])
    args = [["o", o] for o in opts] + [["s", i] for i in range(n)]
    r.shuffle(args)
    return {"mode": "cli" if k < 0.08 else "main", "args": args, "scripts": scripts, "libarg": rint(r), "libdir": ld}


class Interp(model.Interp):
    lib = None

    def module_forms(self, path):
        return Interp.lib


def text_of(s):
    return model.render_prog(s["prog"]) + (")" if s["broken"] else "")


def describe(case):
    if case["mode"] == "shell":
        return {"interactive": [model.render(f) for f in case["prog"]]}
    return {"arguments": [a[1] if a[0] == "o" else case["scripts"][a[1]]["name"] for a in case["args"]], "scripts": [[s["name"], "missing" if s["missing"] else text_of(s)] for s in case["scripts"]], "mode": case["mode"]}


class Reader(object):
    """consumes the expected parts of the output"""

    def __init__(self, env, what, text):
        self.env, self.what, self.t = env, what, text

    def lit(self, s):
        self.env.expect(self.t.startswith(s), "%s\nexpected the output %r\n got %r" % (self.what, s[:1500], self.t[:1500]))
        self.t = self.t[len(s):]

    def rx(self, rx):
        m = re.match(rx, self.t, re.S)
        self.env.expect(m, "%s\nexpected output like %r\n got %r" % (self.what, rx[:1500], self.t[:1500]))
        self.t = self.t[m.end():]
        return m


FRAMES = r"(?: +\d+ name=[^\n]*\n)+"


def run_cli(env, args, inp=""):
    e = {"PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "ASAN_OPTIONS": "detect_leaks=0:symbolize=0", "UBSAN_OPTIONS": "halt_on_error=1"}
    if any("\0" in a for a in args):
        raise model.OutOfDomain("null character in a program argument")
    try:
        p = subprocess.run([build.cli()] + [a.encode("latin-1") for a in args], input=inp.encode("latin-1"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=env.scratch, env=e, timeout=60)
    except subprocess.TimeoutExpired:
        env.fail("the program does not end: %r" % (args,))
    env.expect(p.returncode == 0 and not p.stderr, "%r ends with exit code %d %s" % (args, p.returncode, p.stderr.decode("latin-1")[-1500:]))
    return p.stdout.decode("latin-1")


def check_shell(env, case):
    prog = case["prog"]
    if not prog or not all(isinstance(f, list) and f for f in prog):
        raise model.OutOfDomain("no program")
    it, exp = run_model(prog)
    texts = [model.render(f) for f in prog]
    if any("\n" in t or "\\" in t for t in texts):
        raise model.OutOfDomain("line")
    # script files and texts are not run
    also = case.get("also") or []
    with open(os.path.join(env.scratch, "other.fuel"), "w") as f:
        f.write("(println 77)")
    out = run_cli(env, ["-i"] + also, "\n".join(texts) + "\nquit\n")
    rd = Reader(env, "interactive " + "\n".join(texts), out)
    rd.rx(r".*?Type \"help\" for informations\.\n\n")
    for ((k, v), o), t in zip(exp, texts):
        rd.rx(r"FUEL\(isp\)(-DBG)?> ")
        rd.lit(o)
        if k == "ok":
            if v is None:
                raise model.OutOfDomain("value")
            rd.rx(r"result=[^\n]*\n")
        else:
            rd.lit("Exception: " + (v or ""))
            rd.rx(r"[^\n]*\n")
    rd.rx(r"FUEL\(isp\)(-DBG)?> ")
    if "-m" in also:
        rd.rx(r"Execution time = \d+\.\d+ s\n")
    rd.rx(r"\n?\Z")
    env.label("interactive")
    env.nontrivial(len(prog) >= 2)


def check(env, case):
    if case["mode"] == "shell":
        return check_shell(env, case)
    scripts = case["scripts"]
    base = env.subdir("cli")
    os.makedirs(base + "/sub")
    ld = case.get("libdir", "lib")
    os.makedirs(base + "/" + ld)
    lib = [["defn", "libfun", ["x"], ["list", "x", case["libarg"]]]]
    with open(base + "/" + ld + "/lib1.fuel", "w") as f:
        f.write(model.render_prog(lib))
    names = []
    seen = {}
    args = []
    for kind, a in case["args"]:
        if kind == "s":
            if not (isinstance(a, int) and 0 <= a < len(scripts)):
                raise model.OutOfDomain("script")
    eopt = ["o", "-e"] in case["args"]
    for i, s in enumerate(scripts):
        if not all(isinstance(f, list) and f for f in s["prog"]):
            raise model.OutOfDomain("script")
        seen[s["name"]] = s           # the last one of the same name is on the disk
    if not eopt:
        for n, s in seen.items():
            if not s["missing"]:
                with open(os.path.join(base, n), "w", encoding="latin-1", newline="") as f:
                    f.write(text_of(s))
    for kind, a in case["args"]:
        args.append(a if kind == "o" else text_of(scripts[a]) if eopt else scripts[a]["name"])
    if eopt and any(not a or a.startswith("-") and k == "s" for a, (k, _) in zip(args, case["args"])):
        raise model.OutOfDomain("empty text")
    opts = [a for k, a in case["args"] if k == "o"]
    order = [a for k, a in case["args"] if k == "s"]
    ran = 0
    expected = []           # parts
    if "-v" in opts and opts.count("-v") > 0:
        plan = "version"
    elif "-h" in opts or not args:
        plan = "help"
    elif sum(1 for o in opts if o.startswith("-l=")) > 1:
        plan = "libs"
    elif any(o in ("-q", "--unknown", "-") for o in opts) or len(set(opts)) < len(opts):
        plan = "unknown"
    else:
        plan = "run"
    for s in scripts:               # outside the model (endless, cyclic lists)?
        (k, v), o = model.Interp(max_steps=6000).outcome([f for f in s["prog"] if f[0] != "import"])
        if k == "ok":
            model.typed(v)
        elif v is None or "\\n" in text_of(s):
            raise model.OutOfDomain("message")
    env.worker.raw(["chdir", base])
    if case["mode"] == "cli":
        old = env.scratch
        env.scratch = base
        try:
            out = run_cli(env, args, "")
        finally:
            env.scratch = old
    else:
        q = env.worker.main(args)
        env.expect(q.ok, "%r ends with %s %s" % (args, q.status, q.message))
        out = q.out
    rd = Reader(env, "arguments %r" % args, out)
    env.label("plan " + plan, "mode " + case["mode"])
    if plan == "version":
        rd.rx(r"fuel v[\d.]+ from [\d.]+ compiled with [^\n]*\n\Z")
    elif plan == "help":
        rd.rx(r".*?usage:\n>fuel \[options\] \[script_file_name\]\n\noptions:\n  -v .*?-h .*?-e .*?-l=.*?--doc.*?--html.*?--macro-expand.*?-m .*?-t .*?-x .*?-i .*?-d .*\Z")
    elif plan == "libs":
        rd.lit("Error: only one library path is supported\n")
    elif plan == "unknown":
        rest = list(opts)
        for o in ("-t", "-x", "-m", "--macro-expand", "-e") + tuple(o for o in opts if o.startswith("-l=")):
            if o in rest:
                rest.remove(o)
        rd.lit("Error: unknown option(s) " + "".join(o + " " for o in rest) + "\n")
    else:
        tracing = "-t" in opts and not eopt
        last = None
        for i in (order[:1] if eopt else order):
            s = scripts[i] if eopt else seen[scripts[i]["name"]]
            Interp.lib = model_forms(lib)
            it = Interp(max_steps=6000)
            it.tracing = tracing
            it.files = {ld + "/lib1.fuel": 1}
            mod = "cmdline" if eopt else s["name"]
            it.glob.module = mod
            prog = [] if s["missing"] and not eopt else s["prog"]
            if any("import" in model.render(f) for f in prog):
                prog = [f for f in prog if f[0] != "import"]
                if prog != s["prog"]:
                    if tracing:
                        raise model.OutOfDomain("import")
                    if "-l=" + ld in opts:
                        prog = lib + prog
            broken = s["broken"] and not (s["missing"] and not eopt)
            if broken:
                k, v, o = "err", "Brackets out of balance or unexpected script code", ""
            elif "--macro-expand" in opts:
                if tracing or s["prog"] != prog:
                    raise model.OutOfDomain("expansion")
                ast = it.expand(model.Raw(model.LList([model.Sym("do")] + model_forms(prog))), it.glob)
                k, v, o = "ok", ast, ""
            else:
                (k, v), o = it.outcome(prog)
                ran += 1
            rd.lit(o)
            if k == "err":
                m = v or ""
                rd.lit("\nError executing script.\n\n" + m)
                g = rd.rx(r"[^\n]*?(?: --> line=(-?\d+) start=(-?\d+) stop=(-?\d+) module=([^\n]*))?\n" if case["mode"] == "main" else
                          r"([^\n]*)\n\nError executing script\.\n\n[^\n]*\n")
                if case["mode"] == "main" and g.group(4) is not None:
                    env.expect(g.group(4) in (mod, "???") or g.group(4).startswith("<evalstr>") or g.group(4).endswith("lib1.fuel"), "%s\n the error is reported for module %r instead of %r" % (rd.what, g.group(4), mod))
                    rd.rx(r"\nCallstack:\n(?:(?:not available|\?\?\?)\n|%s\n)" % FRAMES)
                    if "-x" in opts and not eopt:
                        rd.rx("\n?Exception in eval\\(\\)[^\n]*\n[^\n]*\n")
                elif case["mode"] == "cli" and rd.t.startswith("\nCallstack"):
                    rd.rx(r"(?:\nCallstack:\n(?:(?:not available|\?\?\?)\n|%s\n)){2}" % FRAMES)
                    if "-x" in opts and not eopt:
                        rd.rx("\n*Native callstack:\n(?:Exception in eval\\(\\)[^\n]*\n[^\n]*\n){2}")
                last = ("err", m)
            else:
                last = ("ok", v)
        if last is None:
            last = ("ok", model.UNDEF)
        for flag, head in (("--macro-expand", "Macro expand: "), ("-t", "Result=")):
            if flag in opts:
                rd.lit(head)
                if last[0] == "err":
                    rd.lit("Error: " + last[1])
                    rd.rx(r"[^\n]*\n")
                else:
                    v = last[1]
                    rd.lit(model.to_text(model.UNDEF if v is model.NOVAL or v is None else v) + "\n")
        if "-m" in opts:
            rd.rx(r"Execution time = \d+\.\d+ s\n")
    env.expect(rd.t == "", "%s\nunexpected output %r" % (rd.what, rd.t[:1500]))
    for o in opts:
        env.label("option " + o)
    env.nontrivial(ran > 0)


def model_forms(prog):
    return [model.to_runtime(f) for f in prog]
