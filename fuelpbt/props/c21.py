import os
import shutil

from ..gens import rint, rstr, choose
from ..common import *
from .. import model

TITLE = "Imported modules are found in search-path order and provide their definitions"
STATEMENT = ("import looks for each module as given, then (with .fuel added if missing) in the library path given on the command line, ./Library, ./lib/fuel and $FUELPATH, evaluates the first file found and returns the value of its last expression; a module which is nowhere is reported with a warning and skipped. "
             "Functions and variables defined by an imported module are usable by everything evaluated later unless the current call, the program or an enclosing function defines the same name; between modules the first in file-name order wins, macros and gdef definitions become global, and a second import evaluates the module again. "
             "Module functions see and change the variables of their own module, share them with all importers, and a module which fails reports its error and provides no definitions except the global ones made before the failure.")
OVER = ["programs", "inputs"]
QUANT = "all sets of module files with colliding definitions over all search directories, import graphs without cycles, and programs which import and use them"
WHY = "Tests import one library file; search order, name collisions between modules, nested, repeated and failing imports are combinations."
MECH = [("import", F_ENV + " Import"), ("name lookup in modules", F_ENV + " FindFunctionInModules"), ("scopes", F_SCO + " ResolveInScopes")]
FILES = [F_ENV, F_SCO, F_LSP, F_FUE]
TECHNIQUE = "property-based differential testing of generated module files and programs against a reference interpreter with a virtual file system"
QUICK, THOROUGH = 22000, 200000
RULE = "1-4 module files in up to 5 search directories plus a program of 3-10 fragments; non-trivial = at least one module file was evaluated and a name was used afterwards"
NAMES = ["x", "y", "z"]
FUNS = ["f", "g", "h"]


def use(r, d=2):
    k = r.random()
    if k < 0.4 or d <= 0:
        return r.choice(NAMES) if r.random() < 0.8 else rint(r)
    if k < 0.75:
        return [r.choice(FUNS), use(r, d - 1)]
    if k < 0.85:
        return ["mac", use(r, d - 1)]
    if k < 0.95:
        return ["list", use(r, d - 1), use(r, d - 1)]
    return ["apply", ["lambda", ["a"], ["list", "a"] + NAMES], ["list", use(r, d - 1)]]


def fun(r, tag):
    name = r.choice(FUNS) if r.random() < 0.95 else r.choice(NAMES)
    body = choose(r, [(2, lambda: ["list", {"s": tag}, "a"] + r.sample(NAMES, 2)), (2, lambda: ["do", ["setf", r.choice(NAMES), ["list", {"s": tag}, "a"]], ["list"] + NAMES]),
                      (1, lambda: ["do", ["def", r.choice(NAMES), "a"], ["list", {"s": tag}] + NAMES]), (1, lambda: ["list", {"s": tag}, [r.choice(FUNS[:1]), "a"] if name != "f" else "a"]),
                      (1, lambda: ["do", ["gdef", r.choice(NAMES), ["list", "a"]], "z"] if False else ["do", ["gdef", r.choice(NAMES), ["list", "a"]], ["list"] + NAMES])])()
    return [r.choice(["defn", "defn", "defn", "gdefn"]), name, ["a"], body]


def module(r, tag, others):
    out = []
    for _ in range(r.randint(0, 5)):
        out.append(choose(r, [(3, lambda: ["def", r.choice(NAMES) if r.random() < 0.93 else r.choice(FUNS), ["list", {"s": tag}, rint(r)]]), (3, lambda: fun(r, tag)), (0.8, lambda: ["gdef", r.choice(NAMES), {"s": "g" + tag}]),
                              (1, lambda: ["println", {"s": "in " + tag}, r.choice(NAMES)]), (0.7, lambda: ["define-macro-eval", "mac", ["p"], ["list", {"s": tag}, "p", "p"]]),
                              (1 if others else 0, lambda: ["import", imp_name(r, others)]), (0.8, lambda: ["println", use(r)]), (0.6, lambda: ["setf", r.choice(NAMES), ["list", {"s": "s" + tag}]]),
                              (0.3, lambda: ["return", {"s": "ret"}]), (0.12, lambda: ["/", 1, 0]), (0.08, lambda: ["nosuchfunction", 1])])())
    if r.random() < 0.5:
        out.append(["list", {"s": tag}, use(r, 1)])
    return out


DIRS = ["", "", "lp/", "Library/", "lib/fuel/", "fp/"]


def imp_name(r, paths):
    p = r.choice(paths)
    k = r.random()
    if k < 0.3:
        p = p if r.random() < 0.8 else "./" + p
        return {"s": p.replace("/", "\\") if r.random() < 0.15 else p}
    for d in DIRS:
        if d and p.startswith(d):
            p = p[len(d):]
            break
    if k < 0.85 and p.endswith(".fuel"):
        p = p[:-5]
    if r.random() < 0.06:
        return {"s": p.replace("/", "\\")}
    if r.random() < 0.25 and "/" not in p:
        return {"q": p} if r.random() < 0.5 else p if p not in NAMES + FUNS else {"q": p}
    return {"s": p}


def gen(r, tier):
    names = r.sample(["ma", "mb", "mc", "md", "sub/me"] + ([r.choice(["t.fuel2", "m.x", "a.fuel.b", "fuel", "mfuel", "su.b/m-1", "ma.FUEL", "q", "q", "w"])] * 2 if r.random() < 0.3 else []), r.randint(1, 3))
    names = sorted(set(names), key=names.index)
    paths = []
    for n in names:
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            p = r.choice(DIRS) + n + (".fuel" if r.random() < 0.85 else "")
            if p not in paths:
                paths.append(p)
    r.shuffle(paths)
    files = {}
    for i, p in enumerate(paths):
        files[p] = module(r, "M%d" % i, paths[:i]) if r.random() < 0.96 else ""
    prog = []
    allp = paths + ["missing"]
    for _ in range(r.randint(3, 10)):
        prog.append(choose(r, [(3, lambda: ["import"] + [imp_name(r, paths if r.random() < 0.9 else allp + ["missing2"]) for _ in range(r.choice([1, 1, 1, 1, 2, 2, 3, 4]))]),
                               (2.5, lambda: ["println", use(r, 3)]), (1, lambda: ["list"] + NAMES), (0.8, lambda: ["def", r.choice(NAMES), {"s": "main"}]), (0.5, lambda: fun(r, "main")),
                               (0.8, lambda: ["setf", r.choice(NAMES), {"s": "smain"}]), (0.5, lambda: ["println", ["import", imp_name(r, allp)]]),
                               (0.7, lambda: ["apply", ["lambda", ["y"], ["do", ["import", imp_name(r, paths)], ["list", use(r, 2)] + NAMES]], {"q": [1]}])])())
    prog.insert(r.randint(0, 2), ["import", imp_name(r, paths)])
    for fn in r.sample(FUNS, 2):
        prog.append([fn, 7])
    prog.append(["list"] + NAMES)
    case = {"files": files, "prog": prog, "lib": r.random() < 0.35, "fuelpath": r.random() < 0.6}
    if case["lib"] and r.random() < 0.2:
        case["dashx"] = True
    return case


def describe(case):
    d = {"file " + p: (model.render_prog(c) if c else c) for p, c in case["files"].items()}
    d["program"] = [model.render(f) for f in case["prog"]]
    d["library path option"], d["FUELPATH=fp"] = case["lib"], case["fuelpath"]
    return d


def check(env, case):
    prog, files = case["prog"], case["files"]
    if not prog or not all(isinstance(f, (list, dict)) for f in prog):
        raise model.OutOfDomain("no program")
    for p, c in files.items():
        if c and not all(isinstance(f, (list, dict)) for f in c) or not isinstance(c, (list, str)):
            raise model.OutOfDomain("no module")
        if c == []:
            files = dict(files)
            files[p] = ""
    it = model.Interp(max_steps=8000)
    it.files = files
    it.fuelpath = "fp" if case["fuelpath"] else None
    if case["lib"]:
        it.libpath = "lp"
        (k, v), out = it.outcome(prog)
        if k == "ok":
            model.typed(v)
    else:
        exp = []
        for f in prog:
            (k, v), o = it.outcome([f])
            exp.append(((k, model.typed(v) if k == "ok" else v), o))
    try:
        for p, c in files.items():
            q = os.path.join(env.scratch, p)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "w", encoding="latin-1") as f:
                f.write(model.render_prog(c) if c else "")
        env.worker.raw(["setenv", "FUELPATH"] + (["fp"] if case["fuelpath"] else []))
        if case["lib"]:
            with open(os.path.join(env.scratch, "main.fuel"), "w", encoding="latin-1") as f:
                f.write(model.render_prog(prog))
            res = env.worker.main(["-l=lp", "main.fuel"])
            if not res.ok:
                env.fail("status %s %s" % (res.status, res.message))
            if k == "ok":
                env.expect(res.cout == out, "output %r instead of %r" % (res.cout, out))
            else:
                env.expect(res.cout.startswith(out) and "Error executing script" in res.cout[len(out):] and (v is None or v in res.cout[len(out):]),
                           "output %r instead of %r and error %r" % (res.cout, out, v))
        else:
            compare_session(env, prog, exp, exact_message=True)
    finally:
        env.worker.raw(["setenv", "FUELPATH"])
        for n in os.listdir(env.scratch):
            q = os.path.join(env.scratch, n)
            if os.path.isdir(q):
                shutil.rmtree(q)
            else:
                os.unlink(q)
    env.label("%d modules loaded" % min(3, len(it.modules)), "with a library path" if case["lib"] else "session")
    for p in it.modules:
        env.label("found in " + (os.path.dirname(p) or "the current directory"))
    env.nontrivial(bool(it.modules))
