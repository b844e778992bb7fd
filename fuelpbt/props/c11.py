from ..gens import rint, rstr, choose
from ..common import *

TITLE = "In-place changes of a list are seen through every alias, and only there"
STATEMENT = ("push, pop and setf of first, last or nth (at the top also through a function which gives such a place) change the very list object they are given: the change is visible through every variable, list element, dictionary value, function parameter and closure which holds the same list, "
             "and no other list changes (copies made by cons, append, rest, reverse or list stay as they were); "
             "push inserts before the given position (default 0) and pop removes and returns the element there; a position behind the end changes nothing and gives nil. "
             "A negative position, or setf on a position that does not exist, is reported as an error and changes nothing.")
OVER = ["histories"]
QUANT = "all sequences of push, pop, setf and pure list operations over a graph of aliased, nested and shared lists, all positions"
WHY = "Tests change one list through one name; aliasing needs operation histories over several names, containers and function calls."
MECH = [("in-place functions", F_ENV + " Push Pop"), ("setf of places", F_ENV + " setf_form First Last Nth (need-l-value)"), ("list sharing", F_VAR + ", " + F_OBJ)]
FILES = [F_ENV, F_VAR, F_OBJ]
TECHNIQUE = "stateful model-based testing: random operation histories over aliased lists against a reference heap model"
QUICK, THOROUGH = 14000, 120000
RULE = "histories of 6-25 operations over up to 7 list variables; all variables are compared after every operation; non-trivial = at least 3 changes in place took effect and two names share a list"


def item(r):
    return choose(r, [(5, lambda: rint(r)), (1.5, lambda: rstr(r, 3)), (1, lambda: r.random() < 0.5), (0.5, lambda: {"q": "sy"}), (0.3, lambda: None), (0.4, lambda: {"d": r.choice(["0.5", "2.0", "-1.5"])})])()


def gen(r, tier):
    names, prog = [], []

    def new(e):
        n = "l%d" % len(names)
        prog.append(["def", n, e])
        names.append(n)

    def fresh_list():
        k = r.random()
        if k < 0.5:
            return ["list"] + [item(r) for _ in range(r.choice([0, 1, 2, 3, 4]))]
        if k < 0.75:
            return {"q": [rint(r) if r.random() < 0.7 else [rint(r) for _ in range(r.randint(0, 3))] for _ in range(r.choice([1, 2, 3]))]}
        if k < 0.82:
            return {"qq": [choose(r, [(3, lambda: rint(r)), (1, lambda: {"u": r.choice(names) if names else 5}), (1, lambda: {"us": r.choice(names) if names else {"q": [8]}})])() for _ in range(r.choice([0, 0, 1, 1, 2, 3]))]}
        return ["list"] + [r.choice(names) if names and r.random() < 0.6 else item(r) for _ in range(r.choice([1, 2, 3]))]

    new(fresh_list())
    prog.append(["defn", "pushit", ["x", "l"], ["push", "x", "l"]])
    prog.append(["defn", "four", ["k", "x", "m", "l"], ["do", ["push", "x", "l"], ["list", "l"]]])
    prog.append(["defn", "setit", ["x", "l"], ["do", ["setf", ["first", "l"], "x"], ["list", "x"]]])
    prog.append(["defn", "mk", ["l"], ["lambda", ["x"], ["push", "x", "l"]]])
    # functions which stand for a place of a list
    prog.append(["defn", "head", ["q"], ["first", "q"]])
    prog.append(["defn", "at", ["q", "n"], ["do", ["def", "w", ["rval", ["len", "q"]]], ["nth", "n", "q"]]])
    prog.append(["defn", "deep", ["q", "n"], ["if", [">", "n", 0], ["deep", ["rval", ["first", "q"]], ["-", "n", 1]], ["last", "q"]]])
    prog.append(["defn", "setat", ["x", "l", "n"], ["do", ["setf", ["nth", ["rval", ["first", ["list", "n"]]], "l"], "x"], ["list", ["head", "l"]]]])
    nq = r.choice([0, 0, 1, 2])
    for i in range(nq):
        # a list written in the code of a function: every call starts with the list as it is written
        lit = [rint(r) if r.random() < 0.6 else [rint(r) for _ in range(r.randint(0, 2))] for _ in range(r.choice([0, 1, 2, 3]))]
        lit = {"q": lit} if r.random() < 0.7 else ["list"] + [{"q": e} if isinstance(e, list) else e for e in lit]
        ch = choose(r, [(3, lambda: ["push", "x", "q"]), (1, lambda: ["push", "x", "q", 1]), (1, lambda: ["pop", "q"]), (1, lambda: ["setf", ["first", "q"], "x"]),
                        (1, lambda: ["setf", ["nth", 1, "q"], "x"]), (1, lambda: ["push", "x", ["first", "q"]]), (1, lambda: ["setf", ["last", ["last", "q"]], "x"])])
        body = choose(r, [(3, lambda: ["do", ["def", "q", lit], ch(), ["list", "q"]]), (1, lambda: ["do", ["def", "q", lit], ch(), ch(), ["return", "q"]]),
                          (1, lambda: ["push", "x", lit])])()
        prog.append(["defn", "q%d" % i, ["x"], body])
    prog.append(["def", "d", ["make-dict"]])
    clos, keys = [], []
    pos = lambda: r.choice([0, 0, 1, 1, 2, 3, 4, 7, -1, ["-", ["len", r.choice(names)], 1], ["len", r.choice(names)]])

    def place():
        """an expression giving one of the list objects"""
        k = r.random()
        if k < 0.7:
            return r.choice(names)
        if k < 0.8:
            return ["nth", r.randint(0, 2), r.choice(names)]
        if k < 0.87:
            return [r.choice(["first", "last"]), r.choice(names)]
        if keys:
            return ["dict-get", "d", r.choice(keys)]
        return r.choice(names)

    for _ in range(r.randint(6, 20)):
        k = r.random()
        x = item(r) if r.random() < 0.75 else r.choice(names) if r.random() < 0.93 else ["do", ["push", r.randint(50, 59), r.choice(names)], ["if", ["<", 2, 1], 1]]
        if k < 0.2:
            op = ["push", x, place()] + ([pos()] if r.random() < 0.5 else [])
        elif k < 0.35:
            op = ["pop", place()] + ([pos()] if r.random() < 0.5 else [])
        elif k < 0.5:
            op = ["setf", choose(r, [(2, lambda: ["nth", pos(), place()]), (1, lambda: [r.choice(["first", "last"]), place()])])(), x]
        elif k < 0.56:
            # the place is given by a function, or found by an index in another list
            op = choose(r, [(2, lambda: ["setf", ["head", place()], x]), (2, lambda: ["setf", ["at", place(), pos()], x]), (1, lambda: ["setf", ["deep", place(), r.choice([0, 0, 1])], x]),
                            (2, lambda: ["setf", ["nth", ["rval", ["first", r.choice(names)]], place()], x]), (1, lambda: ["setf", ["nth", pos(), ["rval", place()]], x]),
                            (1, lambda: ["setf", ["nth", ["first", r.choice(names)], place()], x]), (1, lambda: ["setf", [r.choice(["first", "last"]), ["rval", place()]], x]),
                            (2, lambda: ["setat", x, place(), pos()]), (1, lambda: ["list", ["head", r.choice(names)], ["at", r.choice(names), 0]])])()
        elif k < 0.63 and len(names) < 7:
            new(place())
            continue
        elif k < 0.68 and len(names) < 7:
            new(choose(r, [(1, lambda: ["rest", place()]), (1, lambda: ["append", place(), place()]), (0.7, lambda: [r.choice(["append", "+"])] + [place() for _ in range(r.choice([1, 1, 3]))]), (1, lambda: ["cons", x, place()]), (1, lambda: ["reverse", place()]), (1, lambda: ["list", place(), place()]), (0.5, fresh_list)])())
            continue
        elif k < 0.73:
            op = ["setf", r.choice(names), choose(r, [(2, place), (1, fresh_list)])()]
        elif k < 0.79:
            op = [r.choice(["pushit", "setit"]), x, place()] if r.random() < 0.8 else ["four", place(), x, place(), place()]
        elif k < 0.84:
            c = "c%d" % len(clos)
            clos.append(c)
            op = ["def", c, ["mk", place()]]
        elif k < 0.9 and clos:
            op = [r.choice(clos), x]
        elif k < 0.93 and nq:
            q = "q%d" % r.randrange(nq)
            if len(names) < 7 and r.random() < 0.5:
                new([q, x])
                continue
            op = ["list", [q, x], [q, item(r)], [q, x]] if r.random() < 0.5 else [q, x]
        elif k < 0.945 and r.random() < 0.6:
            # the elements themselves are handed to the function
            op = choose(r, [(2, lambda: ["map", r.choice([["lambda", ["e"], ["push", item(r), "e"]], ["lambda", ["e"], ["do", ["pop", "e"], ["list", "e"]]], ["lambda", ["e"], ["setf", ["first", "e"], 7]], "pop", "first", "reverse"]), place()]),
                            (1, lambda: ["reduce", r.choice([["lambda", ["e", "acc"], ["do", ["push", "e", "acc"], ["rval", "acc"]]], ["lambda", ["e", "acc"], ["push", 5, "acc"]], "push"]), r.choice([{"q": [1, 2]}, place()]), place()]),
                            (1, lambda: ["apply", r.choice(["push", "pop", ["lambda", ["e", "l"], ["push", 3, "l"]]]), ["list", item(r), place()] if r.random() < 0.7 else ["list", place()]])])()
        elif k < 0.955:
            key = r.choice([{"s": "k"}, 1, {"s": "j"}])
            keys.append(key)
            op = ["dict-set", "d", key, place()]
        else:
            op = ["do", ["push", item(r), r.choice(names)], ["pop", r.choice(names), pos()]]
        prog.append(op)
        if r.random() < 0.5:
            prog.append(["list"] + list(names))
    return {"prog": without_cycles(prog) + [["list"] + list(names) + ["d"]]}


def without_cycles(prog):
    """leaves out operations which make a list contain itself"""
    try:
        run_model(prog)
        return prog
    except model.OutOfDomain:
        pass
    done = []
    for f in prog:
        try:
            run_model(done + [f] + [["list", g[1]] for g in done + [f] if g[0] == "def" and isinstance(g[1], str) and g[1][0] in "ld"])
            done.append(f)
        except model.OutOfDomain:
            if f[0] == "def":
                done.append(["def", f[1], ["list", 1]])
    return done


def check(env, case):
    prog = case["prog"]
    it, exp = run_model(prog)
    # the same list twice inside itself would never end
    compare_session(env, prog, exp)
    labels_from(env, it, exp)
    shared = any(isinstance(f, list) and len(f) == 3 and f[0] in ("def", "setf") and isinstance(f[2], str) for f in prog)
    env.label("shared" if shared else "not shared")
    env.nontrivial(calls(it, "push", "pop", "setf") >= 3 and shared)
