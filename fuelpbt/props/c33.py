import datetime
import re
import time

from ..gens import rint, choose, Gen
from ..common import *
from .. import model, debugmodel
from ..model import LispErr, OutOfDomain, NOVAL

TITLE = "Time, sleep, vars, break and help tell the truth at every moment and place"
STATEMENT = ("date-time returns (year month day hours minutes seconds) of the current local time, with the full year and the month from 1 to 12, in every time zone; the difference of two tickcount values is the number of milliseconds passed between them; sleep waits at least the given number of milliseconds. "
             "vars shows exactly the variables and functions defined in the scope of its call, each once with its current value and type in the order of the names, and changes nothing; break without a debugger shows the call stack and a warning, and the program goes on. "
             "help shows and returns all names defined at this moment, version, fuel, copyright and platform return the same information at every place, and version is part of fuel's text.")
OVER = ["inputs", "programs", "histories"]
QUANT = "all moments and time zones, all programs which define, change and delete variables and look at them from any depth of calls"
WHY = "Tests run at one moment in one time zone and cannot know the expected values; the variables to be shown depend on the whole history."
MECH = [("time", F_ENV + " Datetime CurrentTickCount _Sleep GetTickCount"), ("variables", F_SCO + " Dump DumpVars"), ("values as text", F_VAR + " ToStringDebugger TypeString"), ("call stack", F_ENV + " Break, " + F_SCO + " DumpStackToString"), ("names and texts", F_ENV + " Help Fuel Version Copyright Platform")]
FILES = [F_ENV, F_SCO, F_VAR]
TECHNIQUE = "model-based property testing: generated moments and time zones with a set clock, generated programs against a reference interpreter"
QUICK, THOROUGH = 14000, 80000
RULE = "60% programs with vars, 12% clock histories, 3% sleeps, 10% break, 15% help and texts; non-trivial = a user variable is shown, or a moment other than now is used"
ASSUMPTIONS = ["the clock is read with time, gettimeofday or clock_gettime (replaced in the driver)"]

# POSIX time zones: text, offset east of UTC in seconds, None = computed by the C library
ZONES = [("UTC0", 0), ("CET-1", 3600), ("IST-5:30", 19800), ("NPT-5:45", 20700), ("EST5", -18000), ("<+14>-14", 14 * 3600), ("<-12>12", -12 * 3600), ("<-0330>3:30", -12600),
         ("CET-1CEST,M3.5.0,M10.5.0/3", None), ("NZST-12NZDT,M9.5.0,M4.1.0/3", None), ("EST5EDT,M3.2.0,M11.1.0", None)]
EPOCH = datetime.datetime(1970, 1, 1)
NAMES = ["a", "b", "v1", "x", "foo", "my-var", "z9", "B", "aa", "n"]


def moment(r):
    k = r.random()
    if k < 0.3:
        y = r.choice([1970, 1972, 1999, 2000, 2004, 2020, 2023, 2024, 2025, 2037, 2038, 2039, 2100, 1969, 1905])
        base = int((datetime.datetime(y, r.choice([1, 2, 3, 12]), 1) - EPOCH).total_seconds())
        return base + r.choice([0, -1, 1, 86400 * 27, 86400 * 28, 86400 * 29, 86400 * 30, 3600, -3600, 43200, 86399])
    if k < 0.4:
        return r.choice([0, 2 ** 31 - 1, 2 ** 31, -1, 951782399, 951782400, 1709164800])
    return r.randint(-2 * 10 ** 9, 6 * 10 ** 9)


def gen(r, tier):
    k = r.random()
    if k < 0.12:
        t = moment(r)
        steps = []
        for _ in range(r.randint(1, 5)):
            steps.append([r.randrange(len(ZONES)), t, r.choice([0, 0, 999999999, 500000000, r.randrange(10 ** 9)]), r.choice(["d", "d", "t"])])
            t += r.choice([0, 0, 1, 59, 3600, 86400, 31 * 86400, r.randint(0, 10 ** 6)])
        return {"mode": "clock", "steps": steps}
    if k < 0.15:
        return {"mode": "sleep", "arg": r.choice([0, 1, 2, 5, 10, 17, 30, 45, 60, -3, {"d": "3.7"}, {"s": "4"}, {"s": "6.9"}, True, [], {"q": [1]}, "x", {"s": "abc"}]), "extra": r.choice([0] * 8 + [1, -1])}
    if k < 0.25:
        return {"mode": "break", "depth": r.randint(0, 5), "lines": r.randint(0, 3), "args": [rint(r) for _ in range(2)], "how": r.choice(["plain", "plain", "evalstr", "lambda", "let"])}
    if k < 0.4:
        g = Gen(r, err=0.05, max_depth=2)
        return {"mode": "info", "prog": [g.stmt() for _ in range(r.randint(0, 4))], "names": [r.choice(NAMES + ["first", "+", "version", "my fun"]) for _ in range(r.randint(1, 3))], "how": r.choice(["def", "defn", "setf", "define-macro-eval", "gdef", "del"])}
    g = Gen(r, err=r.choice([0, 0, 0.05]), max_depth=2)
    frags = []
    for _ in range(r.randint(2, 7)):
        k = r.random()
        n = r.choice(NAMES)
        v = g.expr(r.choice(["int", "str", "list", "num", "bool"]), 1) if r.random() < 0.7 else r.choice([{"q": [1, ["a", 2], {"s": "t"}]}, {"q": "sym"}, [], ["list"], ["make-dict"], {"d": "1.5"}, {"s": "a\nb\"c"}, {"s": ""}, True, None, ["lambda", ["q", "w"], ["+", "q", "w"]], "first", ["list", ["lambda", ["x"], "x"]]])
        show = ["vars"] if r.random() < 0.8 else r.choice([["list", ["vars"], 1], ["eval", {"q": ["vars"]}], ["evalstr", {"s": "(vars)"}], ["apply", "vars", {"q": []}], ["map", ["lambda", ["y"], ["vars"]], {"q": [1]}], ["vars"], ["println", ["vars"]]])
        if k < 0.3:
            frags.append([r.choice(["def", "def", "setf", "gdef"]), n, v])
        elif k < 0.38:
            frags.append(["delvar", {"q": n}])
        elif k < 0.5:
            frags.append([r.choice(["defn", "gdefn"]), n, r.sample(["p", "q2", "n", "B"], r.randint(0, 3)), ["+", 1, 2]])
        elif k < 0.8:
            ps = r.sample(["p", "q", "n", "aa", "B"], r.randint(0, 3))
            body = ["do"] + [[r.choice(["def", "setf", "gdef", "def"]), r.choice(NAMES + ps), r.choice([v, rint(r)] + ps)] for _ in range(r.randint(0, 3))]
            inner = show
            if r.random() < 0.3:
                inner = ["do", ["defn", "inner", ["i"], ["do", ["def", "loc", "i"], show, "i"]], ["inner", rint(r)], show]
            body.append(inner)
            if r.random() < 0.5:
                body.append(rint(r))
            frags.append(["do", ["defn", "fun", ps, body], ["fun"] + [rint(r) if r.random() < 0.6 else g.expr("str", 0) for _ in ps]])
        elif k < 0.85:
            frags.append(g.stmt())
        else:
            frags.append(show)
    frags.append(["vars"])
    return {"mode": "vars", "prog": frags}


class Interp(model.Interp):
    """knows vars"""

    def __init__(self, **kw):
        model.Interp.__init__(self, **kw)
        self.glob.vars["vars"] = model.Builtin("vars", b_vars, False)
        self.glob.vars["break"] = model.Builtin("break", b_break, False)
        self.shown = 0


class Lines(object):
    texts = {}
    dump_vars = debugmodel.Session.dump_vars

    def __init__(self):
        self.lines = []

    def write(self, t):
        self.lines.append(t + "\n")


def b_vars(it, args, scope):
    if args:
        raise OutOfDomain("arguments of vars")
    l = Lines()
    l.dump_vars(scope)
    it.shown += len(l.lines)
    it.out.append("variables:\n" + "".join(l.lines))
    return model.UNDEF


def b_break(it, args, scope):
    raise OutOfDomain("break")


def describe(case):
    if case["mode"] == "vars":
        return [model.render(f) for f in case["prog"]]
    return case


def wrap32(n):
    return (n + 2 ** 31) % 2 ** 32 - 2 ** 31


def expected_date(zone, sec):
    name, off = ZONES[zone]
    if off is None:
        import os
        old = os.environ.get("TZ")
        os.environ["TZ"] = name
        time.tzset()
        t = time.localtime(sec)
        if old is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = old
        time.tzset()
        return [t.tm_year, t.tm_mon, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec]
    d = EPOCH + datetime.timedelta(seconds=sec + off)
    return [d.year, d.month, d.day, d.hour, d.minute, d.second]


def check_clock(env, case):
    if env.worker.proc is None or env.worker.count + 40 > env.worker.restart_every:
        env.worker.start()          # no restart, which would set the clock to the real time, in between
    try:
        last = None
        for z, sec, ns, what in case["steps"]:
            if not (0 <= ns < 10 ** 9 and abs(sec) < 10 ** 11):
                raise OutOfDomain("moment")
            env.worker.raw(["clock", ZONES[z][0], str(sec), str(ns)])
            if what == "d":
                r = env.worker.session(["(date-time)", "(do (defn f () (date-time)) (f))"])
                exp = ("l", tuple(("i", n) for n in expected_date(z, sec)))
                for x in r:
                    env.expect(x.ok and x.value == exp, "date-time at %d s since 1970 (UTC) in the time zone %s: expected %r, %s" % (sec, ZONES[z][0], exp, x.brief()))
                env.label("date in " + ZONES[z][0])
            else:
                r = env.worker.eval("(tickcount)")
                env.expect(r.ok and r.value[0] == "i", "tickcount: " + r.brief())
                ms = sec * 1000 + ns // 10 ** 6
                if last is not None and sec >= 0 and last[1] >= 0:
                    d, e = wrap32(r.value[1] - last[0]), wrap32(ms - last[1])
                    env.expect(abs(wrap32(d - e)) <= 1, "tickcount: %d ms passed, the difference of the values %d and %d is %d" % (ms - last[1], r.value[1], last[0], d))
                    env.label("tick difference")
                last = (r.value[1], ms)
            env.nontrivial()
    finally:
        if env.worker.proc is not None:
            env.worker.raw(["clock", "UTC0"])


def check_sleep(env, case):
    a = case["arg"]
    args = [a][:1 + case["extra"]] + [1] * max(0, case["extra"])
    text = model.render(["sleep"] + args)
    ok = len(args) == 1 and (type(a) in (int, bool) or isinstance(a, dict) and ("d" in a or re.match(r"\d", a.get("s", ""))))
    if isinstance(a, dict) and "s" in a and "." in a["s"]:
        raise OutOfDomain("conversion")
    t0 = time.monotonic()
    r = env.worker.eval("(do (def t (tickcount)) (def r %s) (list r (- (tickcount) t)))" % text)
    dt = (time.monotonic() - t0) * 1000
    if not ok:
        env.expect(not r.ok, "%s succeeds: %s" % (text, r.brief()))
        env.label("sleep refused")
        return
    n = int(float(a["d"])) if isinstance(a, dict) and "d" in a else int(a["s"]) if isinstance(a, dict) else int(a)
    env.expect(r.ok and r.value[0] == "l" and len(r.value[1]) == 2 and r.value[1][0] in (("u",), ("n",)), "%s: %s" % (text, r.brief()))
    env.expect(dt >= n - 0.5, "%s took %.1f ms" % (text, dt))
    env.expect(dt < n + 20000, "%s took %.1f ms" % (text, dt))
    tick = r.value[1][1][1]
    env.expect(n - 2 <= tick <= dt + 2, "%s: tickcount measures %r ms of %.1f ms" % (text, tick, dt))
    env.nontrivial(n > 0)
    env.label("sleep")


def check_break(env, case):
    # a chain of functions, break in the innermost one, every definition on its own line
    d = case["depth"]
    br = {"plain": "(break)", "evalstr": '(evalstr "(break)")', "lambda": "((lambda () (break)))" if False else "(break)", "let": "(do (break))"}[case["how"]]
    lines = ["(println 1)"] * case["lines"]
    stack = []
    names = ["f%d" % i for i in range(d)]
    for i in range(d):
        nxt = br if i == 0 else "(%s x)" % names[i - 1]
        lines.append("(defn %s (x) (do" % names[i])
        lines.append(nxt)
        stack.insert(0, (names[i], len(lines)))
        lines.append("(println \"back\" x)))")
    lines.append("(%s %d)" % (names[-1], case["args"][0]) if d else br)
    stack.insert(0, ("<main>", len(lines)))
    lines.append("(println \"end\")")
    r = env.worker.eval("\n".join(lines), module="modx")
    env.expect(r.ok, "break without a debugger: %s" % r.brief())
    n = len(stack)
    exp = "1\n" * case["lines"] + "break -> call stack:\n"
    for i, (name, line) in enumerate(stack):
        exp += "%s%5d name=%-35s lineno=%-4d module=%s\n" % ("-->" if i == n - 1 and case["how"] != "evalstr" else "   ", i + 1, name, line, "modx")
    tail = "\nWarning: can not break, because no debugger support availabe!\n" + "back %d\n" % case["args"][0] * d + "end\n"
    if case["how"] == "evalstr":
        # the scope of an evaluated text has its own entry
        env.expect(r.cout.startswith("1\n" * case["lines"] + "break -> call stack:\n") and r.cout.endswith(tail.lstrip("\n")), "break in an evaluated text: %r" % r.cout)
        for name, line in stack:
            env.expect(re.search(r" name=%s " % re.escape(name), r.cout), "break: the call stack has no %s:\n%s" % (name, r.cout))
    else:
        env.expect(r.cout == exp + tail, "break in\n%s\nexpected the output\n%r\n got\n%r" % ("\n".join(lines), exp + tail, r.cout))
    env.nontrivial(d > 0)
    env.label("break at depth %d" % d)


INFO = '(list (version) (fuel) (copyright) (platform))'
FRESH = {}


def check_info(env, case):
    names = [n for n in case["names"] if " " not in n]
    if not names:
        raise OutOfDomain("names")
    if "x" not in FRESH:
        a, b = env.worker.session(["(help)", INFO])
        env.expect(a.ok and b.ok, "help and version fail: %s %s" % (a.brief(), b.brief()))
        FRESH["x"] = (a.value[1].split("\n"), b.value)
    base, info = FRESH["x"]
    it, exp = run_model(case["prog"])
    exp = [e[0] for e in exp]
    own = set()
    texts = [model.render(f) for f in case["prog"]]
    builtins = set(model.BUILTINS) | (model.UNMODELLED - set(["unquote", "unquotesplicing", "macros"]))
    env.expect(set(base[1:]) >= set(n for n in builtins if not n.startswith("_")), "help does not list %r" % sorted(builtins - set(base)))
    env.expect(base[0] == "available functions:", "help begins with %r" % base[0])
    v = info[1]
    env.expect(info[0] == "l" and v[0][0] == "s" and v[0][1] in v[1][1] and v[2][1].startswith("Copyright: ") and [x[1] for x in v[3][1]] == ["UNIX", "C++", "64bit"], "version, fuel, copyright, platform: %r" % (info,))
    user = {}
    for n in names:
        h = case["how"]
        if h == "del":
            texts += ["(def %s 1)" % n, "(delvar '%s)" % n]
        elif h in ("defn",):
            texts.append("(defn %s (a) a)" % n)
        elif h == "define-macro-eval":
            texts.append("(define-macro-eval %s (a) a)" % n)
        else:
            texts.append("(%s %s 5)" % (h, n))
        user[n] = h
    k = len(texts)
    texts += ["(help)"] + ([INFO, "(do (defn deep (z) %s) (deep 1))" % INFO] if "version" not in names else [])
    res = env.worker.session(texts)
    for i, e in enumerate(exp):
        if e[0] != ("ok" if res[i].ok else "err"):
            raise OutOfDomain("other check")
    r = res[k]
    env.expect(r.ok, "help: " + r.brief())
    shown = r.value[1].split("\n")
    env.expect(r.cout == r.value[1] + "\n", "help returns %r and shows %r" % (r.value[1][-300:], r.cout[-300:]))
    expect = set(base)
    for n, x in it.glob.vars.items():
        if n not in ("unquote", "unquotesplicing", "macros"):
            expect.add(n)
    for n, h in user.items():
        if h == "del":
            expect.discard(n)
        elif h in ("define-macro-eval", "setf"):
            pass
        else:
            expect.add(n)
    expect = set(n for n in expect if n and not n.startswith("#"))
    got = [n for n in shown[1:] if n and not n.startswith("#")]
    got0 = set(got)
    missing = expect - got0 - set(["available functions:"])
    extra = got0 - expect
    env.expect(not missing, "help does not list %r after\n%s" % (sorted(missing), "\n".join(texts)))
    if case["how"] not in ("define-macro-eval", "setf"):
        env.expect(not extra, "help lists %r after\n%s" % (sorted(extra), "\n".join(texts)))
    env.expect(len(got) == len(got0), "help lists a name twice")
    for x in res[k + 1:]:
        env.expect(x.ok and x.value == info, "version, fuel, copyright, platform: %r and %s" % (info, x.brief()))
    env.nontrivial()
    env.label("help after " + case["how"])


def check_vars(env, case):
    prog = case["prog"]
    if not prog or not all(isinstance(f, (list, dict)) for f in prog):
        raise OutOfDomain("no program")
    it = Interp(max_steps=8000)
    exp = []
    for f in prog:
        (k, v), out = it.outcome([f])
        exp.append(((k, model.typed(v) if k == "ok" else v), out))
    compare_session(env, prog, exp)
    env.nontrivial(it.shown > 0)
    env.label("vars shows %s" % ("nothing" if it.shown == 0 else "1-3" if it.shown < 4 else "4-9" if it.shown < 10 else "10 and more"))


def check(env, case):
    {"clock": check_clock, "sleep": check_sleep, "break": check_break, "info": check_info, "vars": check_vars}[case["mode"]](env, case)
