"""Checks shared by several properties."""
from . import model


def run_model(prog, macros_ok=True, max_steps=8000, inputs=()):
    """expected outcome and output of every fragment of a session"""
    it = model.Interp(max_steps=max_steps, inputs=inputs)
    exp = []
    for f in prog:
        (k, v), out = it.outcome([f])
        exp.append(((k, model.typed(v) if k == "ok" else v), out))
    return it, exp


def compare_session(env, prog, exp, texts=None, inp="", exact_message=False):
    texts = texts or [model.render(f) for f in prog]
    res = env.worker.session(texts, inp=inp)
    for i, (e, r) in enumerate(zip(exp, res)):
        m = model.mismatch(e[0], e[1], r, exact_message)
        if m:
            env.fail("after %s\n  %s\n  %s" % (" ".join(texts[:i])[-1500:], texts[i], m))
        if r.cout != e[1]:
            env.fail("%s\n the standard output got %r instead of %r" % (texts[i], r.cout, e[1]))
    if len(res) != len(exp):
        env.fail("%d answers for %d fragments" % (len(res), len(exp)))
    return res


def check_prog(env, case, exact_message=False, **kw):
    """case["prog"]: list of fragments evaluated one after the other in one session"""
    prog = case["prog"]
    if not prog or not all(isinstance(f, (list, dict)) for f in prog):
        raise model.OutOfDomain("no program")
    it, exp = run_model(prog, **kw)
    compare_session(env, prog, exp, exact_message=exact_message)
    return it, exp


def calls(it, *names):
    """how many calls of these builtins the reference interpreter has seen"""
    return sum(it.stats.get(n, 0) for n in names)


def in_domain(*exprs):
    """every expression on its own is inside the model"""
    for e in exprs:
        try:
            it = model.Interp(max_steps=3000)
            (k, v), _ = it.outcome([e])
            if k == "ok":
                model.typed(v)
        except model.OutOfDomain:
            return False
    return True


def batches(exprs, n=40):
    """cases of n independent expressions each, those outside the model left out"""
    out, cur = [], []
    for e in exprs:
        if in_domain(e):
            cur.append(e)
            if len(cur) == n:
                out.append({"prog": cur})
                cur = []
    if cur:
        out.append({"prog": cur})
    return out


def with_probe(prog, names):
    """ends with a fragment which shows all the variables"""
    return prog + [["list"] + list(names)]


def labels_from(env, it, exp):
    env.label("some fragment fails" if any(e[0][0] == "err" for e in exp) else "all fragments succeed")
    for n in it.stats:
        env.label("uses " + n)


F_ENV = "CppLisp/CppLispInterpreter/Environment.cpp"
F_VAR = "CppLisp/CppLispInterpreter/Variant.cpp"
F_INT = "CppLisp/CppLispInterpreter/Interpreter.cpp"
F_SCO = "CppLisp/CppLispInterpreter/Scope.cpp"
F_TOK = "CppLisp/CppLispInterpreter/Tokenizer.cpp"
F_TKN = "CppLisp/CppLispInterpreter/Token.cpp"
F_PAR = "CppLisp/CppLispInterpreter/Parser.cpp"
F_LSP = "CppLisp/CppLispInterpreter/Lisp.cpp"
F_FUE = "CppLisp/CppLispInterpreter/fuel.cpp"
F_STR = "CppLisp/CppLispInterpreter/csstring.cpp"
F_TYP = "CppLisp/CppLispInterpreter/cstypes.cpp"
F_OBJ = "CppLisp/CppLispInterpreter/csobject.cpp"
F_DBG = "CppLisp/CppLispDebugger/Debugger.cpp"
F_LIB = "Library/fuellib.fuel"
F_EXC = "CppLisp/CppLispInterpreter/Exception.cpp"

MODEL_NOTE = ("Generated-input search against an independent reference interpreter written in Python; "
              "holds on everything generated, no proof. Trusts the reference model, the driver's value dump and clang's sanitizers.")
