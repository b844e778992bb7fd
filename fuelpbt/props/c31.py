import os
import re

from ..gens import rint
from ..common import *
from .. import model, build
from .c27 import run_cli

TITLE = "Documentation shows exactly the wanted functions with their comments"
STATEMENT = ("doc returns and shows, for each given name in turn, the entries of all functions whose names start with it, and searchdoc those whose names contain it: first the functions visible in the current call, then the global ones, then those of imported modules, each in the order of the names; the entry of a function defined with defn or gdefn consists of its name, its signature and the comment line directly before the definition, and never of another comment. "
             "A redefinition replaces the entry, delvar removes it, a copied function keeps it, and the functions of a program, their calls and errors never change the entries of others. "
             "doc without a name (and the option --doc) shows every built-in once with name and syntax in the order of the names, htmldoc (--html) the same in html.")
OVER = ["inputs", "programs", "histories"]
QUANT = "all programs of commented and uncommented definitions, redefinitions and imports, all names and name parts"
WHY = "Tests look up one or two functions; comments of other functions, repeated names, prefixes shared with built-ins and lookups from inside of functions need generated programs."
MECH = [("documentation of definitions", F_ENV + " UpdateDocumentationInformationAtScope GetTokenBeforeDefn"), ("lookup", F_ENV + " DoSearchDocumentation DumpDocumentation"), ("tokens", F_SCO + " GetPreviousToken GetFunctionsHelpFormated Dump"), ("entries", F_TYP + " GetFormatedHelpString"), ("comments as tokens", F_TOK + " ProcessComment")]
FILES = [F_ENV, F_SCO, F_TYP, F_TOK, F_FUE]
TECHNIQUE = "stateful model-based property testing: generated programs of documented definitions and lookups against a table of entries"
QUICK, THOROUGH = 14000, 70000
RULE = "2-7 fragments with definitions (70% commented), other code, imports and lookups; 2% through the real executable with --doc and --html; non-trivial = a lookup shows at least one user function and two functions are defined"

NAMES = ["f", "g", "fun", "fun2", "my-fun", "dict-my", "first-two", "fi", "lens", "pri", "xx", "q", "mapper", "a.b", "F"]
WORDS = ["adds", "x", "the sum", "defn", "(defn no (a) 1)", "{0}", "\"quoted\"", "; more", "ends with \\", "returns: 1", "", " ", "\xe4", "<b>", "%d", "it's `q`", "a\tb", "'", "12"]
SEP = "-------------------------------------------------\n\n"


def comment(r):
    return r.choice([";", ";;", "; "]) + " ".join(r.choice(WORDS) for _ in range(r.randint(0, 3)))


def definition(r):
    """text with the comments before, name, parameters, kind"""
    return {"k": "def", "how": r.choice(["defn", "defn", "defn", "gdefn", "do", "evalstr"]), "name": r.choice(NAMES), "params": r.sample(["a", "b", "c", "x"], r.randint(0, 3)),
            "comments": [comment(r) for _ in range(r.choice([0, 0, 1, 1, 1, 1, 2, 3]))], "blank": r.choice(["", "", "\n", "\n\n", "  ", "\t"]), "inner": [r.choice([None] * 9 + [comment(r)]) for _ in range(5)], "body": r.choice(["1", "(+ 1 ; inner\n 2)", "\"; no comment\"", "(do (nop))"])}


def gen(r, tier):
    if r.random() < 0.02:
        return {"mode": "cli", "opt": r.choice(["--doc", "--html"]), "also": r.choice([[], ["-x"], ["nosuch.fuel"]])}
    frags = []
    for _ in range(r.randint(2, 7)):
        parts = []
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.random()
            if k < 0.5:
                parts.append(definition(r))
            elif k < 0.6:
                parts.append({"k": "code", "text": r.choice(["(+ 1 2)", "(println 5) ; trailing", "(def v 1)", "'(1 2) ; (defn", "(list \"; x\")", "(do ; in\n (nop))"])})
            elif k < 0.66:
                parts.append({"k": "copy", "to": r.choice(NAMES), "of": r.choice(NAMES)})
            elif k < 0.7:
                parts.append({"k": "del", "name": r.choice(NAMES)})
            elif k < 0.74:
                parts.append({"k": "value", "name": r.choice(NAMES)})
            elif k < 0.78:
                parts.append({"k": "import", "defs": [definition(r) for _ in range(r.randint(1, 3))], "name": r.choice(["m1", "m2.fuel", "sub/m3"])})
            elif k < 0.8:
                parts.append({"k": "anon", "name": r.choice(NAMES), "comment": comment(r)})
            elif k < 0.82:
                parts.append({"k": "bad", "text": r.choice(["(nosuch 1)", "(first)", "(defn)", "(defn f)", "; c\n(defn f (x))", "; c\n(defn (nosuch) (x) x)", "; c\n(defn (first) (a) x)", "(gdefn (str (nosuch)) (a b) x)"])})
            else:
                parts.append(lookup(r))
            if parts[-1]["k"] in ("look", "bad"):
                break
        frags.append(parts)
    frags.append([lookup(r)])
    return {"mode": "session", "frags": frags}


def lookup(r):
    search = r.random() < 0.35
    names = [r.choice(NAMES + ["nosuch", "fi", "dict", "Math-", "l", "m"]) if r.random() < 0.8 or not search else r.choice(["un", "-my", "t-t", "e", "2", "."]) for _ in range(r.choice([1, 1, 1, 2, 3]))]
    return {"k": "look", "search": search, "names": names, "how": r.choice(["direct", "direct", "string", "evalstr", "fun", "apply", "localfun"])}


def def_text(d):
    t = "".join(c + "\n" for c in d["comments"]) + d["blank"]
    w = [" " if not c else " " + c + "\n" for c in d.get("inner") or [None] * 5]
    return t + "(" + w[0].replace(" ", "", 1) + ("gdefn" if d["how"] == "gdefn" else "defn") + w[1] + d["name"] + w[2] + "(" + w[4].join(d["params"]) + ")" + w[3] + d["body"] + ")"


def text(p):
    k = p["k"]
    if k == "def":
        if p["how"] == "do":
            return "(do (nop) " + def_text(p) + "\n)"
        if p["how"] == "evalstr":
            return "(evalstr " + model.esc(def_text(p)) + ")"
        return def_text(p)
    if k in ("code", "bad"):
        return p["text"]
    if k == "copy":
        return "(def %s %s)" % (p["to"], p["of"])
    if k == "del":
        return "(delvar '%s)" % p["name"]
    if k == "value":
        return "(def %s 5)" % p["name"]
    if k == "anon":
        return "%s\n(def %s (fn (x) x))" % (p["comment"], p["name"])
    if k == "import":
        return '(import "%s")' % p["name"]
    f = "searchdoc" if p["search"] else "doc"
    q = " ".join("'" + n if p["how"] != "string" else model.esc(n) for n in p["names"])
    call = "(%s %s)" % (f, q)
    if p["how"] == "evalstr":
        return "(evalstr " + model.esc(call) + ")"
    if p["how"] == "fun":
        return "(do (defn look-it-up (p1) %s) (look-it-up 1))" % call
    if p["how"] == "localfun":
        return "(do (defn look-it-up (p1) (do (defn local-fun (z) z) (def xx 1) %s)) (look-it-up 1))" % call
    if p["how"] == "apply":
        return "(apply %s '(%s))" % (f, " ".join(p["names"]))
    return call


def frag_text(parts):
    return "\n".join(text(p) for p in parts)


def describe(case):
    if case["mode"] == "cli":
        return case
    return [frag_text(f) for f in case["frags"]]


def entry(name, params, doc):
    return "%s\n\nSyntax: (%s)\n\n%s\n\n\n" % (name + " " if params else name, " ".join([name] + params), doc or ">not available<")


ANON = "???\n\nSyntax: \n\n>not available<\n\n\n"


def builtins(env):
    """the entries of the built-in functions"""
    t = env._extra.get("builtins")
    if t is None:
        r = env.worker.session(["(doc)"])[0]
        env.expect(r.ok and r.value[0] == "s", "(doc): " + r.brief())
        parts = r.value[1].split(SEP)
        env.expect(parts[0] == "", "(doc) starts with %r" % parts[0][:200])
        t = {}
        last = ""
        for p in parts[1:]:
            m = re.match(r"(\S+) ?( \[special form\])?\n\nSyntax: \((\S+)(?: [^\n]*)?\)\n\n(.*)\n\n\n\n$", p, re.S)
            env.expect(m, "(doc) has the entry %r" % p[:300])
            n = m.group(1)
            env.expect(n == m.group(3) and n not in t and (n > last or n.startswith("unquote")), "(doc) has the entry %r after %r" % (p[:200], last))
            if not n.startswith("unquote"):
                last = n
            t[n] = p[:-1]
        want = (set(model.BUILTINS) | model.UNMODELLED) - {"macros", "_unquote", "_unquotesplicing"}
        env.expect(set(t) == want, "(doc) shows too much %r and too little %r" % (sorted(set(t) - want), sorted(want - set(t))))
        env._extra["builtins"] = t
    return t


def select(table, order, search, name):
    return "".join(SEP + table[k] for k in sorted(table, key=order) if (name in k if search else k.startswith(name)))


def bkey(k):
    return ("_" + k if k in ("unquote", "unquotesplicing") else k).encode("latin-1")


def check_cli(env, case):
    base = builtins(env)
    out = run_cli(env, [case["opt"]] + case["also"], "")
    if case["opt"] == "--doc":
        want = "".join(SEP + base[k] + "\n" for k in sorted(base, key=bkey))
        env.expect(out.startswith(want + "result=" + want) or out.startswith(want), "--doc shows\n%r\n instead of\n%r" % (out[:1500], want[:1500]))
    else:
        r = env.worker.session(["(htmldoc)"])[0]
        env.expect(r.ok and r.value[0] == "s" and out.startswith(r.value[1]), "--html shows %r" % out[:1500])
        items = r.value[1].split("<hr><br>")
        env.expect(len(items) == len(base) + 1, "htmldoc has %d entries instead of %d" % (len(items) - 1, len(base)))
        env.expect(re.match(r"\s*<html>", r.value[1]) and re.search(r"</html>\s*$", r.value[1]), "htmldoc is no html text: %r ... %r" % (r.value[1][:200], r.value[1][-200:]))
        for tag in ("html", "head", "title", "body", "b", "code", "h2"):
            env.expect(items[0].count("<%s>" % tag) + "".join(items[1:]).count("<%s>" % tag) == r.value[1].count("</%s>" % tag) and r.value[1].count("<%s>" % tag) > 0, "htmldoc: <%s> and </%s> are not balanced" % (tag, tag))
        for k, e in zip(sorted(base, key=bkey), items[1:]):
            p = base[k]
            name, syn, rest = p.split("\n\n", 2)
            sp = " [special form]"
            nm = name[:-len(sp)] if name.endswith(sp) else name
            want = "<b>%s</b>%s<br><br><code>%s</code><br><br>%s<br><br>\n" % (nm, sp if nm != name else "", syn, rest[:-3])
            env.expect(e.startswith(want), "htmldoc has the entry %r instead of %r" % (e[:500], want))
    env.label("option " + case["opt"])
    env.nontrivial()


def check(env, case):
    if case["mode"] == "cli":
        return check_cli(env, case)
    base = builtins(env)
    user, mods = {}, {}
    removed = set()
    values = set()
    d = env.subdir("doc")
    os.makedirs(d + "/sub")
    frags = case["frags"]
    used = set()
    exp = []
    shown = defined = 0
    for parts in frags:
        if not parts:
            raise model.OutOfDomain("empty")
        want = None
        for i, p in enumerate(parts):
            k = p["k"]
            if k == "def":
                c = p["comments"][-1] + "\n" if p["comments"] else ""
                if not c and i and p["how"] in ("defn", "gdefn") and parts[i - 1]["k"] == "code" and parts[i - 1]["text"].rpartition("\n")[2].find(" ; ") >= 0:
                    c = parts[i - 1]["text"][parts[i - 1]["text"].index(" ; ") + 1:] + "\n"         # trailing comment of the line before
                user[p["name"]] = entry(p["name"], p["params"], c)
                values.discard(p["name"])
                defined += 1
            elif k == "copy":
                if p["of"] in user:
                    user[p["to"]] = user[p["of"]]
                    values.discard(p["to"])
                elif any(p["of"] in m for m in mods.values()) and p["of"] not in values:
                    raise model.OutOfDomain("copy of a module's function")
                else:
                    user.pop(p["to"], None)
                    values.add(p["to"])
            elif k == "del":
                user.pop(p["name"], None)
                values.discard(p["name"])
            elif k == "value":
                user.pop(p["name"], None)
                values.add(p["name"])
            elif k == "anon":
                user[p["name"]] = ANON
                values.discard(p["name"])
            elif k == "import":
                if p["name"] in used:
                    raise model.OutOfDomain("imported twice")
                used.add(p["name"])
                fn = p["name"] if p["name"].endswith(".fuel") else p["name"] + ".fuel"
                with open(os.path.join(d, fn), "w", encoding="latin-1", newline="") as f:
                    f.write("\n".join(text(x) for x in p["defs"]))
                if not p["name"].endswith(".fuel"):
                    os.rename(os.path.join(d, fn), os.path.join(d, p["name"]))
                m = {}
                for x in p["defs"]:
                    e = entry(x["name"], x["params"], x["comments"][-1] + "\n" if x["comments"] else "")
                    if x["how"] == "gdefn":
                        user[x["name"]] = e
                        values.discard(x["name"])
                    else:
                        m[x["name"]] = e
                mods[p["name"]] = m
            elif k == "bad":
                want = False
            elif k == "look":
                if not p["names"] or not all(p["names"]):
                    raise model.OutOfDomain("no name")
                if p["how"] in ("fun", "localfun"):
                    user["look-it-up"] = entry("look-it-up", ["p1"], "")
                want = ""
                for n in p["names"]:
                    if p["how"] == "localfun":
                        want += select({"local-fun": entry("local-fun", ["z"], "")}, lambda x: x, p["search"], n)
                    t = dict(base)
                    t.update(user)
                    u = select(t, bkey, p["search"], n)
                    shown += sum(1 for x in user if (n in x if p["search"] else x.startswith(n)))
                    want += u
                    for mn in sorted(mods):
                        want += select(mods[mn], bkey, p["search"], n)
                want += "\n"
        exp.append(want)
    texts = [frag_text(f) for f in frags]
    env.worker.raw(["chdir", d])
    try:
        res = env.worker.session(texts)
    finally:
        env.worker.raw(["chdir", env.scratch])
    for i, (e, r) in enumerate(zip(exp, res)):
        what = "after %s\n fragment %s\n " % ("\n---\n".join(texts[:i])[-2500:], texts[i])
        if e is False:
            env.expect(not r.ok and r.status in ("lisp", "base"), what + "gives " + r.brief())
        else:
            env.expect(r.ok, what + "fails: " + r.brief())
            if e is not None:
                env.expect(r.value == ("s", e), what + "shows\n%r\n instead of\n%r" % (r.value[1] if len(r.value) > 1 else r.value, e))
                env.expect(r.cout.endswith(e) or r.out.endswith(e), what + "does not show the documentation: %r" % r.cout[:500])
    env.label("%d fragments" % len(frags))
    if mods:
        env.label("modules")
    for f in frags:
        for p in f:
            env.label(p["k"] + (" " + p["how"] if "how" in p else ""))
    env.nontrivial(shown and defined >= 2)
