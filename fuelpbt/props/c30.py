from ..gens import rint, rdbl, rstr, INTS, DBLS, Gen
from ..common import *
from .. import model

TITLE = "Conversions and type queries are exact and invert each other"
STATEMENT = ("type and typestr tell the type of every value (undefined, nil, boolean, integer, floating point, string, list, function, symbol, dictionary), str gives its text (floating point numbers with six decimals, strings inside of lists in quotes) and sym the symbol of that text. "
             "parse-integer and int give the integer a text denotes as a whole (an optional sign and decimal digits after optional blanks, within 32 bits), parse-float and float the double a text starts with, and the undefined value for every other text, never an error; int and float of numbers and booleans convert the value (int cuts off the fraction; outside of 32 bits, as for other types, the result is undefined). "
             "So the integer of the text of an integer is that integer, and the argument is never changed.")
OVER = ["inputs", "programs"]
QUANT = "all values of all types and all texts, number-like or not"
WHY = "Tests convert a few well-formed texts; signs, blanks, limits, malformed and mixed texts are an open set."
MECH = [("conversions", F_ENV + " ParseInteger ParseFloat ToInt ToFloat Str Sym GetLispType"), ("text of values", F_VAR + " ToString TypeString ToInt ToDouble"), ("number text", F_TYP)]
FILES = [F_ENV, F_VAR, F_TYP, F_OBJ]
TECHNIQUE = "property-based testing against a reference model and round-trip relations over generated values and number-like texts"
QUICK, THOROUGH = 18000, 100000
RULE = "enumerated: every function on about 120 values; generated: sessions of 4-9 conversions, nested and over variables, and round trips; non-trivial = at least 3 conversions were evaluated and one text was parsed"

F = ["type", "typestr", "str", "sym", "int", "float", "parse-integer", "parse-float"]
TEXTS = ["0", "1", "-1", "+5", "007", "-007", "2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999999999999", "1.5", "-1.5", "+.5", ".5", "5.", "1e3", "1E3", "1e+3", "-2.5e-2", "1e", "e1", "1.5.2", "--1", "+-1", "+", "-", ".", "", " ", " 12", "12 ", "\t7", "\n7", "7\n", "1 2",
         "1,5", "1_000", "abc", "12abc", "1.5abc", "abc12", "#t", "nil", "0.1", "123456789.125", "0.0000001", "(1)", "'1", "1e5x", "0000000000000000000001", "1e15", "-0", "-0.0", "+0", "\xb2", "\"5\"", "5\\", "1f", "1d", "1e-310", "4.9e-324", "-2e-315", "1e-400", "1e400", "-1e400", "-2e308", "1.7e308", "0x", "1\x00", "12\x003", "3L", "\x0b3", "\xa05"]
VALS = [{"s": t} for t in TEXTS] + INTS + [{"d": d} for d in DBLS] + [{"d": d} for d in ("2147483647.9", "2147483648.0", "-2147483648.9", "-2147483649.0", "1e10", "-1e10", "0.99", "-0.99", "1e300", "1234567.1234567", "0.0000005", "0.0000004", "-0.0000001", "99999999.999999")] + \
    [True, False, None, {"q": []}, {"q": "sym"}, {"q": [1, {"s": "a\"b"}, [None, True], "x", {"d": "1.5"}]}, ["make-dict"], ["list"], ["parse-integer", {"s": "x"}], {"q": [{"q": "a"}]}, ["sym", {"s": "a b"}], ["list", ["list"], {"s": ""}]]


def text(r):
    k = r.random()
    if k < 0.4:
        return r.choice(TEXTS)
    if k < 0.7:
        t = r.choice(["", "", "", "-", "+", " ", "  -"]) + str(abs(rint(r)))
        if r.random() < 0.4:
            t += "." + "".join(r.choice("0123456789") for _ in range(r.randint(0, 9)))
        if r.random() < 0.15:
            t += r.choice("eE") + r.choice(["", "-", "+"]) + str(r.randint(0, 30))
        if r.random() < 0.15:
            t += r.choice([" ", "x", "\n", ".", "-", "e"])
        return t
    return "".join(r.choice("0123456789+-. eE") for _ in range(r.randint(0, 8)))


def value(r, names=()):
    k = r.random()
    if names and k < 0.2:
        return r.choice(names)
    if k < 0.55:
        return {"s": text(r)}
    if k < 0.65:
        return rint(r)
    if k < 0.75:
        return rdbl(r)
    if k < 0.8:
        return {"d": "%.7f" % r.uniform(-3, 3)}
    if k < 0.85:
        return rstr(r)
    return r.choice(VALS)


def conv(r, names, d=2):
    return [r.choice(F), conv(r, names, d - 1) if d > 0 and r.random() < 0.35 else value(r, names)]


def enumerate_cases(tier):
    ex = [[f, v] for f in F for v in VALS]
    ex += [["typestr", ["fn", ["x"], "x"]], ["type", "+"], ["typestr", ["fn", [], 1]], ["typestr", "first"]]
    for f in F:
        ex += [[f], [f, 1, 2], [f, ["nosuch"]]]
    return batches(ex)


def gen(r, tier):
    names, prog = [], []
    for _ in range(r.randint(0, 3)):
        n = "v%d" % len(names)
        prog.append(["def", n, value(r) if r.random() < 0.7 else conv(r, names)])
        names.append(n)
    for _ in range(r.randint(4, 9)):
        k = r.random()
        if k < 0.1:
            n = rint(r)
            prog.append(["list", ["==", [r.choice(["int", "parse-integer"]), ["str", n]], n], ["==", ["evalstr", ["str", n]], n], ["int", ["float", n]]])
        elif k < 0.17:
            d = rdbl(r)
            prog.append(["list", [r.choice(["float", "parse-float"]), ["str", d]], ["int", d], ["str", ["int", d]]])
        elif k < 0.22:
            prog.append(["map", r.choice(F), ["list"] + [value(r, names) for _ in range(r.randint(0, 5))]])
        elif k < 0.27:
            e = conv(r, names)
            prog.append(["list", ["typestr", e], ["type", e]])
        elif k < 0.3:
            prog.append(["==", ["sym", ["str", value(r, names)]], {"q": r.choice(["a", "sym"])}])
        elif k < 0.35:
            prog.append(["+", {"s": "<"}, [r.choice(["str", "typestr"]), value(r, names)], {"s": ">"}])
        elif k < 0.4:
            prog.append(["str", ["list"] + [value(r, names) for _ in range(r.randint(0, 4))]])
        elif k < 0.44:
            prog.append(["+", [r.choice(["int", "parse-integer", "float"]), {"s": text(r)}], r.choice([1, {"d": "0.5"}])])
        elif k < 0.48 and names:
            prog.append(["do", ["setf", r.choice(names), conv(r, names)], ["list"] + names])
        else:
            prog.append(conv(r, names))
    return {"prog": with_probe(prog, names)}


def check(env, case):
    it, exp = check_prog(env, case)
    labels_from(env, it, exp)
    env.nontrivial(calls(it, *F) >= 3 and calls(it, "int", "float", "parse-integer", "parse-float") >= 1)
