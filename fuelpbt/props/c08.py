from ..gens import INTS, rint
from ..common import *

TITLE = "Bit operations work on 32-bit two's complement integers"
STATEMENT = ("For all integers & | ^ ~ give the bitwise and, or, exclusive or and complement of the 32-bit two's complement representations, << shifts left dropping the bits above bit 31, "
             "and >> shifts right keeping the sign, where the shift count is taken modulo 32. The binary operations take exactly two arguments and ~ exactly one; "
             "an operand that is not an integer is reported as an error.")
OVER = ["inputs"]
QUANT = "all pairs of 32-bit integers, all shift counts including negative and large ones, nested expressions, non-integer operands"
WHY = "One example per operator exists; sign bit, large counts and operand type errors are untested."
MECH = [("bit operators", F_ENV + " LeftShift RightShift BinaryOr BinaryAnd BinaryXOr BinaryNot")]
FILES = [F_ENV]
TECHNIQUE = "property-based differential testing against a reference model, edge-pair enumeration and algebraic laws"

QUICK, THOROUGH = 18000, 100000
RULE = "enumerated: every operator on all pairs of edge integers and all shift counts -40..70; generated: sessions of nested bit expressions; non-trivial = at least 4 bit operations evaluated"
OPS = ["<<", ">>", "|", "&", "^"]


def enumerate_cases(tier):
    ex = []
    for op in OPS:
        for a in INTS:
            for b in INTS:
                ex.append([op, a, b])
        for bad in ({"d": "2.0"}, True, None, {"s": "3"}, {"q": [1]}, {"q": "a"}):
            ex += [[op, bad, 1], [op, 1, bad], [op, bad, bad]]
        ex += [[op], [op, 1], [op, 1, 2, 3]]
    for op in ("<<", ">>"):
        for a in (1, -1, 5, -2147483648, 2147483647, 1431655765):
            for c in range(-40, 71):
                ex.append([op, a, c])
    for a in INTS + [{"d": "2.0"}, True, None, {"s": "3"}]:
        ex.append(["~", a])
    ex += [["~"], ["~", 1, 2]]
    return batches(ex)


def expr(r, d):
    if d <= 0 or r.random() < 0.2:
        k = r.random()
        if k < 0.4:
            return r.randint(-2147483648, 2147483647)
        if k < 0.97:
            return rint(r)
        return r.choice([{"d": "1.0"}, True, {"s": "1"}, None])
    if r.random() < 0.15:
        return ["~", expr(r, d - 1)]
    op = r.choice(OPS)
    return [op, expr(r, d - 1), r.randint(-5, 40) if op in ("<<", ">>") and r.random() < 0.7 else expr(r, d - 1)]


def gen(r, tier):
    a, b, c = [r.randint(-2147483648, 2147483647) for _ in range(3)]
    prog = [expr(r, r.choice([1, 2, 3])) for _ in range(r.randint(2, 8))]
    # laws: xor cancels, de Morgan, distribution
    prog += [["^", ["^", a, b], b], ["~", ["&", a, b]], ["|", ["~", a], ["~", b]], ["&", a, ["|", b, c]], ["|", ["&", a, b], ["&", a, c]]]
    return {"prog": [e if isinstance(e, list) else ["~", e] for e in prog]}


def check(env, case):
    it, exp = check_prog(env, case)
    labels_from(env, it, exp)
    env.nontrivial(sum(it.stats.get(o, 0) for o in OPS + ["~"]) >= 4)
