"""24-bit angles: all 2^24 codes and their neighbourhoods; arithmetic expressions: all token strings up to a length."""
import itertools
import math
from fractions import Fraction

import numpy as np

from .. import repoenv
from ..common import Result

LEVEL = "model_checking"
KERNELS = False
RULE = (
    "one evaluation = one 24-bit code decoded and encoded again, one angle encoded and decoded, or one token string evaluated or "
    "refused; distinct by code, angle or string"
)
ASSUMPTIONS = ["binary64 arithmetic of the machine"]
CASE_TIMEOUT = 600
BUDGET = {"quick": 600, "thorough": 3000}

TOKENS = ["2", "0.5", "pi", "+", "-", "*", "/", "(", ")"]
FULL = TOKENS + ["7", "PI", "**", "//", "%", "e", ",", "1e-3"]


def bounds(tier):
    return {
        "codes": "all 2^24",
        "angles between codes": "every 16th code (every code in thorough): quarter and three quarter points, and +-1, +-2, +-3 turns",
        "expressions": f"all strings of up to {7 if tier == 'quick' else 8} of the tokens {TOKENS}, up to 5 (6) of {FULL}",
    }


def setup():
    repoenv.use_model_mpi()
    import common.angle24  # noqa
    import common.eval_expr  # noqa


def cases(tier, seed):
    step = 1 << 20
    for lo in range(0, 1 << 24, step):
        yield {"kind": "codes", "lo": lo, "hi": lo + step, "stride": 16 if tier == "quick" else 1}
    n = 7 if tier == "quick" else 8
    for a in range(len(TOKENS)):
        yield {"kind": "expr", "tokens": "base", "first": a, "length": n}
    for a in range(len(FULL)):
        yield {"kind": "expr", "tokens": "full", "first": a, "length": 5 if tier == "quick" else 6}
    yield {"kind": "special"}


class Bad(Exception):
    pass


VALUE = {"2": 2, "0.5": 0.5, "pi": math.pi, "PI": math.pi, "7": 7, "1e-3": 1e-3}


def parse(tokens):
    """Recursive descent over the token list: numbers, pi, + - * /, unary minus, parentheses."""
    pos = 0

    def peek():
        return tokens[pos] if pos < len(tokens) else None

    def expr():
        nonlocal pos
        v = term()
        while peek() in ("+", "-"):
            op = peek()
            pos += 1
            w = term()
            v = v + w if op == "+" else v - w
        return v

    def term():
        nonlocal pos
        v = factor()
        while peek() in ("*", "/"):
            op = peek()
            pos += 1
            w = factor()
            if op == "/" and w == 0:
                raise Bad
            v = v * w if op == "*" else v / w
        return v

    def factor():
        nonlocal pos
        t = peek()
        if t == "-":
            pos += 1
            return -factor()
        if t == "(":
            pos += 1
            v = expr()
            if peek() != ")":
                raise Bad
            pos += 1
            return v
        if t in VALUE:
            pos += 1
            return VALUE[t]
        raise Bad

    v = expr()
    if pos != len(tokens):
        raise Bad
    return v


def spaced(t):
    return " ".join(t)


def word(x):
    return x[0].isalnum()


def tight(t):
    """No space except where two tokens would otherwise become one."""
    s = t[0]
    for a, b in zip(t, t[1:]):
        s += (" " if (word(a) and word(b)) or (not word(a) and not word(b) and a not in "()" and b not in "()") else "") + b
    return s


def expressions(case, res):
    import warnings

    from common.eval_expr import eval_expr

    warnings.simplefilter("ignore")
    tok = TOKENS if case["tokens"] == "base" else FULL
    bad = ok = 0
    for k in range(0, case["length"]):
        for rest in itertools.product(tok, repeat=k):
            t = (tok[case["first"]],) + rest
            try:
                want = parse(t)
            except Bad:
                want = None
            s = spaced(t) if k % 2 == 0 else tight(t)
            try:
                got = eval_expr(s)
            except RecursionError:
                raise
            except Exception:
                got = None
            res.evaluations += 1
            res.states += 1
            if want is None:
                bad += 1
                # "%", "//", "**" and tuples are not simple operations
                if got is not None:
                    res.bad("refused", f"{s!r} is not a simple expression, but gives {got!r}")
            else:
                ok += 1
                res.nontrivial += 1
                if got is None or not math.isclose(got, want, rel_tol=1e-14, abs_tol=1e-14):
                    res.bad("value", f"{s!r} gives {got!r} instead of {want!r}")
            if len(res.problems) > 20:
                return
    res.sample = {"valid": ok, "refused": bad, "first": tok[case["first"]]}


def codes(case, res):
    from common import angle24 as m

    N = 1 << 24
    w = 2.0 * math.pi / N
    enc, dec = m.encode, m.decode
    lo, hi = case["lo"], case["hi"]
    for c in range(lo, hi):
        a = dec(c)
        if enc(a) != c or abs(a - (c - N // 2) * w) > 1e-15 * 4 or not (-math.pi <= a < math.pi):
            res.bad("code", f"code {c} is angle {a!r}, which has code {enc(a)}")
            if len(res.problems) > 10:
                return
    res.evaluations += hi - lo
    res.nontrivial += hi - lo
    res.states += hi - lo
    A = m.angle24
    for c in range(lo, hi, case["stride"]):
        base = (c - N // 2) * w
        for f in (0.25, 0.49, -0.25, -0.49):
            x = base + f * w
            k = enc(x)
            if k != c:
                res.bad("nearest", f"angle {x!r} has code {k} instead of {c}")
        y = A(base + 0.25 * w)
        if abs(y - base) > 1e-15 * 8 or type(float(y)) is not float:
            res.bad("angle", f"angle24({base + 0.25 * w!r}) = {float(y)!r} instead of {base!r}")
        if c % 256 == 0:
            for turns in (1, -1, 2, -2, 3, -3):
                x = base + 0.2 * w + turns * 2.0 * math.pi
                if enc(x) != c:
                    res.bad("turns", f"angle {x!r} ({turns} turns more) has code {enc(x)} instead of {c}")
        res.evaluations += 5
        if len(res.problems) > 10:
            return
    res.transitions += hi - lo
    res.sample = {"codes": [lo, hi]}


def special(case, res):
    from common import angle24 as m
    from common.eval_expr import eval_expr

    N = 1 << 24
    for k in range(-64, 65):
        c = (N // 2 + k) % N
        x = k * 2.0 * math.pi / N
        res.check(m.encode(x) == c, "small angles", f"encode({x!r}) = {m.encode(x)} instead of {c}")
    for x in (math.pi, -math.pi, 3 * math.pi, -3 * math.pi):
        res.check(m.decode(m.encode(x)) == -math.pi, "half turn", f"{x!r} becomes {m.decode(m.encode(x))!r}")
    for c in range(0, N, 4099):
        for over in (1, 2, 5):
            res.check(m.decode(c + over * N) == m.decode(c), "truncation", f"code {c}+{over}*2^24 is not truncated to 24 bits")
    for x in ("1.5", 1, 0, "-0.25", np.float64(0.7), m.angle24(1.0)):
        v = m.angle24(x)
        res.check(isinstance(v, float) and abs(v - float(x)) <= 1.9e-7, "angle", f"angle24({x!r}) = {v!r}")
        res.check(m.angle24(v) == v, "idempotent", f"angle24 of {v!r} differs")
    for s in ("__import__('os')", "abs(2)", "x", "2 if 1 else 3", "'a'", "[1]", "2 < 3", "lambda: 2", "pi.real", "1 and 2", "not 1",
              "~2", "+2", "2 @ 3", "2 << 1", "", "2 +", "(", "f''", "None", "2; 3"):
        try:
            v = eval_expr(s)
        except Exception:
            v = None
        res.check(v is None, "refused", f"{s!r} gives {v!r}")
    for s, v in (("Pi*2", 2 * math.pi), ("pI/2", math.pi / 2), ("-pi", -math.pi), ("2", 2), ("1.4", 1.4), ("2-3-4", -5), ("8/4/2", 1),
                 ("2*-3", -6), ("--2", 2), ("1/3", Fraction(1, 3))):
        g = eval_expr(s)
        res.check(abs(g - float(v)) < 1e-15, "value", f"{s!r} gives {g!r} instead of {v!r}")


def run_case(case):
    res = Result()
    {"codes": codes, "expr": expressions, "special": special}[case["kind"]](case, res)
    return res
