"""C10-C12, C14, C15, C33, C35: feasibility, validation, text, rref, plots, random programs, slackness."""
import math
import re
import random as pyrandom
from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st

from ..core import Prop, Sub, Violation, require
from ..exact import LP, dot, rref, solve_lp
from ..lpgen import LAYOUTS, build, close, floats, laid_out, lp_cases, model, nums, same_snapshot, snapshot, violated
from .lp_core import KINDS, as_arg, exact_dual, mat_eq, raises


# ---------------------------------------------------------------------- C10 feasibility
@st.composite
def point_cases(draw):
    case = draw(lp_cases(5, 5, sef=draw(st.integers(0, 3)) == 3, modes=["random", "feasible", "feasible", "degenerate", "optimal", "redundant"], bare=True))
    n = len(case["c"])
    how = draw(st.sampled_from(["random", "solved", "solved", "moved", "tight", "tight"]))
    case["how"] = how
    case["point"] = draw(nums("half", n))
    if how == "tight":
        # rebuild b around the point: every row tight, slack, or violated by a visible amount
        x = [(-abs(v) if j + 1 in case["neg"] else v if j + 1 in case["free"] else abs(v)) for j, v in enumerate(case["point"])]
        case["point"] = x
        case["b"] = [sum(p * q for p, q in zip(r, x)) for r in case["A"]]
        if draw(st.booleans()):
            for i in range(len(case["b"])):
                g = draw(st.sampled_from([0, 0, 1, 0.5, 6]))
                case["b"][i] += g if case["ineq"][i] == "<=" else -g if case["ineq"][i] == ">=" else 0
        fault = draw(st.sampled_from(["none", "none", "row", "sign"]))
        if fault == "row" and case["b"]:
            i = draw(st.integers(0, len(case["b"]) - 1))
            case["b"][i] += draw(st.sampled_from([0.5, -0.5, 1, -1, 3, -3, 2.0 ** -7, -(2.0 ** -7), 2.0 ** -9, -(2.0 ** -9)]))
        elif fault == "sign":
            j = draw(st.integers(0, n - 1))
            case["point"][j] = (draw(st.sampled_from([1, 1, 0])) * -case["point"][j]) + draw(st.sampled_from([0.5, -0.5, 2.0 ** -9, -(2.0 ** -9)]))
            case["b"] = [sum(p * q for p, q in zip(r, case["point"])) for r in case["A"]]
    if how == "moved":
        case["move"] = [draw(st.integers(0, n - 1)), draw(st.sampled_from([1, -1, 0.5, -4, 2.0 ** -6, -(2.0 ** -6), 2.0 ** -9, -(2.0 ** -9)]))]
    case["kind"] = draw(st.sampled_from(KINDS))
    case["steps"] = draw(st.booleans())
    return case


def run_point(case, ctx):
    lp = model(case)
    p = build(case)
    before = snapshot(p)
    status, value, best = solve_lp(lp)
    x = [F(v) for v in case["point"]]
    how = case["how"]
    if how in ("solved", "moved"):
        if best is None:
            how = "random"
        else:
            x = list(best)  # exact optimum (or a feasible point of an unbounded program): floats are off by rounding only
            if how == "moved":
                x[case["move"][0]] += F(case["move"][1])
    ctx.label(how, status)
    fx = [float(v) for v in x]
    gap = lp.slack(x)
    scale = 1 + max([abs(v) for v in lp.b] + [abs(v) for v in x])
    if 0 < gap < F(1, 10000) * scale:
        ctx.label("ambiguous (skipped)")
        return
    feasible = gap == 0
    ctx.label("feasible" if feasible else "infeasible")
    ctx.nontrivial(lp.m > 1)
    arg = as_arg(fx, case["kind"])
    got = p.is_feasible(arg) if case["steps"] else p.is_feasible(arg, show_steps=False)
    require(bool(got) == feasible, lambda: f"is_feasible({fx}) = {got}; exact worst violation {float(gap)}")
    v = p.evaluate(as_arg(fx, case["kind"]))
    exact = float(lp.value([F(t) for t in fx]))
    require(abs(float(v) - exact) <= 1e-9 * (1 + abs(exact) + sum(abs(float(a) * b) for a, b in zip(lp.c, fx))), f"evaluate({fx}) = {v}, exact {exact}")
    if feasible:
        w = p.value_of(as_arg(fx, case["kind"]))
        require(close(w, exact, 1e-9), f"value_of({fx}) = {w}, exact {exact}")
    else:
        raises((ValueError,), lambda: p.value_of(as_arg(fx, case["kind"])), f"value_of an infeasible point {fx}")
    g = p.is_solution_optimal(as_arg(fx, case["kind"]))
    if not feasible:
        require(not g, f"is_solution_optimal accepts the infeasible {fx}")
    elif status == "unbounded":
        require(not g, f"is_solution_optimal accepts {fx} for an unbounded program")
    else:
        d = abs(lp.value(x) - value)
        if d == 0 or d > F(1, 10000) * (1 + abs(value)):
            require(bool(g) == (d == 0), f"is_solution_optimal({fx}) = {g}: its value is {exact}, the optimum {float(value)}")
            ctx.label("optimal point" if d == 0 else "suboptimal point")
    if status == "optimal":
        s = p.solve()
        require(s is not None and bool(p.is_feasible(s)), f"is_feasible rejects solve()'s own {s}")
    for bad in (fx + [0.0], fx[:-1]):
        if bad:
            raises((ValueError,), lambda: p.is_feasible(bad), f"is_feasible of a vector of size {len(bad)}")
            raises((ValueError,), lambda: p.evaluate(bad), f"evaluate of a vector of size {len(bad)}")
            raises((ValueError,), lambda: p.value_of(bad), f"value_of of a vector of size {len(bad)}")
    require(same_snapshot(before, snapshot(p)), "a feasibility query modified the program")


@st.composite
def fault_cases(draw):
    """Programs of all sizes with a point that satisfies everything, or everything but one row or one sign."""
    rng = pyrandom.Random(draw(st.integers(0, 10 ** 7)))
    m, n = rng.randint(1, 14), rng.randint(1, 13)
    sef = rng.random() < 0.2
    signs = [0] * n if sef else rng.choice([[0] * n, [rng.randint(0, 2) for _ in range(n)], [rng.randint(0, 2) for _ in range(n)], [1] * n, [2] * n])
    ineq = ["="] * m if sef else [rng.choice(["<=", ">=", "="]) for _ in range(m)]
    x = [rng.choice([0, 0, 1, 2, 0.5, 7]) * (-1 if s == 2 or s == 1 and rng.random() < 0.5 else 1) for s in signs]
    fault = draw(st.sampled_from(["none", "none", "row", "row", "row", "sign"]))
    k = draw(st.integers(0, (m if fault == "row" else n) - 1))
    by = draw(st.sampled_from([0.5, 1, 3, 20, 2.0 ** -6]))
    if fault == "sign":
        x[k] = -by if signs[k] == 0 else by if signs[k] == 2 else x[k]
    A = [[rng.choice([0, 0, 1, -1, 2, -3, 0.5, 4]) for _ in range(n)] for _ in range(m)]
    b = []
    for i, (r, op) in enumerate(zip(A, ineq)):
        gap = by * rng.choice([1, -1]) if fault == "row" and i == k and op == "=" else by if fault == "row" and i == k else -rng.choice([0, 0, 1, 2.5, 9]) if op != "=" else 0
        v = sum(p * q for p, q in zip(r, x))
        b.append(v - gap if op == "<=" else v + gap)
    return {"mode": "fault", "A": A, "b": b, "c": [rng.randint(-3, 3) for _ in range(n)], "z": 0, "obj": rng.choice(["max", "min"]) if not sef else "max", "ineq": ineq,
            "free": [j + 1 for j in range(n) if signs[j] == 1], "neg": [j + 1 for j in range(n) if signs[j] == 2], "point": x, "fault": fault,
            "kind": draw(st.sampled_from(KINDS)), "steps": draw(st.booleans())}


def run_fault(case, ctx):
    lp, p = model(case), build(case)
    x = [F(v) for v in case["point"]]
    want = lp.slack(x) == 0
    arg = as_arg(case["point"], case["kind"])
    got = p.is_feasible(arg, show_steps=case["steps"])
    require(bool(got) == want, lambda: f"is_feasible({case['point']}) = {got}; exact worst violation {float(lp.slack(x))}")
    if want:
        require(close(p.value_of(arg), float(lp.value(x)), 1e-9), f"value_of({case['point']}) is not {float(lp.value(x))}")
    else:
        raises((ValueError,), lambda: p.value_of(arg), f"value_of an infeasible point {case['point']}")
    ctx.label("feasible" if want else f"one {case['fault']} broken")
    ctx.nontrivial(case["fault"] == "none" or not want)


C10 = Prop(
    "C10",
    "Generated programs with points that are random, exact optima (rounded to floats), moved optima, or points at which every row is "
    "tight or off by a visible amount, and programs of up to 14 rows and 13 variables with all or all but one condition satisfied; verdicts and values are compared with exact arithmetic. Non-trivial: at least two rows and the "
    "exact violation is zero or clearly above rounding.",
    [Sub("points", point_cases, run_point, 2000), Sub("faults", fault_cases, run_fault, 2400)],
    ["points whose exact violation is positive but below 1e-4 of the data's scale are skipped"],
)


# ----------------------------------------------------------------- C11 constructor validation
@st.composite
def init_cases(draw):
    case = draw(lp_cases(4, 5, styles=["small", "half", "tiny"]))
    case["fault"] = draw(st.sampled_from([
        "none", "none", "none", "none", "b_short", "b_long", "c_short", "c_long", "A_1d", "A_3d", "b_2d", "c_2d", "ragged", "dup_free", "dup_neg", "free_high",
        "free_low", "neg_high", "neg_low", "overlap", "ineq_short", "ineq_long", "ineq_bad", "objective", "text", "obj_array", "A_none", "A_scalar",
        "complex", "z_type", "free_type", "neg_type", "int_high", "int_low", "int_dup"]))
    case["k"] = draw(st.integers(0, 6))
    case["kind"] = draw(st.sampled_from(["array", "list", "intarray", "intarray", "mixed", "float32", "rows", "strided", "readonly"]))
    if case["kind"] in ("array", "list", "intarray") and draw(st.integers(0, 3)) == 0:  # beyond single precision
        case["A"][0][-1], case["b"][-1] = -33554433, 16777217
    case["cls"] = draw(st.sampled_from(["lp", "lp", "ip"]))
    case["eqnone"] = draw(st.booleans())
    case["where"] = draw(st.integers(0, 20))
    n = len(case["c"])
    case["integral"] = draw(st.none() | st.lists(st.integers(1, n), max_size=n, unique=True))
    if case["fault"].startswith("int_"):
        case["cls"] = "ip"
    return case


def run_init(case, ctx):
    from pytimize.programs import IntegerProgram, LinearProgram
    from .lp_core import same_program

    cls = IntegerProgram if case["cls"] == "ip" else LinearProgram
    A = [[float(v) for v in r] for r in case["A"]]
    b, c = [float(v) for v in case["b"]], [float(v) for v in case["c"]]
    n, m, k = len(c), len(b), case["k"]
    ineq, free, neg, obj = list(case["ineq"]), list(case["free"]), list(case["neg"]), case["obj"]
    f = case["fault"]
    if f == "b_short":
        b = b[:-1]
    elif f == "b_long":
        b = b + [1.0]
    elif f == "c_short":
        c = c[:-1]
    elif f == "c_long":
        c = c + [0.0]
    elif f == "A_1d":
        A = A[0]
    elif f == "A_3d":
        A = [A]
    elif f == "b_2d":
        b = [[v] for v in b]
    elif f == "c_2d":
        c = [c]
    elif f == "ragged":
        A[k % m] = A[k % m] + [1.0] if k % 2 or n == 1 else A[k % m][:-1]
        if m == 1:
            A = A + [A[0] + [2.0]]
            b = b + [0.0]
            ineq = ineq + ["="]
    elif f == "dup_free":
        j = 1 + k % n
        free, neg = [j, j], [t for t in neg if t != j]
    elif f == "dup_neg":
        j = 1 + k % n
        neg, free = [j, j], [t for t in free if t != j]
    elif f == "free_high":
        free = free + [n + 1 + k % 2]
    elif f == "free_low":
        free = free + [0 - k % 2]
    elif f == "neg_high":
        neg = neg + [n + 1 + k % 2]
    elif f == "neg_low":
        neg = neg + [0 - k % 2]
    elif f == "overlap":
        j = 1 + k % n
        free, neg = sorted(set(free + [j])), sorted(set(neg + [j]), reverse=True)
    elif f == "ineq_short":
        ineq = ineq[:-1]
    elif f == "ineq_long":
        ineq = ineq + ["="]
    elif f == "ineq_bad":
        ineq[k % m] = ["==", "<", ">", "", "=<", "≤", None][k]
    elif f == "objective":
        obj = ["maximize", "Max", "", "minimum", None, "MIN", "maxmin"][k]
    elif f == "text":
        bad, t = ["x", None, "1", "", (1,), {}, b"2"][k], case["where"]
        if t % 4 == 0:
            b[-1 - t // 4 % m] = bad
        elif t % 4 == 1:
            c[-1 - t // 4 % n] = bad
        else:
            A[-1 - t % m][t // 2 % n] = bad

    def conv(v):
        kind = case["kind"] if f in ("none", "b_short", "b_long", "c_short", "c_long", "A_1d", "A_3d", "b_2d", "c_2d") else "list"
        if kind == "array" or kind == "mixed" and v is A:
            return np.array(v)
        if kind == "float32":
            return np.array(v, dtype=np.float32)
        if kind in LAYOUTS:
            return laid_out(v, kind)
        if kind != "intarray":
            return v
        whole = np.array(v)
        if kind == "intarray" and np.all(whole == np.round(whole)):
            big, small = [int, np.int32, np.int64, np.int32], [int, np.int32, np.int16, np.int64, np.int8, np.uint8, np.uint32]
            kinds = [t for t in (small if np.all(np.abs(whole) < 2 ** 15) else big) if np.all(whole.astype(t) == whole)]
            return whole.astype(kinds[case["where"] % len(kinds)])
        return v

    if f == "obj_array":
        Aa = np.array(A, dtype=object)
        Aa[0][0] = "q"
    elif f == "A_none":
        Aa = None
    elif f == "A_scalar":
        Aa = 3.0
    else:
        Aa = conv(A)
    ba, ca = conv(b), conv(c)
    z = case["z"]
    if f == "complex":
        t = case["where"] % 3
        Aa, ba, ca = [np.array(v, dtype=complex if i == t else float) for i, v in enumerate((A, b, c))]
        (Aa, ba, ca)[t].flat[-1] += 2j
    elif f == "z_type":
        z = ["1", None, [1.0], 2j, [1, 2], "", {}][k]
    elif f == "free_type":
        free = [["1"], [1.5], [None], [[1]], 1, [1, "a"], ["x1"]][k]
    elif f == "neg_type":
        neg = [["1"], [0.5], [None], [[1]], 1, ["a", 1], [(1,)]][k]
    kw = {}
    if case["cls"] == "ip":
        integral = case["integral"]
        if f == "int_high":
            integral = (integral or []) + [n + 1 + k]
        elif f == "int_low":
            integral = (integral or []) + [0 - k]
        elif f == "int_dup":
            integral = (integral or [n]) + [(integral or [n])[0]]
        if integral is not None:
            kw["integral_variables"] = integral
    if not free:
        free = None if k % 2 else []
    if not neg:
        neg = None if k % 3 else []
    if f == "none" and case["eqnone"] and set(ineq) == {"="}:
        ineq = None

    def make():
        return cls(Aa, ba, ca, z, obj, ineq, free, neg, **kw)

    ctx.label(f, case["kind"])
    ctx.nontrivial(f != "none" or n > 1 and m > 1)
    if f == "none":
        p = make()
        same_program(p, case, "construction")
        if not case["free"] and not case["neg"] and case["obj"] == "max" and ineq is None and case["z"] == 0:
            same_program(cls(Aa, ba, ca), case, "construction with defaults")
        # by keyword, in any order, leaving out what has its default value
        words = {"z": z, "objective": obj, "inequalities": ineq, "free_variables": free, "negative_variables": neg, **kw}
        usual = {"z": 0, "objective": "max", "inequalities": None, "free_variables": None, "negative_variables": None, "integral_variables": None}
        words = {k: v for k, v in reversed(words.items()) if not (isinstance(v, type(usual[k])) and v == usual[k])}
        q = cls(b=ba, c=ca, A=Aa, **words)
        same_program(q, case, f"construction with {sorted(words)} by keyword")
        require(repr(q) == repr(p), "construction by keyword gives another text")
        ctx.label(*sorted({"by default: " + k for k in usual if k not in words}))
        return
    try:
        p = make()
    except Exception as e:
        require(isinstance(e, ValueError), lambda: f"{f}: rejected with {type(e).__name__} ({e}) instead of ValueError")
        return
    raise Violation(f"ill-formed program accepted ({f}): A={Aa!r} b={ba!r} c={ca!r} {obj} {ineq} free={free} negative={neg}")


C11 = Prop(
    "C11",
    "Well-formed programs and programs with exactly one ill-formed ingredient (33 kinds), as lists, float, int and mixed arrays, for both "
    "program classes; ill-formed ones must raise ValueError, well-formed ones must expose exactly the given data. Non-trivial: "
    "ill-formed, or larger than 1x1.",
    [Sub("init", init_cases, run_init, 3600)],
)


# ------------------------------------------------------------------------------- C12 text
@st.composite
def repr_cases(draw):
    case = draw(lp_cases(4, 5, bare=True))
    m, n = len(case["b"]), len(case["c"])
    pool = st.one_of(
        st.sampled_from([0, 0, 1, -1, 10, -10, 100, 0.5, -0.25, 1e-5, -2.5e-7, 0.001, 0.0456, 999.9996, 12345.678, -98765.4321, 1e10, 1e11, -3.21e12, 0.99996,
                         9.9995, 1e9, -1e10, 2.0000004, 1 / 3, -2 / 3, 1e-9, 5e-4, -0.0, 0.1 + 0.2]),
        st.floats(-1000, 1000).map(lambda v: v if abs(v) > 1e-8 else 0.0), st.integers(-10 ** 6, 10 ** 6).map(float),
        st.floats(-10, 10).map(lambda v: 10.0 ** v), st.floats(-8, 13).map(lambda v: -10.0 ** v))
    if draw(st.integers(0, 3)):
        case["A"] = [draw(st.lists(pool, min_size=n, max_size=n)) for _ in range(m)]
        case["b"] = draw(st.lists(pool, min_size=m, max_size=m))
        case["c"] = draw(st.lists(pool, min_size=n, max_size=n))
        case["z"] = draw(pool)
    case["cls"] = draw(st.sampled_from(["lp", "lp", "lp", "ip"]))
    case["integral"] = draw(st.none() | st.permutations(range(1, n + 1)).flatmap(lambda v: st.integers(0, n).map(lambda k: v[:k])))
    case["wide"] = draw(st.sampled_from([False, False, False, True]))
    if case["wide"]:  # more than nine variables: multi-digit subscripts
        extra = draw(st.integers(6, 14))
        for r in case["A"]:
            r.extend([1.0] * extra)
        case["c"] = list(case["c"]) + [2.0] * extra
        rest = list(range(n + 1, n + extra + 1))
        how = draw(st.sampled_from(["none", "last", "some", "all", "all", "every", "every_pos", "free"]))
        if how == "last":
            case["neg"] = case["neg"] + [n + extra]
        elif how == "some":
            case["neg"] = case["neg"] + [j for j in rest if draw(st.booleans())]
        elif how == "all":  # more than nine signs of a kind, but not all variables
            case["neg"] = case["neg"] + rest
        elif how == "every":
            case["neg"], case["free"] = list(range(1, n + extra + 1)), []
        elif how == "every_pos":
            case["neg"], case["free"] = [], []
        elif how == "free":
            case["free"] = case["free"] + rest
    return case


UNSUB = str.maketrans("₀₁₂₃₄₅₆₇₈₉", "0123456789")
NUM = r"-?\d+\.?\d*(?:e[+-]?\d+)?"


def printed(text, v, what):
    require(re.fullmatch(NUM, text) is not None, f"{what}: {text!r} is not a number")
    got = float(text)
    if abs(v) < 1e-10:
        require(got == 0 and not text.startswith("-"), f"{what}: {v} is printed as {text}")
        return
    require(abs(got - v) <= 6e-4 * abs(v), f"{what}: {v} is printed as {text}")
    require((got < 0) == (v < 0), f"{what}: {v} is printed as {text}")


def run_repr(case, ctx):
    from pytimize.programs import IntegerProgram, LinearProgram

    p = build(case, IntegerProgram, integral_variables=case["integral"]) if case["cls"] == "ip" else build(case, LinearProgram)
    before = snapshot(p)
    text = repr(p)
    require(str(p) == text, "str and repr differ")
    require(same_snapshot(before, snapshot(p)), "repr modified the program")
    lines = text.split("\n")
    m, n = len(case["b"]), len(case["c"])
    head = re.fullmatch(rf"(Max|Min) \[([^\]]*)\]x(?: ([+-]) ({NUM}))?", lines[0])
    require(head is not None, f"objective line {lines[0]!r}")
    require(head.group(1).lower() == case["obj"], f"objective line {lines[0]!r} for {case['obj']}")
    cs = head.group(2).split()
    require(len(cs) == n, f"{len(cs)} objective coefficients printed, there are {n}")
    for j in range(n):
        printed(cs[j], float(case["c"][j]), f"c{j + 1}")
    z = float(case["z"])
    if abs(z) < 1e-10:
        require(head.group(3) is None, f"zero constant printed in {lines[0]!r}")
    else:
        require(head.group(3) is not None, f"constant {z} is missing from {lines[0]!r}")
        printed(("-" if head.group(3) == "-" else "") + head.group(4), z, "z")
    require(lines[1] == "Subject To:" and (lines[2] == "" or not m), f"unexpected heading {lines[1:3]}")
    rows = lines[3:3 + m]
    dots = None
    for i, line in enumerate(rows):
        g = re.fullmatch(r"\[([^\]]*)\](x?)\s+([=≤≥])\s+\[([^\]]*)\]", line)
        require(g is not None, f"row {i + 1} {line!r}")
        entries = g.group(1).split()
        require(len(entries) == n, f"row {i + 1} {line!r} has {len(entries)} entries")
        for j in range(n):
            printed(entries[j], float(case["A"][i][j]), f"A[{i + 1},{j + 1}]")
        printed(g.group(4).strip(), float(case["b"][i]), f"b{i + 1}")
        require({"=": "=", "≤": "<=", "≥": ">="}[g.group(3)] == case["ineq"][i], f"row {i + 1} prints {g.group(3)} for {case['ineq'][i]}")
        require((g.group(2) == "x") == (i == m // 2), f"the x of the system is in the wrong row: {rows}")
        pos = [k for k, ch in enumerate(line) if ch == "."]
        require(dots is None or dots == pos, f"decimal points are not aligned:\n{text}")
        dots = pos
    rest = [l for l in lines[3 + m if m else 2:] if l]
    neg = pos_ = None
    integral = []
    for l in rest:
        if l.endswith("∈ Z"):
            require(not integral, f"two integrality lines: {rest}")
            g = re.fullmatch(r"(x|x[₀-₉]+(?:, x[₀-₉]+)*) ∈ Z", l)
            require(g is not None, f"integrality line {l!r}")
            integral = list(range(1, n + 1)) if g.group(1) == "x" else [int(t[1:]) for t in g.group(1).translate(UNSUB).split(", ")]
            continue
        g = re.fullmatch(r"(x|x[₀-₉]+(?:, x[₀-₉]+)*) ([≤≥]) 0", l)
        require(g is not None, f"sign line {l!r}")
        idx = list(range(1, n + 1)) if g.group(1) == "x" else [int(t[1:]) for t in g.group(1).translate(UNSUB).split(", ")]
        if g.group(2) == "≤":
            require(neg is None, f"two negative sign lines: {rest}")
            neg = idx
        else:
            require(pos_ is None, f"two positive sign lines: {rest}")
            pos_ = idx
    want_pos = [j for j in range(1, n + 1) if j not in case["free"] and j not in case["neg"]]
    require(sorted(neg or []) == sorted(case["neg"]), f"negative variables printed {neg}, are {case['neg']}")
    require(sorted(pos_ or []) == want_pos, f"nonnegative variables printed {pos_}, are {want_pos}")
    want_int = [] if case["cls"] == "lp" else list(range(1, n + 1)) if case["integral"] is None else sorted(case["integral"])
    require(sorted(integral) == want_int, f"integral variables printed {integral}, are {want_int}")
    ctx.nontrivial(m > 1 and n > 1)
    if n > 9:
        ctx.label("multi-digit indices")


C12 = Prop(
    "C12",
    "Programs with numbers from 1e-9 to 1e13 (integers, fractions, scientific range, negative zero), all operators and signs, up to 14 "
    "variables; the text is parsed back and compared with the program. Non-trivial: at least 2x2.",
    [Sub("text", repr_cases, run_repr, 3200)],
    ["numbers are printed to three decimals or four significant digits; relative error up to 6e-4 is allowed"],
)


# ------------------------------------------------------------------------------- C14 rref
@st.composite
def rref_cases(draw):
    m, n = draw(st.integers(1, 5)), draw(st.integers(1, 6))
    style = draw(st.sampled_from(["unit", "tiny", "small", "half", "pos", "med"]))
    if draw(st.integers(0, 5)) == 3:
        m, n, style = draw(st.integers(5, 9)), draw(st.integers(6, 12)), draw(st.sampled_from(["unit", "tiny"]))
    M = [draw(nums(style, n)) for _ in range(m)]
    if draw(st.integers(0, 5)) == 3:  # a column begins late: the pivot is far below
        for j in range(draw(st.integers(1, min(3, n)))):
            for i in range(draw(st.integers(0, m))):
                M[i][j] = 0.0
    kind = draw(st.sampled_from(["plain", "lowrank", "zeros", "reduced", "reduced"]))
    if kind == "lowrank" and m > 1:
        for i in range(draw(st.integers(1, m - 1)), m):
            a, b = draw(st.integers(0, m - 1)), draw(st.integers(0, m - 1))
            f, g = draw(st.sampled_from([(1, 0), (2, -1), (1, 1), (-3, 1)]))
            M[i] = [f * p + g * q for p, q in zip(M[a], M[b])]
    elif kind == "zeros":
        for j in draw(st.lists(st.integers(0, n - 1), max_size=3)):
            for i in range(m):
                M[i][j] = 0.0
        for i in draw(st.lists(st.integers(0, m - 1), max_size=2)):
            M[i] = [0.0] * n
    elif kind == "reduced":
        R, _ = rref([[F(v) for v in r] for r in M])
        M = [[float(v) for v in r] for r in R]
        fault = draw(st.sampled_from(["none", "swap", "entry", "scale", "zerorow"]))
        i = draw(st.integers(0, m - 1) if draw(st.booleans()) else st.sampled_from([m - 1, max(0, m - 2)]))
        if fault == "swap":
            k = draw(st.sampled_from([max(0, i - 1), draw(st.integers(0, m - 1))]))
            M[i], M[k] = M[k], M[i]
        elif fault == "entry":
            M[i][draw(st.integers(0, n - 1))] += draw(st.sampled_from([1, -1, 0.5, 2.0 ** -6, -(2.0 ** -6)]))
        elif fault == "scale":
            M[i] = [2 * v for v in M[i]]
        elif fault == "zerorow":
            M.insert(i, [0.0] * n)
    if kind != "reduced" and draw(st.integers(0, 3)) == 0:  # small is not zero, and large not special
        i = draw(st.integers(0, m - 1))
        f = draw(st.sampled_from([2.0 ** -6, 2.0 ** -6, 64, 1024]))
        if draw(st.booleans()):
            M[i] = [f * v for v in M[i]]
        else:
            M[i][draw(st.integers(0, n - 1))] = f
    return {"M": M, "kind": kind, "layout": draw(st.sampled_from(LAYOUTS))}


def is_rref(M):
    prev, zero = -1, False
    for i, r in enumerate(M):
        j = next((k for k, v in enumerate(r) if v != 0), None)
        if j is None:
            zero = True
            continue
        if zero or r[j] != 1 or j <= prev or any(M[k][j] != 0 for k in range(len(M)) if k != i):
            return False
        prev = j
    return True


def run_rref(case, ctx):
    from pytimize.programs import LinearProgram

    M = case["M"]
    m, n = len(M), len(M[0])
    p = LinearProgram(np.array(M), np.zeros(m), np.zeros(n))
    arg = laid_out(M, case.get("layout"))
    got = p.to_rref(arg)
    require(np.array_equal(arg, np.array(M)), "to_rref changed its argument")
    np.asarray(got)[...] += 0.0
    if isinstance(got, np.ndarray):
        require(not np.shares_memory(got, arg), "to_rref shares its result with its argument")
    R, _ = rref([[F(v) for v in r] for r in M])
    exact_input = all(v == int(v * 1024) / 1024 for r in M for v in r)
    if exact_input:
        require(mat_eq(np.round(np.asarray(got, dtype=float), 12), R), lambda: f"to_rref({M}) = {np.asarray(got).tolist()}, exact {[[float(v) for v in r] for r in R]}")
        want = is_rref([[F(v) for v in r] for r in M])
        require(bool(p.is_in_rref) == want, f"is_in_rref = {p.is_in_rref} for {M}")
        ctx.label("is rref" if want else "is not rref")
    q = LinearProgram(np.round(np.asarray(got, dtype=float), 14) + 0.0, np.zeros(m), np.zeros(n))
    require(bool(q.is_in_rref), f"to_rref({M}) = {np.asarray(got).tolist()} is not recognized as reduced")
    ctx.label(case["kind"])
    ctx.nontrivial(m > 1 and n > 1)


C14 = Prop(
    "C14",
    "Matrices up to 6x6 (random, low rank, zero rows and columns, reduced ones with one fault); the reduced form and the recognizer are "
    "compared with exact elimination. Non-trivial: at least 2x2.",
    [Sub("rref", rref_cases, run_rref, 3200)],
)


# ------------------------------------------------------------------------------ C15 plots
@st.composite
def graph_cases(draw):
    style = draw(st.sampled_from(["tiny", "small", "half", "med", "unit"]))
    m = draw(st.integers(1, draw(st.sampled_from([6, 6, 6, 12]))))
    A = [draw(nums(style, 2)) for _ in range(m)]
    A = [r if any(r) else [1.0, draw(st.sampled_from([0.0, 1.0]))] for r in A]
    if m > 1 and draw(st.booleans()):  # parallel constraints
        f = draw(st.sampled_from([1, -1, 2, -0.5]))
        A[-1] = [f * v for v in A[0]]
    op = draw(st.sampled_from(["<=", ">="]))
    x0 = draw(nums("half", 2))
    if draw(st.integers(0, 5)):
        gaps = draw(st.lists(st.sampled_from([0, 0, 1, 2, 5, 0.5]), min_size=m, max_size=m))
        b = [r[0] * x0[0] + r[1] * x0[1] + (g if op == "<=" else -g) for r, g in zip(A, gaps)]
    else:
        b = draw(nums(style, m))
    if draw(st.integers(0, 3)) == 0:  # the same half planes in other units
        units = draw(st.lists(st.sampled_from([1, 2.0 ** -6, 2.0 ** -8, 128]), min_size=m, max_size=m))
        A, b = [[v * u for v in r] for r, u in zip(A, units)], [v * u for v, u in zip(b, units)]
    return {"A": A, "b": b, "c": draw(nums("small", 2)), "op": op, "limit": draw(st.sampled_from([None, None, 10, 100, -25, 12.5, 3, 0.5, -200, -1000, 5000]))}


def polygon(A, b, L):
    """Exact vertices of {x: A x <= b, |x|<=L}."""
    rows = [(F(r[0]), F(r[1]), F(q)) for r, q in zip(A, b)] + [(F(1), F(0), F(L)), (F(-1), F(0), F(L)), (F(0), F(1), F(L)), (F(0), F(-1), F(L))]
    pts = set()
    for i in range(len(rows)):
        for k in range(i):
            (a, b1, e), (c, d, f) = rows[i], rows[k]
            D = a * d - b1 * c
            if D == 0:
                continue
            x, y = (e * d - b1 * f) / D, (a * f - e * c) / D
            if all(p * x + q * y <= r for p, q, r in rows):
                pts.add((x, y))
    return pts


def untouched(p, twin, what):
    """Nothing is left behind that equality, or a constraint added later, would show."""
    require(p == twin and twin == p, f"after {what} the program differs from a copy made before")
    for q in (p.copy(), p):
        n = len(q.c)
        for k in range(4):
            q.add_constraint([0.0] * n, "=", 0.0, in_place=True)
        require(list(q.inequalities)[-4:] == ["="] * 4, f"after {what} equality constraints are added as {list(q.inequalities)[-4:]}")


def run_graph(case, ctx):
    import matplotlib.pyplot as plt
    from pytimize.programs import LinearProgram

    m = len(case["b"])
    # variables are free: the drawn region is exactly the constraints'
    p = LinearProgram(np.array(case["A"], dtype=float), np.array(case["b"], dtype=float), np.array(case["c"]), 0, "max", [case["op"]] * m, [1, 2])
    before, twin = snapshot(p), p.copy()
    s = 1 if case["op"] == "<=" else -1
    L = abs(case["limit"]) if case["limit"] is not None else 1000
    want = polygon([[s * v for v in r] for r in case["A"]], [s * v for v in case["b"]], L)
    plt.close("all")
    shown = []
    saved = plt.show
    plt.show = lambda *a, **k: shown.append(1)
    try:
        if not want:
            try:
                p.graph_polyhedron() if case["limit"] is None else p.graph_polyhedron(case["limit"])
            except Exception:
                pass
            ctx.label("empty region")
        else:
            p.graph_polyhedron() if case["limit"] is None else p.graph_polyhedron(case["limit"])
        require(same_snapshot(before, snapshot(p)), "graph_polyhedron modified the program")
        untouched(p, twin, "graph_polyhedron")
        if not want:
            return
        ax = plt.gca()
        require(len(ax.patches) == 1, f"{len(ax.patches)} filled regions drawn")
        drawn = [(float(x), float(y)) for x, y in np.asarray(ax.patches[0].get_xy())]
        tol = 1e-6 * (1 + L)

        def near(u, v):
            return abs(u[0] - float(v[0])) <= tol and abs(u[1] - float(v[1])) <= tol

        require(shown, "the plot is not shown")
        for v in want:
            require(any(near(u, v) for u in drawn), lambda: f"corner {(float(v[0]), float(v[1]))} is not drawn: {drawn}")
        for u in drawn:
            require(any(near(u, v) for v in want), lambda: f"drawn point {u} is not a corner; corners are {[(float(x), float(y)) for x, y in want]}")
        # outline and fill are the convex polygon itself: its area equals the hull's (no self-crossing order)
        cx, cy = sum(float(v[0]) for v in want) / len(want), sum(float(v[1]) for v in want) / len(want)
        ring = sorted(((float(v[0]), float(v[1])) for v in want), key=lambda v: math.atan2(v[1] - cy, v[0] - cx))

        def area(r):
            return abs(sum(r[i][0] * r[(i + 1) % len(r)][1] - r[(i + 1) % len(r)][0] * r[i][1] for i in range(len(r)))) / 2

        require(abs(area(drawn) - area(ring)) <= 1e-5 * (1 + area(ring)) + tol * L, f"the drawn polygon has area {area(drawn)}, the region {area(ring)}")
        lines = ax.get_lines()
        require(len(lines) >= 1, "no outline drawn")
        xy = [(float(x), float(y)) for x, y in zip(*lines[0].get_data())]
        require(near(xy[0], xy[-1]) and abs(area(xy) - area(ring)) <= 1e-5 * (1 + area(ring)) + tol * L, "the outline is not the closed boundary")
        ctx.label(f"{min(len(want), 7)} corners")
        ctx.nontrivial(len(want) > 2)
    finally:
        plt.show = saved
        plt.close("all")


def run_nograph(case, ctx):
    import matplotlib.pyplot as plt

    p = build(case)
    ok = len(case["c"]) == 2 and set(case["ineq"]) in ({"<="}, {">="})
    if ok:
        return
    before, twin = snapshot(p), p.copy()
    raises((ArithmeticError,), p.graph_polyhedron, f"graph_polyhedron of a program with {len(case['c'])} variables and {case['ineq']}")
    plt.close("all")
    require(same_snapshot(before, snapshot(p)), "a refused graph_polyhedron modified the program")
    untouched(p, twin, "a refused graph_polyhedron")
    ctx.nontrivial()


C15 = Prop(
    "C15",
    "Two-variable systems of <= or >= constraints (parallel, redundant, unbounded and empty ones included), default and other limits; "
    "the drawn polygon and outline are compared with the exact corners of the clipped region. Non-trivial: at least three corners "
    "(plots); unsupported program (refusals).",
    [Sub("plot", graph_cases, run_graph, 1600), Sub("refuse", lambda: lp_cases(3, 3), run_nograph, 200)],
    ["variables are free, so that the region is unambiguous", "for an empty region only: no exit, no change to the program"],
)


# --------------------------------------------------------------------------- C33 random
def run_random(case, ctx):
    import random as pyrandom

    from pytimize.programs import LinearProgram

    np.random.seed(case["seed"])
    pyrandom.seed(case["seed"])
    kw = {k: case[k] for k in ("rows", "columns", "magnitude") if case[k] is not None}
    p = LinearProgram.random(**kw)
    m, n, g = case["rows"] or 4, case["columns"] or 6, case["magnitude"] if case["magnitude"] is not None else 100
    require(isinstance(p, LinearProgram), "not a linear program")
    A = np.asarray(p.A)
    require(A.shape == (m, n) and np.asarray(p.b).shape == (m,) and np.asarray(p.c).shape == (n,), f"random({m}, {n}) has shape {A.shape}")
    for v in list(A.ravel()) + list(p.b) + list(p.c) + [p.z]:
        require(abs(float(v)) <= g + 1e-9, f"{v} exceeds the magnitude {g}")
    require(p.objective in ("max", "min") and len(p.inequalities) == m and set(p.inequalities) <= {"=", "<=", ">="}, "ill-formed")
    f, q, r = p.free_variables, p.negative_variables, p.positive_variables
    require(sorted(f + q + r) == list(range(1, n + 1)), f"variables are not classified exactly once: {f}, {q}, {r}")
    require(same_snapshot(snapshot(p), snapshot(p.copy())), "copy of a random program differs")
    ctx.nontrivial(m * n > 1)


# the quick space is small, so every draw is also a distinct random program
C33 = Prop(
    "C33",
    "Random sizes, magnitudes and generator seeds; the generated program must have the requested shape and range and classify every variable "
    "once. Non-trivial: larger than 1x1.",
    [Sub("random", lambda: st.fixed_dictionaries({
        "rows": st.one_of(st.none(), st.integers(1, 9)), "columns": st.one_of(st.none(), st.integers(1, 9)),
        "magnitude": st.one_of(st.none(), st.sampled_from([1, 5, 0.5, 1000, 37.25])), "seed": st.integers(0, 2 ** 31)}), run_random, 1200)],
)


# ------------------------------------------------------------------ C35 complementary slackness
def parse_linear(text, var):
    """'1.0x₁ + -2.0x₂ = 3.0' -> ({1: 1.0, 2: -2.0}, 3.0)"""
    left, right = text.rsplit(" = ", 1)  # nothing at all for no terms
    out = {}
    for t in left.split(" + ") if left else []:
        g = re.fullmatch(rf"({NUM}|-?inf|nan){var}([₀-₉]+)", t)
        require(g is not None, f"term {t!r} of {text!r}")
        j = int(g.group(2).translate(UNSUB))
        require(j not in out, f"variable repeated in {text!r}")
        out[j] = float(g.group(1))
    return out, float(right)


def run_cs(case, ctx):
    p = build(case)
    before = snapshot(p)
    text = p.cs_conditions()
    require(same_snapshot(before, snapshot(p)), "cs_conditions modified the program")
    d = exact_dual(case)
    want = []
    for i, op in enumerate(case["ineq"]):
        if op != "=":
            want.append(("y", i + 1, "x", {j + 1: float(v) for j, v in enumerate(case["A"][i])}, float(case["b"][i])))
    for j, op in enumerate(d["ineq"]):
        if op != "=":
            want.append(("x", j + 1, "y", {i + 1: float(v) for i, v in enumerate(d["A"][j])}, float(d["b"][j])))
    got = []
    for line in text.split("\n") if text else []:
        g = re.fullmatch(r"([xy])([₀-₉]+) = 0 \|\| (.*)", line)
        require(g is not None, f"condition {line!r}")
        other = "x" if g.group(1) == "y" else "y"
        terms, rhs = parse_linear(g.group(3), other)
        got.append((g.group(1), int(g.group(2).translate(UNSUB)), other, terms, rhs))
    key = lambda t: (t[0], t[1])
    require([key(t) for t in sorted(got, key=key)] == [key(t) for t in sorted(want, key=key)], f"conditions for {[key(t) for t in got]}, expected {[key(t) for t in want]}")
    for g, w in zip(sorted(got, key=key), sorted(want, key=key)):
        require(all(abs(g[3].get(k, 0) - v) <= 1e-9 * (1 + abs(v)) for k, v in w[3].items()) and set(g[3]) <= set(w[3]), f"condition of {key(g)} reads {g[3]}, expected {w[3]}")
        require(abs(g[4] - w[4]) <= 1e-9 * (1 + abs(w[4])), f"condition of {key(g)} has right side {g[4]}, expected {w[4]}")
    # semantic cross-check: the exact optimum satisfies each primal/dual pair is implied by the exact equality above
    ctx.nontrivial(len(want) > 1)


C35 = Prop(
    "C35",
    "Generated programs of every kind; the conditions are parsed and compared with one condition per inequality of the primal and of the "
    "exact dual. Non-trivial: at least two conditions.",
    [Sub("cs", lambda: lp_cases(4, 4, bare=True), run_cs, 2000)],
)

PROPS = [C10, C11, C12, C14, C15, C33, C35]
