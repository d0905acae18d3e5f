"""C16-C17: integer programs."""
import itertools
import math
from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st

from ..core import STEPS, Prop, Sub, Violation, require
from ..exact import LP, dot, solve_lp
from ..lpgen import build, close, floats, lp_cases, model, nums, same_snapshot, snapshot, violated
from .lp_core import KINDS, as_arg, raises, same_program


@st.composite
def ip_cases(draw, max_n=3, max_m=3, grow=False):
    """Programs whose region is usually bounded: structural rows plus bounds as rows, in any order."""
    case = draw(lp_cases(max_m, max_n, min_n=draw(st.sampled_from([1, 2, 2])), modes=["random", "feasible", "feasible", "optimal", "degenerate", "redundant"],
                         styles=["tiny", "small", "small", "pos", "half", "med"], scaled=False, grow=grow))
    n = len(case["c"])
    how = draw(st.sampled_from(["packed", "packed", "packed", "box", "knapsack", "plain", "strip"]))
    if how == "packed":  # inequalities a little off an integer point of the box: the relaxation is rarely integral
        how = "box"
        x0 = [draw(st.sampled_from([0, 1, 1, 2])) * (-1 if j + 1 in case["neg"] else 1) for j in range(n)]
        m = draw(st.integers(1, max_m))
        case["A"] = [draw(st.lists(st.integers(-9, 9), min_size=n, max_size=n)) for _ in range(m)]
        case["ineq"] = [draw(st.sampled_from(["<=", "<=", ">="])) for _ in range(m)]
        case["b"] = [sum(p * q for p, q in zip(r, x0)) + draw(st.sampled_from([0, 1, 2, 4, 0.5])) * (1 if op == "<=" else -1)
                     for r, op in zip(case["A"], case["ineq"])]
        case["c"] = draw(st.lists(st.integers(-9, 9), min_size=n, max_size=n))
        if draw(st.sampled_from([True, True, False])):  # improving towards the packed rows, so that they decide the optimum
            way = 1 if case["obj"] == "max" else -1
            y = draw(st.lists(st.sampled_from([0, 1, 1, 2]), min_size=m, max_size=m))
            case["c"] = [way * sum(t * r[j] * (1 if op == "<=" else -1) for t, r, op in zip(y, case["A"], case["ineq"])) + draw(st.sampled_from([0, 0, 1, -1]))
                         for j in range(n)]
    rows = []
    if how == "strip":  # few integer points, far from the relaxation's optimum: a deep search
        n = draw(st.sampled_from([1, 2, 2])) if n > 1 else 1
        case["free"], case["neg"], case["c"] = [j for j in case["free"] if j <= n], [j for j in case["neg"] if j <= n], case["c"][:n]
        case["age"] = None
        at = [draw(st.integers(0, 9)) * (-1 if j + 1 in case["neg"] or j + 1 in case["free"] and draw(st.booleans()) else 1) for j in range(n)]
        a = [draw(st.integers(1, 7)), -draw(st.integers(1, 7))][:n] if draw(st.booleans()) else [draw(st.integers(2, 9)) for _ in range(n)]
        t = sum(p * q for p, q in zip(a, at))
        case["A"], case["b"], case["ineq"] = [list(a), list(a)], [t + draw(st.sampled_from([0, 0.25, 0.5])), t - draw(st.sampled_from([0, 0.25, 0.5]))], ["<=", ">="]
        far = draw(st.sampled_from([6.5, 9, 12.75]))
        case["deep"] = True
        for j in range(n):
            unit = [1 if k == j else 0 for k in range(n)]
            if j + 1 not in case["neg"]:
                rows.append((unit, far, "<="))
            if j + 1 in case["neg"] or j + 1 in case["free"]:
                rows.append((unit, -far, ">="))
    if how == "box":
        for j in range(n):
            unit = lambda v: [v if k == j else 0 for k in range(n)]
            hi = draw(st.sampled_from([1, 2, 3, 4, 2.5, 3.75, 0.5] + [7.5, 11] * (n < 3)))
            lo = draw(st.sampled_from([1, 2, 3, 1.5, 2.25, 0, -1] + [6.5, 10] * (n < 3)))
            s = draw(st.sampled_from([1, 1, 1, -1, 2, 0.5]))  # scaled rows: 2x <= 5
            if j + 1 not in case["neg"]:
                rows.append((unit(s), s * hi, "<=" if s > 0 else ">="))
            if j + 1 in case["neg"] or j + 1 in case["free"]:
                rows.append((unit(s), -s * lo, ">=" if s > 0 else "<="))
    elif how == "knapsack":
        a = [draw(st.integers(1, 5)) * (-1 if j + 1 in case["neg"] else 1) for j in range(n)]
        rows.append((a, draw(st.sampled_from([3, 5, 7.5, 10, 13])), "<="))
    for r, q, op in rows:
        at = draw(st.integers(0, len(case["b"])))
        case["A"].insert(at, r)
        case["b"].insert(at, q)
        case["ineq"].insert(at, op)
    if draw(st.sampled_from([False, False, True])):  # fractional objective values: integer points that differ by less than one
        one = draw(st.sampled_from([None, 16, 64, 64, 256]))
        case["c"] = [v / (one or draw(st.sampled_from([8, 8, 16]))) for v in case["c"]]
    k = draw(st.sampled_from([1] * 12 + [16, 1 / 32]))
    if k != 1:  # rows in other units
        case["A"], case["b"] = [[k * v for v in r] for r in case["A"]], [k * v for v in case["b"]]
    kind = draw(st.sampled_from(["all", "all", "all", "some", "some", "none", "listed"]))
    idx = list(range(1, n + 1))
    if kind == "all":
        case["integral"] = None
    elif kind == "none":
        case["integral"] = []
    elif kind == "listed":
        case["integral"] = idx
    else:
        case["integral"] = draw(st.permutations(idx))[: draw(st.integers(1, n))]
    return case


def build_ip(case):
    from pytimize.programs import IntegerProgram

    k = case["integral"]
    return build(case, IntegerProgram, integral_variables=None if k is None else list(k))


def integral_of(case):
    return list(range(len(case["c"]))) if case["integral"] is None else sorted(j - 1 for j in case["integral"])


def integer_optimum(case, limit=2500):
    """(status, value) by exhaustive search; None if the region is not bounded enough to enumerate."""
    lp = model(case)
    status, _, _ = solve_lp(lp)
    if status != "optimal":
        return status, None
    ints = integral_of(case)
    boxes, total = [], 1
    for j in ints:
        ends = []
        for obj in ("min", "max"):
            s, v, _ = solve_lp(LP(lp.A, lp.b, [1 if k == j else 0 for k in range(lp.n)], 0, obj, lp.ineq, lp.free, lp.neg))
            if s != "optimal":
                return None, None
            ends.append(v)
        box = range(math.ceil(ends[0]), math.floor(ends[1]) + 1)
        total *= max(1, len(box))
        boxes.append(box)
        if total > limit:
            return None, None
    rest = [j for j in range(lp.n) if j not in ints]
    best = None
    for point in itertools.product(*boxes):
        fixed = dict(zip(ints, point))
        if rest:
            if total > 60:
                return None, None
            b = [q - sum((r[j] * v for j, v in fixed.items()), F(0)) for r, q in zip(lp.A, lp.b)]
            if any((j in lp.neg and v > 0) or (j not in lp.neg and j not in lp.free and v < 0) for j, v in fixed.items()):
                continue
            s, v, _ = solve_lp(LP([[r[j] for j in rest] for r in lp.A], b, [lp.c[j] for j in rest], lp.z, lp.obj, lp.ineq,
                                  [rest.index(j) for j in lp.free if j in rest], [rest.index(j) for j in lp.neg if j in rest]))
            if s != "optimal":
                continue
            v += sum((lp.c[j] * t for j, t in fixed.items()), F(0))
        else:
            if not lp.feasible([F(t) for t in point]):
                continue
            v = lp.value([F(t) for t in point])
        if best is None or (v > best if lp.obj == "max" else v < best):
            best = v
    return ("optimal", best) if best is not None else ("infeasible", None)


def run_bb(case, ctx):
    lp = model(case)
    A, _, _, _ = lp.sef()
    if not any(v for r in A for v in r):
        return
    status, value = integer_optimum(case)
    ctx.label(status or "not enumerable (skipped)", case["obj"], "mixed" if case["integral"] is not None else "pure")
    if status is None:
        return
    p = build_ip(case)
    before = snapshot(p)
    how = case["how"]
    count = STEPS.count
    quietly(lambda: judge_bb(case, ctx, lp, p, before, how, status, value))
    if not case.get("quiet") and STEPS.count - count < 150_000:  # small: also with the text of its steps
        p = build_ip(case)
        judge_bb(case, ctx, lp, p, snapshot(p), how, status, value)


def quietly(f):
    """Large searches spend nearly all of their time on the text of recorded steps; C12 and C13 check that text."""
    from pytimize.programs import LinearProgram

    saved = LinearProgram.__repr__
    LinearProgram.__repr__ = lambda self: "program"
    try:
        with np.printoptions(threshold=0, edgeitems=1, precision=2):
            return f()
    finally:
        LinearProgram.__repr__ = saved


def judge_bb(case, ctx, lp, p, before, how, status, value):
    x = p.branch_and_bound() if how == 0 else p.solve() if how == 1 else p.solve(show_steps=False)
    name = "branch_and_bound()" if how == 0 else "solve()"
    require(same_snapshot(before, snapshot(p)), f"{name} modified the program")
    ov = p.optimal_value()
    if status != "optimal":
        require(x is None, lambda: f"{name} returned {x} for a program whose integer problem is {status}")
        require(ov is None, lambda: f"optimal_value() = {ov} for a program whose integer problem is {status}")
        ctx.nontrivial(status == "infeasible" and solve_lp(lp)[0] == "optimal")
        return
    require(x is not None, lambda: f"{name} returned None, the integer optimum is {value}")
    x = floats(x, lp.n, name)
    bad = violated(lp, x)
    require(bad is None, lambda: f"{name} returned infeasible {x}: {bad}")
    for j in integral_of(case):
        require(abs(x[j] - round(x[j])) <= 1e-6, lambda: f"{name} returned x{j + 1} = {x[j]}, which must be integral")
    got = float(lp.value([F(v) for v in x]))
    require(close(got, value), lambda: f"{name} returned {x} of value {got}, the integer optimum is {float(value)}")
    require(ov is not None and close(ov, value), lambda: f"optimal_value() = {ov}, the integer optimum is {float(value)}")
    relaxed = solve_lp(lp)[1]
    if relaxed != value:
        ctx.label("relaxation gap")
    rp = p.relax()
    s = rp.solve()
    require(s is not None and close(float(lp.value([F(float(v)) for v in s])), relaxed), lambda: f"relax().solve() = {s}, the relaxation's optimum is {float(relaxed)}")
    g = [float(round(v)) if j in integral_of(case) else v for j, v in enumerate(x)]
    require(p.is_feasible(g), lambda: f"is_feasible rejects the program's own optimum {g}")
    require(p.is_solution_optimal(g), lambda: f"is_solution_optimal rejects the program's own optimum {g}")
    if relaxed != value and abs(float(relaxed - value)) > 1e-3:
        require(not p.is_solution_optimal([float(v) for v in solve_lp(lp)[2]]), "is_solution_optimal accepts the relaxation's fractional optimum")
    ctx.nontrivial(relaxed != value)
    if case.get("after"):  # the same program once more, cut off from the optimum it just gave
        kind, k = case["after"]
        j = k % lp.n
        up = k // 8 % 2
        row = [0.0] * lp.n
        if kind == "bound":
            row[j] = 1.0
            q = math.ceil(x[j] - 1e-6) + 1 if up else math.floor(x[j] + 1e-6) - 1
        else:
            row = [float(v) for v in case["c"]]
            q = float(value) - float(case["z"]) + (0.25 if up else -0.25)
        op = ">=" if up else "<="
        new = dict(case, A=[*case["A"], row], b=[*case["b"], q], ineq=[*case["ineq"], op], after=None, age=0)
        status, value = integer_optimum(new)
        if status is None:
            return
        p2 = p.add_constraint(row, op, q, in_place=True) if k % 3 else p.add_constraint(row, op, q)
        p2 = p if k % 3 else p2
        ctx.label("again: " + status)
        judge_bb(new, ctx, model(new), p2, snapshot(p2), how, status, value)


@st.composite
def bb_cases(draw):
    case = draw(ip_cases())
    case["after"] = [draw(st.sampled_from(["bound", "bound", "value"])), draw(st.integers(0, 47))] if draw(st.sampled_from([False, False, True])) else None
    case["how"] = draw(st.integers(0, 2))
    case["quiet"] = draw(st.integers(0, 9)) > 0 or "deep" in case
    return case


@st.composite
def bb_big(draw):
    case = draw(ip_cases(4, 3))
    case["how"] = draw(st.integers(0, 2))
    case["quiet"] = True
    return case


@st.composite
def block_cases(draw):
    """Many variables in independent blocks of one or two: the optimum is the sum of the blocks' optima."""
    obj = draw(st.sampled_from(["max", "min"]))
    blocks, doubles = [], draw(st.sampled_from([0, 0, 1, 2]))
    for k in range(draw(st.integers(6, 10))):
        w = 2 if k < doubles else 1
        neg = [j + 1 for j in range(w) if draw(st.integers(0, 4)) == 0]
        A, b, ineq = [], [], []
        for j in range(w):
            s = draw(st.sampled_from([1, 2, 0.5, 4])) * (-1 if j + 1 in neg else 1)
            A.append([s if t == j else 0 for t in range(w)])
            b.append(abs(s) * draw(st.sampled_from([1, 2, 1.5, 2.25, 0.75, 3.5])))
            ineq.append("<=")
        if w == 2:
            A.append([draw(st.integers(1, 5)) * (-1 if j + 1 in neg else 1) for j in range(w)])
            b.append(draw(st.sampled_from([3, 5, 6.5, 7])))
            ineq.append("<=")
        blocks.append({"A": A, "b": b, "c": draw(st.lists(st.integers(-9, 9), min_size=w, max_size=w)), "z": 0, "obj": obj, "ineq": ineq, "free": [], "neg": neg,
                       "integral": [j + 1 for j in range(w) if draw(st.integers(0, 4))]})
    blocks = draw(st.permutations(blocks))
    n = sum(len(g["c"]) for g in blocks)
    case = {"A": [], "b": [], "c": [], "z": draw(st.sampled_from([0, 4.5])), "obj": obj, "ineq": [], "free": [], "neg": [], "integral": [], "blocks": blocks}
    for g in blocks:
        at = len(case["c"])
        case["c"] += g["c"]
        case["neg"] += [j + at for j in g["neg"]]
        case["integral"] += [j + at for j in g["integral"]]
        for r, q, op in zip(g["A"], g["b"], g["ineq"]):
            i = draw(st.integers(0, len(case["b"])))
            case["A"].insert(i, [0] * at + list(r) + [0] * (n - at - len(r)))
            case["b"].insert(i, q)
            case["ineq"].insert(i, op)
    if len(case["integral"]) == n and draw(st.booleans()):
        case["integral"] = None
    case["how"] = draw(st.integers(0, 2))
    return case


def run_blocks(case, ctx):
    parts = [integer_optimum(g) for g in case["blocks"]]
    if any(s != "optimal" for s, _ in parts):
        return
    value = sum((v for _, v in parts), F(case["z"]))
    lp, p = model(case), build_ip(case)
    before = snapshot(p)

    def go():
        x = p.branch_and_bound() if case["how"] == 0 else p.solve()
        require(same_snapshot(before, snapshot(p)), "solving modified the program")
        require(x is not None, lambda: f"solve() returned None, the integer optimum is {float(value)}")
        x = floats(x, lp.n, "solve()")
        bad = violated(lp, x)
        require(bad is None, lambda: f"solve() returned infeasible {x}: {bad}")
        for j in integral_of(case):
            require(abs(x[j] - round(x[j])) <= 1e-6, lambda: f"solve() returned x{j + 1} = {x[j]}, which must be integral")
        require(close(float(lp.value([F(v) for v in x])), value), lambda: f"solve() returned {x} of value {float(lp.value([F(v) for v in x]))}, the integer optimum is {float(value)}")

    quietly(go)
    ctx.label(f"{lp.n} variables", "mixed" if case["integral"] is not None else "pure")
    ctx.nontrivial(solve_lp(lp)[1] != value)


C16 = Prop(
    "C16",
    "Generated pure and mixed integer programs with bounded regions (boxes as rows, knapsacks, or whatever is bounded by chance), both "
    "objectives, all sign kinds; the result is compared with exhaustive enumeration of the integer points (exact LP on the remaining "
    "variables for mixed programs). Non-trivial: the relaxation's optimum differs from the integer optimum, or only the integer problem "
    "is infeasible.",
    [Sub("bb", bb_cases, run_bb, 1100, steps=40_000_000), Sub("big", bb_big, run_bb, 80, steps=40_000_000),
     Sub("blocks", block_cases, run_blocks, 160, steps=40_000_000)],
    ["programs whose integer variables are unbounded, or with more than 2500 candidate points, are skipped"],
)


# ---------------------------------------------------------------------- C17 relaxations, copies, feasibility
@st.composite
def ip_state_cases(draw):
    case = draw(ip_cases(4, 4, True))
    n = len(case["c"])
    case["points"] = draw(st.lists(nums("half", n), min_size=1, max_size=4))
    if draw(st.booleans()):  # nearly integral is not integral
        pt = case["points"][0] = [float(round(v)) for v in case["points"][0]]
        pt[draw(st.integers(0, n - 1))] += draw(st.sampled_from([2.0 ** -9, -(2.0 ** -9), 2.0 ** -8, 0]))
    case["tight"] = draw(st.booleans())
    case["kind"] = draw(st.sampled_from(KINDS))
    case["flip"] = draw(st.integers(0, n))
    case["edit"] = draw(st.sampled_from(["none", "sef", "constraint", "relax_edit", "dual"]))
    return case


def run_ip_state(case, ctx):
    from pytimize.programs import IntegerProgram, LinearProgram

    ints = integral_of(case)
    if case["tight"]:
        x = [(-abs(v) if j + 1 in case["neg"] else v if j + 1 in case["free"] else abs(v)) for j, v in enumerate(case["points"][0])]
        case = dict(case, b=[sum(p * q for p, q in zip(r, x)) + (2 if op == "<=" else -2 if op == ">=" else 0)
                             for r, op in zip(case["A"], case["ineq"])], points=[x] + case["points"][1:])
    lp = model(case)
    given = None if case["integral"] is None else list(case["integral"])
    p = build(case, IntegerProgram, integral_variables=given)
    before = snapshot(p)
    q = p.copy()
    require(type(q) is IntegerProgram, f"copy() is a {type(q).__name__}")
    require(same_snapshot(before, snapshot(q)), "copy() differs from the program")
    require(bool(p == q) and bool(q == p), "copy() does not compare equal to the program")
    texts = lambda g: [str(t["text"]) for t in g.steps]
    p.is_feasible([float(v) for v in case["points"][0]])
    kept, twin = texts(p), p.copy()
    require(texts(twin) == kept, "a copy does not carry the recorded steps")
    twin.is_feasible([float(v) for v in case["points"][-1]])
    twin.clear_steps(in_place=True)
    require(texts(p) == kept and texts(twin) == [], "the steps of a copy are not its own")
    other = sorted(set(range(1, lp.n + 1)) - {j + 1 for j in ints}) if case["flip"] == 0 else sorted({j + 1 for j in ints} ^ {1 + case["flip"] % lp.n})
    if case["flip"] > 0 or len(ints) * 2 != lp.n or other != sorted(j + 1 for j in ints):
        v = build(case, IntegerProgram, integral_variables=other)
        require(not (p == v) and not (v == p), f"programs integral in {[j + 1 for j in ints]} and in {other} compare equal")
    same = build(case, IntegerProgram, integral_variables=[j + 1 for j in reversed(ints)])
    require(bool(p == same) and bool(same == p), "programs integral in the same variables compare unequal")
    # equality also covers everything a linear program compares
    alt, what = dict(case), ["A", "b", "c", "z", "obj", "ineq"][(case["flip"] + len(case["points"])) % 6]
    if what == "z":
        alt["z"] = case["z"] + 1
    elif what == "obj":
        alt["obj"] = "min" if case["obj"] == "max" else "max"
    else:
        alt[what] = [list(r) for r in case["A"]] if what == "A" else list(case[what])
        row = alt["A"][0] if what == "A" else alt[what]
        row[-1] = row[-1] + 1 if what != "ineq" else "=" if row[-1] != "=" else ">="
    v = build_ip(alt)
    require(not (p == v) and not (v == p), f"integer programs differing in {what} compare equal")
    v = build(case)
    require(not (p == v) and not (v == p), "an integer and a linear program compare equal")
    if given:
        given.clear()  # the program must not depend on the caller's list
    r = p.relax()
    require(type(r) is LinearProgram, f"relax() is a {type(r).__name__}")
    same_program(r, case, "relax()")
    e = case["edit"]
    if e == "sef":
        s = p.to_sef()
        require(not isinstance(s, IntegerProgram), "to_sef() promises integrality of its slack variables")
        require(s.is_sef, "to_sef() is not in equality form")
    elif e == "constraint":
        r.add_constraint([1.0] * lp.n, "<=", 1.0, in_place=True)
    elif e == "relax_edit":
        r.to_sef(in_place=True)
    elif e == "dual":
        r.dual()
    require(same_snapshot(before, snapshot(p)), f"{e} on the relaxation or conversion changed the integer program")
    for pt in case["points"]:
        x = [F(v) for v in pt]
        gap = lp.slack(x)
        if 0 < gap < F(1, 1000):
            continue
        feas = gap == 0
        whole = all(x[j].denominator == 1 for j in ints)
        got = {}
        for name, prog, want in (("program", p, feas and whole), ("copy", q, feas and whole)):
            got[name] = bool(prog.is_feasible(as_arg(pt, case["kind"])))
            require(got[name] == want, lambda: f"{name}.is_feasible({pt}) = {got[name]}; linear part {feas}, integrality {whole}")
        if feas and not whole:
            ctx.label("only integrality fails")
            raises((ValueError,), lambda: p.value_of(pt), f"value_of the fractional point {pt}")
        if e in ("none", "dual"):
            require(bool(r.is_feasible(pt)) == feas, f"relax().is_feasible({pt}) is not {feas}")
        ctx.nontrivial(feas)
    grown(p, case, ints, before)
    t, u = repr(p), repr(r) if e in ("none", "dual") else repr(p.relax())
    ctx.label("pure" if case["integral"] is None else "mixed")
    if ints:
        body, line = t.rstrip("\n").rsplit("\n", 1)
        sub = str.maketrans("₀₁₂₃₄₅₆₇₈₉", "0123456789")
        names = line[:-len(" ∈ Z")].translate(sub).split(", ") if line.endswith(" ∈ Z") else None
        require(names == ["x"] and len(ints) == lp.n or names is not None and sorted(names) == sorted(f"x{j + 1}" for j in ints),
                f"the text does not state integrality in {[j + 1 for j in ints]}: {t!r}")
        require(body.rstrip("\n") == u.rstrip("\n"), f"the text is not the relaxation's text plus one line: {t!r} / {u!r}")
    require(repr(q) == t, "the copy's text differs")


def grown(p, case, ints, before):
    """Rows and columns added later leave the integrality of the variables as it was stated."""
    n, m = len(case["c"]), len(case["b"])
    wide = p.add_variable(2.0, [0.0] * m, free=True)
    tall = p.add_constraint([0.0] * n, "<=", 1.0)
    require(same_snapshot(before, snapshot(p)), "add_variable or add_constraint without in_place changed the program")
    q = p.copy()
    require(q.add_variable(2.0, [0.0] * m, free=True, in_place=True) is q, "add_variable(in_place=True) returns another program")
    whole = case["integral"] is None  # then every variable is integral, the new one too
    for pt in case["points"]:
        x = [float(v) for v in pt]
        base = bool(p.is_feasible(x))
        require(bool(tall.is_feasible(x)) == base, lambda: f"with the empty row added, {x} is {'not ' if base else ''}feasible")
        for g, how in ((wide, "add_variable"), (q, "add_variable in place")):
            require(bool(g.is_feasible(x + [-3.0])) == base, lambda: f"{how}: {x + [-3.0]} is {'not ' if base else ''}feasible")
            require(bool(g.is_feasible(x + [0.5])) == (base and not whole), lambda: f"{how}: the integrality of the new variable is wrong, {x + [0.5]}")


C17 = Prop(
    "C17",
    "Generated pure and mixed integer programs with generated points (integral, fractional, feasible, infeasible): relax, copy, to_sef, "
    "is_feasible, value_of and text against the given data. Non-trivial: some point satisfies the linear constraints.",
    [Sub("state", ip_state_cases, run_ip_state, 2000)],
)

PROPS = [C16, C17]
