"""C01-C04: solving linear programs and their certificates."""
import random as pyrandom
from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st

from ..core import Prop, Sub, Violation, require
from ..exact import LP, dot, matvec, rank, solve_lp, solve_sef, solve_square, vec
from ..lpgen import (STYLES, build, close, floats, lp_cases, model, nums, row_tol, same_snapshot, snapshot, violated)


# ------------------------------------------------------------------------------- C01 solve
def run_solve(case, ctx):
    lp = model(case)
    status, value, _ = solve_lp(lp)
    ctx.label(status, "mode:" + case["mode"], case["obj"])
    A, b, c, _ = lp.sef()
    deficient = rank(A) < lp.m
    if deficient:
        ctx.label("row-dependent")
    if not any(v for r in A for v in r):
        ctx.label("all-zero matrix")
    ctx.nontrivial(status == "optimal" and any(v for v in case["c"]) and (lp.m > 1 or lp.n > 1))
    p = build(case)
    x = p.solve() if case.get("steps", True) else p.solve(show_steps=False)
    if status != "optimal":
        require(x is None, lambda: f"solve() returned {x} for an {status} program")
        require(p.optimal_value() is None, f"optimal_value() is not None for an {status} program")
        return
    require(x is not None, lambda: f"solve() returned None but the optimum is {value}")
    x = floats(x, lp.n, "solve()")
    bad = violated(lp, x)
    require(bad is None, lambda: f"solve() returned infeasible {x}: {bad}")
    got = float(lp.value([F(v) for v in x]))
    require(close(got, value), lambda: f"solve() returned {x} of value {got}, optimum is {float(value)}")
    ov = p.optimal_value()
    require(ov is not None and close(ov, value), lambda: f"optimal_value() = {ov}, optimum is {float(value)}")


@st.composite
def with_steps(draw, inner):
    case = draw(inner)
    case["steps"] = draw(st.booleans())
    return case


C01 = Prop(
    "C01",
    "Hypothesis-generated programs (1-9 rows, 1-10 variables; all objective/operator/sign mixes; random, feasible-by-"
    "construction, optimal-by-construction, degenerate, redundant-row and near-tie modes) solved by the library and by an exact "
    "rational simplex that certifies its own answers. Non-trivial: the exact optimum exists, the objective is not zero "
    "and the program is larger than 1x1. Distinct by the full case.",
    [
        Sub("general", lambda: with_steps(lp_cases(4, 5, bare=True)), run_solve, 3200),
        Sub("neartie", lambda: with_steps(lp_cases(3, 3, modes=["neartie"])), run_solve, 800),
        Sub("wide", lambda: with_steps(lp_cases(8, 9, min_m=4, min_n=4, styles=["unit", "tiny", "small", "pos", "half"],
                                               modes=["optimal", "degenerate", "feasible", "random"])), run_solve, 400),
    ],
    ["float64 arithmetic: agreement is required to 1e-6 relative",
     "coefficients are integers or dyadic fractions up to 60 in magnitude"],
)


# --------------------------------------------------------------- C02 / C03 simplex outcomes
def check_outcome(case, lp, result, ctx, what, rank_deficient=False):
    """Validates (solution, basis, certificate) against the exact classification of an SEF program."""
    require(isinstance(result, tuple) and len(result) == 3, f"{what}: expected a 3-tuple, got {result!r}")
    solution, basis, cert = result
    A, b, c = lp.A, lp.b, lp.c
    exact = solve_sef(A, b, c)
    ctx.label(exact[0])
    n, m = lp.n, lp.m
    if exact[0] == "optimal":
        require(solution is not None and basis is not None, f"{what}: no optimum reported, but one exists")
        x = floats(solution, n, what + " solution")
        bad = violated(lp, x)
        require(bad is None, lambda: f"{what}: solution {x} infeasible: {bad}")
        best = float(dot(c, exact[1]))
        got = float(dot(c, [F(v) for v in x]))
        require(close(got, best), lambda: f"{what}: value {got}, optimum {best}")
        bs = [int(v) for v in basis]
        require(all(1 <= v <= n for v in bs) and len(set(bs)) == len(bs), f"{what}: malformed basis {basis}")
        cols = [[A[i][j - 1] for i in range(m)] for j in bs]
        require(rank(cols) == len(bs) if bs else True, f"{what}: basis {basis} has dependent columns")
        require(len(bs) == (rank(A) if rank_deficient else m), f"{what}: basis {basis} has the wrong size")
        for j in range(n):
            if j + 1 not in bs:
                require(abs(x[j]) <= 1e-7, f"{what}: x{j + 1} = {x[j]} but {j + 1} is not in the basis {basis}")
        y = floats(cert, m, what + " certificate")
        fy = [F(v) for v in y]
        for j in range(n):
            col = [A[i][j] for i in range(m)]
            d = float(dot(fy, col) - c[j])
            require(d >= -row_tol(col, y, c[j]), lambda: f"{what}: certificate {y} not dual feasible at column {j + 1} by {d}")
        yb = float(dot(fy, b))
        require(close(yb, best), lambda: f"{what}: certificate value {yb} differs from the optimum {best}")
    elif exact[0] == "unbounded":
        require(solution is None and basis is None, f"{what}: {solution}, {basis} returned for an unbounded program")
        require(isinstance(cert, tuple) and len(cert) == 2, f"{what}: unbounded certificate is {cert!r}")
        x = floats(cert[0], n, what + " certificate point")
        d = floats(cert[1], n, what + " certificate ray")
        bad = violated(lp, x)
        require(bad is None, lambda: f"{what}: certificate point {x} infeasible: {bad}")
        ray = LP(lp.A, [0] * m, lp.c)
        bad = violated(ray, d)
        require(bad is None, lambda: f"{what}: certificate ray {d} is not in the cone: {bad}")
        gain = float(dot(c, [F(v) for v in d]))
        require(gain > 1e-7, lambda: f"{what}: certificate ray {d} does not improve ({gain})")
    else:
        require(solution is None and basis is None, f"{what}: {solution}, {basis} returned for an infeasible program")
        y = floats(cert, m, what + " certificate")
        fy = [F(v) for v in y]
        for j in range(n):
            col = [A[i][j] for i in range(m)]
            d = float(dot(fy, col))
            require(d >= -row_tol(col, y, 0), lambda: f"{what}: infeasibility certificate {y} fails at column {j + 1} by {d}")
        require(float(dot(fy, b)) < -1e-7, lambda: f"{what}: infeasibility certificate {y} has yb = {float(dot(fy, b))}")
    return exact


def run_two_phase(case, ctx):
    lp = model(case)
    if not any(v for r in case["A"] for v in r):
        ctx.label("all-zero matrix")
    deficient = rank(lp.A) < lp.m
    ctx.label("row-dependent" if deficient else "full-rank", "mode:" + case["mode"])
    if any(v < 0 for v in lp.b):
        ctx.label("negative b")
    p = build(case, as_list=case["aslist"])
    before = snapshot(p)
    result = p.two_phase_simplex() if case["steps"] else p.two_phase_simplex(show_steps=False)
    exact = check_outcome(case, lp, result, ctx, "two_phase_simplex", rank_deficient=deficient)
    require(same_snapshot(before, snapshot(p)), "two_phase_simplex modified the program")
    ctx.nontrivial(lp.m > 1)
    # the library's own verifiers accept what its own solver produced
    if exact[0] == "optimal":
        require(bool(p.verify_optimality(result[2])), "verify_optimality rejects the solver's certificate")
        require(bool(p.is_feasible(result[0])), "is_feasible rejects the solver's solution")
    elif exact[0] == "unbounded":
        require(bool(p.verify_unboundedness(*result[2])), "verify_unboundedness rejects the solver's certificate")
    else:
        require(bool(p.verify_infeasibility(result[2])), "verify_infeasibility rejects the solver's certificate")


@st.composite
def sef_cases(draw, *a, bare=True, **k):
    case = draw(lp_cases(*a, sef=True, bare=bare, **k))
    case["steps"] = draw(st.booleans())
    case["aslist"] = draw(st.booleans())
    return case


@st.composite
def dependent_cases(draw):
    """Many columns that depend on each other and a point that fixes few of them: after phase one a basis has to be found."""
    m = draw(st.integers(3, 9))
    n = draw(st.integers(m + 2, 2 * m + 8))
    rng = pyrandom.Random(draw(st.integers(0, 10 ** 6)))
    sign = -1 if rng.random() < 0.7 else 1
    unit = [[rng.choice([1, 1, 2]) * sign if i == j else 0 for i in range(m)] for j in range(m)]
    pool = unit[: rng.choice([2, 3, m])]
    kinds = rng.choice([["zero", "copy"], ["zero", "copy", "sum"], ["copy", "copy", "sum", "difference"]])
    cols = list(unit) if rng.random() < 0.85 else unit[1:]  # else rows that depend on each other
    while len(cols) < n:
        what = rng.choice(kinds)
        a, b = rng.choice(pool), rng.choice(pool)
        cols.append([0] * m if what == "zero" else [2 * v for v in a] if what == "copy" else [v + w for v, w in zip(a, b)] if what == "sum" else [v - w for v, w in zip(a, b)])
    if rng.random() < 0.3:
        rng.shuffle(cols)
    x = [rng.choice([1, 2]) if rng.random() < 0.1 else 0 for _ in cols]
    A = [[c[i] for c in cols] for i in range(m)]
    y = [rng.choice([0, 1, -1, 2]) for _ in range(m)]
    c = [sum(v * w for v, w in zip(y, col)) - rng.choice([0, 0, 1, 3]) for col in cols]
    if rng.random() < 0.2:
        c[rng.randrange(n)] += rng.choice([1, 4])
    return {"mode": "dependent", "A": A, "b": [sum(v * w for v, w in zip(r, x)) for r in A], "c": c, "z": draw(st.sampled_from([0, 3])), "obj": "max", "ineq": ["="] * m,
            "free": [], "neg": [], "steps": draw(st.booleans()), "aslist": draw(st.booleans())}


C02 = Prop(
    "C02",
    "Generated equality-form programs (all modes of C01); the exact solver classifies them and the returned solution, basis and "
    "certificate are checked against the definitions in exact arithmetic; the library's verifiers must accept them. "
    "Non-trivial: at least two rows.",
    [
        Sub("two_phase", lambda: sef_cases(4, 6), run_two_phase, 3200),
        Sub("wide", lambda: sef_cases(7, 10, min_m=4, min_n=5, styles=["unit", "tiny", "small", "pos"],
                                      modes=["optimal", "degenerate", "feasible", "random"]), run_two_phase, 300),
        Sub("dependent", dependent_cases, run_two_phase, 250),
    ],
    ["agreement to 1e-6 relative; coefficients are integers or dyadic fractions up to 60"],
)


# --------------------------------------------------------------------- C03 simplex histories
@st.composite
def basis_cases(draw, max_m=4, max_extra=4):
    """An SEF program with a feasible starting basis known by construction: A = B [I | N] up to column order."""
    large = draw(st.integers(0, 11)) == 7  # two-digit columns, longer histories
    m = draw(st.integers(max_m + 1, max_m + 4) if large else st.integers(1, max_m))
    k = draw(st.integers(max_extra, max_extra + 5) if large else st.integers(0, max_extra))
    n = m + k
    style = draw(st.sampled_from(["unit", "tiny", "small", "half"][: 3 if large else 4]))
    deg = draw(st.booleans())
    xb = draw(st.lists(st.sampled_from([0, 0, 1, 1] if deg else [0, 1, 2, 3, 5, 0.5, 2.5]), min_size=m, max_size=m))
    identity = draw(st.booleans()) or large
    if identity:
        B = [[1 if i == j else 0 for j in range(m)] for i in range(m)]
    else:
        # unimodular-ish: lower times upper triangular with small nonzero diagonal
        L = [[draw(st.integers(-1, 1)) if j < i else (1 if i == j else 0) for j in range(m)] for i in range(m)]
        U = [[draw(st.integers(-1, 1)) if j > i else (draw(st.sampled_from([1, -1, 2])) if i == j else 0) for j in range(m)] for i in range(m)]
        B = [[sum(L[i][t] * U[t][j] for t in range(m)) for j in range(m)] for i in range(m)]
    N = [draw(nums(style, k)) for _ in range(m)]
    order = draw(st.permutations(list(range(n))))
    cols = [[B[i][j] for i in range(m)] for j in range(m)] + [[N[i][j] for i in range(m)] for j in range(k)]
    A = [[cols[order[j]][i] for j in range(n)] for i in range(m)]
    basis = [j + 1 for j in range(n) if order[j] < m]
    b = [sum(B[i][t] * xb[t] for t in range(m)) for i in range(m)]
    c = draw(nums(style, n))
    if draw(st.integers(0, 5)) == 0:  # a small reduced cost still counts
        c[draw(st.integers(0, n - 1))] += draw(st.sampled_from([2.0 ** -9, -(2.0 ** -9), 2.0 ** -11]))
    if draw(st.integers(0, 5)) == 0 and k:  # and so does a small entry of a column
        A[draw(st.integers(0, m - 1))][draw(st.sampled_from([j for j in range(n) if order[j] >= m]))] = draw(st.sampled_from([2.0 ** -7, -(2.0 ** -7)]))
    if draw(st.integers(0, 5)) == 0:  # the same program in other units
        unit = draw(st.sampled_from([2.0 ** -8, 2.0 ** -10, 2.0 ** -11, 2.0 ** 9]))
        cs = draw(st.lists(st.sampled_from([1, unit]), min_size=n, max_size=n))
        A = [[v * s for v, s in zip(r, cs)] for r in A]
        if draw(st.booleans()):
            c = [v * s for v, s in zip(c, cs)]
    if draw(st.booleans()):
        basis = basis[::-1]
    return {"mode": "basis", "A": A, "b": b, "c": c, "z": draw(st.sampled_from([0, 5, -3])), "obj": "max",
            "ineq": ["="] * m, "free": [], "neg": [], "basis": basis, "steps": draw(st.booleans())}


def basic_point(lp, basis0):
    B = [[r[j] for j in basis0] for r in lp.A]
    s = solve_square(B, lp.b)
    x = [F(0)] * lp.n
    for j, v in zip(basis0, s):
        x[j] = v
    return x


def run_simplex(case, ctx):
    lp = model(case)
    p = build(case)
    before = snapshot(p)
    given = list(case["basis"])
    result = p.simplex(given) if case["steps"] else p.simplex(given, show_steps=False)
    require(given == case["basis"], "simplex modified the basis list it was given")
    check_outcome(case, lp, result, ctx, "simplex")
    require(same_snapshot(before, snapshot(p)), "simplex modified the program")
    ctx.nontrivial(lp.m > 1 and lp.n > lp.m)


def run_iterations(case, ctx):
    """Drives simplex_iteration to termination and validates every step of the history."""
    lp = model(case)
    p = build(case)
    before = snapshot(p)
    basis = sorted(case["basis"])
    seen = set()
    steps = 0
    current = p
    while True:
        key = tuple(basis)
        require(key not in seen, f"simplex_iteration revisited basis {basis}: it cycles")
        seen.add(key)
        b0 = [j - 1 for j in basis]
        x = basic_point(lp, b0)
        # exact reduced costs and directions at this basis
        B = [[r[j] for j in b0] for r in lp.A]
        y = solve_square([list(t) for t in zip(*B)], [lp.c[j] for j in b0])
        red = [lp.c[j] - dot(y, [lp.A[i][j] for i in range(lp.m)]) for j in range(lp.n)]
        enter = next((j for j in range(lp.n) if j not in b0 and red[j] > 0), None)
        out = current.simplex_iteration(list(basis), case["steps"])
        require(isinstance(out, tuple) and len(out) == 3, "simplex_iteration: expected a 3-tuple")
        sol, nb, q = out
        steps += 1
        # the updated program is the same program in canonical form for the basis it was given
        qa = np.asarray(q.A, dtype=float)
        require(qa.shape == (lp.m, lp.n), "simplex_iteration changed the shape of the program")
        for i in range(lp.m):
            for k, j in enumerate(b0):
                require(close(qa[i][j], 1 if i == k else 0), f"iteration result is not canonical for {basis}")
        for j in range(lp.n):
            require(close(q.c[j], red[j]), f"reduced cost of column {j + 1} is {q.c[j]}, exact {float(red[j])}")
        require(close(q.z, dot(lp.c, x) + lp.z), f"objective constant {q.z}, exact {float(dot(lp.c, x) + lp.z)}")
        for k, j in enumerate(b0):
            require(close(q.b[k], x[j]), f"right-hand side {list(q.b)} differs from the basic solution")
        if enter is None:
            require(sol is not None, "simplex_iteration continues although no reduced cost is positive")
            sx = floats(sol, lp.n, "simplex_iteration solution")
            require(all(close(s, t) for s, t in zip(sx, x)), f"solution {sx}, exact basic solution {[float(v) for v in x]}")
            require(sorted(int(v) for v in nb) == sorted(basis), f"optimal basis {nb} differs from {basis}")
            ctx.label("optimal")
            break
        col = [lp.A[i][enter] for i in range(lp.m)]
        d = solve_square(B, col)
        require(sol is None, f"simplex_iteration reports optimal {sol} although column {enter + 1} improves")
        if all(v <= 0 for v in d):
            require(nb is None, f"column {enter + 1} is unbounded but the iteration continues with {nb}")
            ctx.label("unbounded")
            break
        require(nb is not None, "simplex_iteration reports unbounded, but the entering column has a positive entry")
        ratio = min(x[j] / v for j, v in zip(b0, d) if v > 0)
        leave = min(j for j, v in zip(b0, d) if v > 0 and x[j] / v == ratio)
        if sum(1 for j, v in zip(b0, d) if v > 0 and x[j] / v == ratio) > 1:
            ctx.label("ratio tie")
        if ratio == 0:
            ctx.label("degenerate pivot")
        expect = sorted([j + 1 for j in b0 if j != leave] + [enter + 1])
        require(sorted(int(v) for v in nb) == expect, f"next basis {nb}, Bland's rule gives {expect} from {basis}")
        if case["chain"]:
            current = q
        basis = expect
    require(same_snapshot(before, snapshot(p)), "simplex_iteration modified the program it was called on")
    if steps > 1:
        ctx.label("multi-step")
    ctx.nontrivial(steps > 1)


@st.composite
def chained(draw, inner):
    case = draw(inner)
    case["chain"] = draw(st.booleans())
    return case


BEALE = None


@st.composite
def cycling(draw):
    """Degenerate programs around classic cycling examples (b = 0 rows), permuted and rescaled."""
    base = draw(st.sampled_from([0, 1, 2]))
    if base == 0:  # Beale
        rows = [[0.25, -60, -0.04, 9], [0.5, -90, -0.02, 3], [0, 0, 1, 0]]
        rows = [[0.25, -8, -1, 9], [0.5, -12, -0.5, 3], [0, 0, 1, 0]]
        b = [0, 0, 1]
        c = [0.75, -20, 0.5, -6]
    elif base == 1:  # Chvatal
        rows = [[0.5, -5.5, -2.5, 9], [0.5, -1.5, -0.5, 1], [1, 0, 0, 0]]
        b = [0, 0, 1]
        c = [10, -57, -9, -24]
    else:  # Marshall-Suurballe
        rows = [[0.5, -5.5, -2.5, 9], [0.5, -1.5, -0.5, 1]]
        b = [0, 0]
        c = [10, -57, -9, -24]
    m, k = len(rows), 4
    scale = draw(st.lists(st.sampled_from([1, 1, 2, 0.5, 3]), min_size=m, max_size=m))
    rows = [[v * s for v in r] for r, s in zip(rows, scale)]
    b = [v * s for v, s in zip(b, scale)]
    for j in range(k):
        if draw(st.booleans()):
            c[j] = c[j] + draw(st.integers(-3, 3))
    n = k + m
    order = draw(st.permutations(list(range(n))))
    full = [r + [1 if i == t else 0 for t in range(m)] for i, r in enumerate(rows)]
    c = c + [0] * m
    A = [[r[o] for o in order] for r in full]
    c = [c[o] for o in order]
    basis = [j + 1 for j in range(n) if order[j] >= k]
    return {"mode": "cycling", "A": A, "b": b, "c": c, "z": 0, "obj": "max", "ineq": ["="] * m, "free": [], "neg": [],
            "basis": basis, "steps": False}


C03 = Prop(
    "C03",
    "Equality-form programs built around a known feasible basis (identity or a random unimodular-like block, columns permuted; "
    "half degenerate; plus permuted/rescaled classic cycling examples). Each pivot of the step-by-step history is compared with "
    "the exact tableau and Bland's choice; the one-call form is checked by certificates. Non-trivial: more than one pivot "
    "step (histories), or more columns than rows and at least 2 rows (one-call).",
    [
        Sub("simplex", lambda: basis_cases(), run_simplex, 2000),
        Sub("history", lambda: chained(basis_cases()), run_iterations, 2400),
        Sub("cycling", lambda: chained(cycling()), run_iterations, 400),
        Sub("cycling_simplex", lambda: cycling(), run_simplex, 240),
    ],
    ["agreement to 1e-6 relative; the starting basis is feasible, as the documentation of the method requires"],
)

PROPS = [C01, C02, C03]
