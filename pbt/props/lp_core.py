"""C04-C07, C36: certificates, equality form, bases and canonical forms, duality, auxiliary programs."""
from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st

from ..core import Prop, Sub, Violation, require
from ..exact import LP, det, dot, matvec, rank, solve_lp, solve_sef, solve_square, transpose
from ..lpgen import (LAYOUTS, STYLES, as_dtype, build, close, floats, laid_out, lp_cases, model, nums, same_snapshot, snapshot, violated)

EXACT_STYLES = ["unit", "tiny", "small", "pos", "half", "med", "big"]


def raises(kinds, f, what):
    """f must raise one of kinds (a tuple of exception types)."""
    try:
        r = f()
    except kinds:
        return
    raise Violation(f"{what}: expected {'/'.join(k.__name__ for k in kinds)}, got the result {r!r}")


def as_arg(v, kind):
    """The same vector as a list of floats, a list of ints when possible, or an array."""
    v = [float(x) for x in v]
    if kind == "array":
        return np.array(v)
    if kind == "ints" and all(x == int(x) for x in v):
        return [int(x) for x in v]
    if kind == "other":  # another number type that has the same numbers, or another layout
        a = laid_out(v, LAYOUTS[len(v) % 4])
        return as_dtype(a, ["f4", "i8", "f2", "g", "i2"][int(abs(sum(v)) * 2 + len(v)) % 5])
    return v


KINDS = ["array", "list", "ints", "other"]


# ----------------------------------------------------------------------------- C04 verifiers
@st.composite
def verifier_cases(draw):
    m = draw(st.integers(1, 5))
    n = draw(st.integers(1, 6))
    style = draw(st.sampled_from(EXACT_STYLES))
    if draw(st.integers(0, 15)) == 9:
        m, n, style = draw(st.integers(5, 10)), draw(st.integers(6, 13)), draw(st.sampled_from(["unit", "tiny"]))
    A = [draw(nums(style, n)) for _ in range(m)]
    b = draw(nums(style, m))
    c = draw(nums(style, n))
    what = draw(st.sampled_from(["infeasible", "unbounded", "optimal"]))
    y = draw(st.lists(st.sampled_from([0, 0, 1, 2, -1, -4, 0.5, 4]), min_size=m, max_size=m))
    x = draw(st.lists(st.sampled_from([0, 0, 1, 2, 0.5, 3]), min_size=n, max_size=n))
    d = draw(st.lists(st.sampled_from([0, 0, 1, 1, 2, 0.5]), min_size=n, max_size=n))
    near = draw(st.sampled_from([True, True, True, True, False]))
    tiny = 2.0 ** draw(st.sampled_from([-10, -10, -20]))
    if near:
        # near-miss: make the certificate valid by construction, then possibly break one ingredient
        if what == "infeasible":
            if not any(y):
                y[0] = 1
            i = next(k for k in range(m) if y[k] != 0)
            for j in range(n):  # shift row i so that yA >= 0 with some zeros
                v = sum(y[k] * A[k][j] for k in range(m))
                want = draw(st.sampled_from([0, 0, 1, 3]))
                A[i][j] += (want - v) / y[i]
            v = sum(y[k] * b[k] for k in range(m))
            b[i] += (draw(st.sampled_from([-1, -1, -2, 0, 1, -tiny, tiny])) - v) / y[i]
            if draw(st.integers(0, 2)) == 0:
                j = draw(st.integers(0, n - 1))
                A[i][j] -= draw(st.sampled_from([1, 2, 0.25, tiny])) / y[i]
        elif what == "unbounded":
            if not any(d):
                d[0] = 1
            k = next(j for j in range(n) if d[j] != 0)
            for i in range(m):
                v = sum(A[i][j] * d[j] for j in range(n))
                A[i][k] -= v / d[k]
            b = [sum(A[i][j] * x[j] for j in range(n)) for i in range(m)]
            v = sum(c[j] * d[j] for j in range(n))
            c[k] += (draw(st.sampled_from([1, 1, 2, 0, -1, tiny, -tiny])) - v) / d[k]
            fault = draw(st.sampled_from(["none", "none", "ray", "x", "xneg", "dneg", "b", "row"]))
            j = draw(st.integers(0, n - 1))
            by = draw(st.sampled_from([1, 1, 2.0 ** -5]))
            if fault == "ray":
                d[j] += by
            elif fault == "x":
                x[j] += by
            elif fault == "xneg":
                x[j] = -x[j] - 1 if by == 1 else -tiny
                b = [sum(A[i][t] * x[t] for t in range(n)) for i in range(m)]
            elif fault == "dneg":
                d = [-v for v in d]
            elif fault == "row":
                i = draw(st.integers(0, m - 1) if draw(st.booleans()) else st.just(m - 1))
                A[i][k] += by
                b[i] = sum(A[i][t] * x[t] for t in range(n))
            elif fault == "b":
                b[draw(st.integers(0, m - 1))] += 1
        else:
            red = draw(st.lists(st.sampled_from([0, 0, 1, 2, 5]), min_size=n, max_size=n))
            c = [sum(y[i] * A[i][j] for i in range(m)) - red[j] for j in range(n)]
            x = [0 if r else v for r, v in zip(red, x)]
            b = [sum(A[i][j] * x[j] for j in range(n)) for i in range(m)]
            if draw(st.integers(0, 2)) == 0:
                j = draw(st.integers(0, n - 1))
                c[j] += red[j] + draw(st.sampled_from([1, 0.5, 3, tiny]))
    if draw(st.integers(0, 39)) == 11:  # no constraints
        m, A, b, y = 0, [], [], []
    return {"A": A, "b": b, "c": c, "z": draw(st.sampled_from([0, 4, -7.5])), "obj": "max", "ineq": ["="] * m, "free": [],
            "neg": [], "mode": "cert", "what": what, "y": y, "x": x, "d": d, "near": near, "kind": draw(st.sampled_from(KINDS)),
            "steps": draw(st.booleans())}


def run_verifier(case, ctx):
    lp = model(case)
    p = build(case)
    before = snapshot(p)
    y, x, d = ([F(v) for v in case[k]] for k in "yxd")
    kind, steps = case["kind"], case["steps"]
    kw = {} if steps else {"show_steps": False}
    yA = [dot(y, [r[j] for r in lp.A]) for j in range(lp.n)]
    if case["what"] == "infeasible":
        want = all(v >= 0 for v in yA) and dot(y, lp.b) < 0
        arg = as_arg(y, kind)
        got = p.verify_infeasibility(arg, **kw)
        require(bool(got) == want, lambda: f"verify_infeasibility({arg}) = {got}; yA = {[float(v) for v in yA]}, yb = {float(dot(y, lp.b))}")
        ctx.label("infeasible:" + ("valid" if want else "invalid"))
    elif case["what"] == "unbounded":
        ray = all(v >= 0 for v in d) and all(v == 0 for v in matvec(lp.A, d)) and dot(lp.c, d) > 0
        want = ray and lp.feasible(x)
        got = p.verify_unboundedness(as_arg(x, kind), as_arg(d, kind), **kw)
        require(bool(got) == want, lambda: f"verify_unboundedness({case['x']}, {case['d']}) = {got}, by definition {want}")
        ctx.label("unbounded:" + ("valid" if want else "invalid"))
    else:
        dual_feasible = all(v >= c for v, c in zip(yA, lp.c))
        tight = dual_feasible and lp.feasible(x) and dot(y, lp.b) == dot(lp.c, x)
        got = p.verify_optimality(as_arg(y, kind), **kw)
        if tight:
            require(bool(got), f"verify_optimality({case['y']}) rejects a certificate that proves {case['x']} optimal")
            ctx.label("optimal:proves")
        if not dual_feasible:
            require(not bool(got), lambda: f"verify_optimality({case['y']}) accepts y with yA = {[float(v) for v in yA]} not >= c")
            ctx.label("optimal:invalid")
        want = tight
    for v in (y + [F(0)], y[:-1]) if y else (y + [F(1)],):
        raises((ValueError,), lambda: p.verify_infeasibility(as_arg(v, kind), **kw), f"verify_infeasibility of {len(v)} entries for {lp.m} rows")
        raises((ValueError,), lambda: p.verify_optimality(as_arg(v, kind), **kw), f"verify_optimality of {len(v)} entries for {lp.m} rows")
    for v in (d + [F(0)], d[:-1]) if len(d) > 1 else (d + [F(1)],):
        raises((ValueError,), lambda: p.verify_unboundedness(as_arg(v, kind), as_arg(d, kind), **kw), f"verify_unboundedness of a point of {len(v)} entries for {lp.n} variables")
        if lp.feasible(x):
            raises((ValueError,), lambda: p.verify_unboundedness(as_arg(x, kind), as_arg(v, kind), **kw), f"verify_unboundedness of a direction of {len(v)} entries for {lp.n} variables")
    require(same_snapshot(before, snapshot(p)), "a verifier modified the program")
    ctx.nontrivial(case["near"] or want)


C04 = Prop(
    "C04",
    "Programs in equality form with certificates that are valid by construction, broken in exactly one ingredient, or random; the "
    "verdict is compared with the definition in exact arithmetic. Non-trivial: valid or near-miss certificate.",
    [Sub("verify", verifier_cases, run_verifier, 6000)],
    ["all margins are exactly zero or at least 1/1024, so the library's rounding tolerance never decides",
     "verify_optimality gets no primal point: claimed only that it accepts dual solutions matched by a feasible point of equal value and rejects dual infeasible ones"],
)


# ------------------------------------------------------------------------------ C05 to_sef
def mat_eq(a, exact):
    a = np.asarray(a, dtype=float)
    if not len(exact):
        return a.ndim == 2 and a.shape[0] == 0
    e = np.array([[float(v) for v in r] for r in exact], dtype=float).reshape(len(exact), -1)
    return a.shape == e.shape and bool(np.all(np.abs(a - e) <= 1e-9 * (1 + np.abs(e))))


def vec_eq(a, exact):
    a = np.asarray(a, dtype=float)
    e = np.array([float(v) for v in exact], dtype=float)
    return a.shape == e.shape and bool(np.all(np.abs(a - e) <= 1e-9 * (1 + np.abs(e))))


def run_sef(case, ctx):
    lp = model(case)
    p = build(case, as_list=case["steps"])
    before = snapshot(p)
    kw = {} if case["steps"] else {"show_steps": False}
    q = p.to_sef(in_place=case["inplace"], **kw)
    if case["inplace"]:
        require(q is p, "to_sef(in_place=True) must return the program itself")
    else:
        require(q is not p, "to_sef() must return a new program")
        require(same_snapshot(before, snapshot(p)), "to_sef() modified the original program")
    A, b, c, back = lp.sef()
    require(mat_eq(q.A, A), lambda: f"to_sef: A = {np.asarray(q.A).tolist()}, expected {[[float(v) for v in r] for r in A]}")
    require(vec_eq(q.b, b), lambda: f"to_sef: b = {list(q.b)}")
    require(vec_eq(q.c, c), lambda: f"to_sef: c = {list(q.c)}, expected {[float(v) for v in c]}")
    require(q.objective == "max" and q.is_sef, "to_sef: not a maximization in standard equality form")
    require(list(q.inequalities) == ["="] * lp.m, f"to_sef: inequalities {q.inequalities}")
    require(not q.free_variables and not q.negative_variables, "to_sef: sign exceptions remain")
    require(list(q.positive_variables) == list(range(1, len(c) + 1)), "to_sef: positive_variables")
    require(close(q.z, lp.z), f"to_sef: constant {q.z}, was {float(lp.z)}")
    again = q.to_sef()
    require(same_snapshot(snapshot(q), snapshot(again)), "to_sef is not idempotent")
    # the conversion preserves the optimum (checked through the library itself when it is small)
    if lp.m <= 3 and lp.n <= 3 and any(v for r in A for v in r):
        status, value, _ = solve_lp(lp)
        ctx.label(status)
        sol = q.two_phase_simplex(show_steps=False)[0]
        require((sol is not None) == (status == "optimal"), f"to_sef: solvability changed, original is {status}")
        if sol is not None:
            x = back([F(float(v)) for v in sol])
            require(violated(lp, [float(v) for v in x]) is None, "to_sef: optimal point maps to an infeasible one")
            require(close(lp.value(x), value), f"to_sef: optimal point maps to value {float(lp.value(x))}, optimum {float(value)}")
    ctx.nontrivial(lp.obj == "min" or bool(lp.free) or bool(lp.neg) or set(lp.ineq) != {"="})
    if lp.free and lp.neg:
        ctx.label("free and negative")
    if len(lp.free) > 1:
        ctx.label("several free")


@st.composite
def flagged(draw, inner, **flags):
    case = draw(inner)
    for k, v in flags.items():
        case[k] = draw(v)
    return case


C05 = Prop(
    "C05",
    "Generated programs in every mix of objective, operators and variable signs; the converted program is compared entry by entry "
    "with the documented layout and, on small programs, its optimum is mapped back. Non-trivial: something has to be converted.",
    [Sub("layout", lambda: flagged(lp_cases(5, 6, bare=True), steps=st.booleans(), inplace=st.booleans()), run_sef, 3000)],
    ["the README's layout and its treatment of the constant (carried over unchanged) are the specification"],
)


# ---------------------------------------------------------------------- C06 bases
@st.composite
def basis_query(draw):
    large = draw(st.integers(0, 15)) == 9  # two-digit columns
    m = draw(st.integers(5, 7) if large else st.integers(1, 4))
    n = draw(st.integers(m + 3, m + 7) if large else st.integers(m, m + 4))
    style = draw(st.sampled_from(["unit", "tiny", "small"] if large else ["unit", "tiny", "small", "half", "med", "big"]))
    A = [draw(nums(style, n)) for _ in range(m)]
    shape = draw(st.sampled_from(["plain", "plain", "identity", "identity", "dependent", "combined"]))
    basis = draw(st.permutations(list(range(1, n + 1))))[:m]
    if shape == "identity":  # columns of the basis are unit vectors (canonical up to c, and up to a fault)
        for k, j in enumerate(basis):
            for i in range(m):
                A[i][j - 1] = 1.0 if i == k else 0.0
    elif shape == "dependent" and m > 1:
        j1, j2 = basis[0] - 1, basis[1] - 1
        f = draw(st.sampled_from([1, -1, 2, 0]))
        for i in range(m):
            A[i][j2] = f * A[i][j1]
    elif shape == "combined" and m > 1:  # one column depends on all the others
        f = draw(st.lists(st.sampled_from([1, -1, 2, -3, 0, 7]), min_size=m - 1, max_size=m - 1))
        for i in range(m):
            A[i][basis[-1] - 1] = sum(k * A[i][j - 1] for k, j in zip(f, basis))
    size = draw(st.sampled_from([1] * 6 + [2.0 ** -12, 2.0 ** -6, 64])) if shape != "identity" else 1
    A = [[v * size for v in r] for r in A]
    c = draw(nums(style, n))
    if shape == "identity" and draw(st.booleans()):
        for j in basis:
            c[j - 1] = 0
        if draw(st.integers(0, 3)) == 0:
            j = draw(st.sampled_from(basis))
            c[j - 1] = draw(st.sampled_from([1, -2, 0.5, 2.0 ** -12]))
    if shape == "identity" and draw(st.integers(0, 3)) == 0:
        A[draw(st.integers(0, m - 1))][draw(st.sampled_from(basis)) - 1] += draw(st.sampled_from([1, -1, 0.5, 2.0 ** -10, -(2.0 ** -10)]))
    xb = draw(st.lists(st.sampled_from([0, 0, 1, 2, 3, 0.5, 7, -1, -2, -(2.0 ** -9), 2.0 ** -9]), min_size=m, max_size=m))
    if draw(st.booleans()):
        xb = [abs(v) for v in xb]
    b = [sum(A[i][j - 1] * v for j, v in zip(basis, xb)) for i in range(m)]
    bad = draw(st.sampled_from(["ok"] * 12 + ["high", "low", "short", "long", "dup"]))
    q = list(basis)
    if bad == "high":
        q[draw(st.integers(0, m - 1))] = n + draw(st.integers(1, 2))
    elif bad == "low":
        q[draw(st.integers(0, m - 1))] = draw(st.integers(-1, 0))
    elif bad == "short":
        q = q[:-1]
    elif bad == "long":
        q = q + [draw(st.integers(1, n))]
    elif bad == "dup" and m > 1:
        q[0] = q[1]
    order = draw(st.sampled_from(["given", "sorted", "reversed"]))
    q = sorted(q) if order == "sorted" else sorted(q)[::-1] if order == "reversed" else q
    x = [0.0] * n
    for j, v in zip(basis, xb):
        x[j - 1] = float(v)
    fault = draw(st.sampled_from(["none", "none", "none", "basic", "nonbasic"]))
    if fault == "basic":
        x[draw(st.sampled_from(basis)) - 1] += draw(st.sampled_from([1, -1, 2, 2.0 ** -5]))
    elif fault == "nonbasic":
        x[draw(st.integers(0, n - 1))] += draw(st.sampled_from([1, -1, 2, 2.0 ** -10, -(2.0 ** -10)]))
    return {"mode": "basis", "A": A, "b": b, "c": c, "z": draw(st.sampled_from([0, 2, -3.5])), "obj": "max", "ineq": ["="] * m,
            "free": [], "neg": [], "basis": q, "x": x, "kind": draw(st.sampled_from(KINDS)), "np": draw(st.booleans()),
            "inplace": draw(st.booleans()), "steps": draw(st.booleans()), "bare": draw(st.sampled_from([0] * 60 + [1, 1, 2]))}


def run_basis(case, ctx):
    if case.get("bare"):  # no constraints: the empty basis, whose basic solution is the origin
        case = dict(case, A=[], b=[], ineq=[], basis=[])
        case["x"] = [v if case["bare"] > 1 else 0.0 for v in case["x"]]
    lp = model(case)
    p = build(case)
    before = snapshot(p)
    m, n = lp.m, lp.n
    B = case["basis"]

    def basis():
        return np.array(B) if case["np"] and len(B) else list(B)

    shaped = len(B) == m and all(1 <= j <= n for j in B)
    valid = shaped and (m == 0 or det([[lp.A[i][j - 1] for j in B] for i in range(m)]) != 0)
    ctx.label("valid basis" if valid else "invalid basis")
    if B != sorted(B):
        ctx.label("unsorted")
    if B:
        arg = basis()
        require(bool(p.is_basis(arg)) == valid, lambda: f"is_basis({B}) = {p.is_basis(list(B))}, expected {valid}")
        require([int(v) for v in arg] == B, "is_basis changed its argument")
    x = [F(v) for v in case["x"]]
    if not valid:
        if B:
            raises((ArithmeticError, ValueError, IndexError), lambda: p.compute_basic_solution(basis()), "compute_basic_solution of a non-basis")
            raises((ArithmeticError, ValueError, IndexError), lambda: p.to_canonical_form(basis()), "to_canonical_form of a non-basis")
            raises((ArithmeticError, ValueError, IndexError), lambda: p.is_basic_solution(as_arg(x, "list"), basis()), "is_basic_solution of a non-basis")
            require(not p.is_basis_feasible(basis()), "is_basis_feasible accepts a non-basis")
        require(same_snapshot(before, snapshot(p)), "a rejected basis query modified the program")
        return
    ctx.nontrivial(m > 1)
    sol = solve_square([[lp.A[i][j - 1] for j in B] for i in range(m)], lp.b)
    point = [F(0)] * n
    for j, v in zip(B, sol):
        point[j - 1] = v
    arg = basis()
    got = floats(p.compute_basic_solution(arg), n, "compute_basic_solution")
    require([int(v) for v in arg] == B, "compute_basic_solution changed its argument")
    require(all(close(g, v) for g, v in zip(got, point)), lambda: f"compute_basic_solution({B}) = {got}, exact {[float(v) for v in point]}")
    feasible = all(v >= 0 for v in sol)
    if not any(v < 0 and v > -F(1, 10 ** 6) for v in sol):
        require(bool(p.is_basis_feasible(basis())) == feasible, f"is_basis_feasible({B}) wrong, basic solution {[float(v) for v in point]}")
    ctx.label("feasible basis" if feasible else "infeasible basis")
    basic = x == point
    argx = as_arg(x, case["kind"])
    kw = {} if case["steps"] else {"show_steps": False}
    g = p.is_basic_solution(argx, basis(), **kw)
    require(bool(g) == basic, lambda: f"is_basic_solution({case['x']}, {B}) = {g}, expected {basic}")
    g = p.is_feasible_basic_solution(as_arg(x, case["kind"]), basis())
    want = basic and all(v >= 0 for v in x)
    require(bool(g) == want, lambda: f"is_feasible_basic_solution({case['x']}, {B}) = {g}, expected {want}")
    ctx.label("basic" if basic else "not basic")
    canon = all(lp.A[i][j - 1] == (1 if i == k else 0) for k, j in enumerate(B) for i in range(m)) and all(lp.c[j - 1] == 0 for j in B)
    g = p.is_canonical_form_for(basis())
    require(bool(g) == canon, lambda: f"is_canonical_form_for({B}) = {g}, expected {canon}")
    ctx.label("canonical" if canon else "not canonical")
    require(same_snapshot(before, snapshot(p)), "a basis query modified the program")
    # canonical form
    y = solve_square(transpose([[lp.A[i][j - 1] for j in B] for i in range(m)]), [lp.c[j - 1] for j in B])
    q = p.to_canonical_form(basis(), in_place=case["inplace"], **kw)
    if case["inplace"]:
        require(q is p, "to_canonical_form(in_place=True) must return the program itself")
    else:
        require(q is not p and same_snapshot(before, snapshot(p)), "to_canonical_form() modified the original program")
    cols = [solve_square([[lp.A[i][j - 1] for j in B] for i in range(m)], [lp.A[i][t] for i in range(m)]) for t in range(n)]
    QA, Qb, Qc = np.asarray(q.A, dtype=float), [float(v) for v in q.b], [float(v) for v in q.c]
    require(QA.shape == (m, n), "to_canonical_form changed the shape")
    # an equivalent system with A_B = I has exactly these rows, up to the order in which the basis is listed
    perm = None
    for cand in (list(range(m)), sorted(range(m), key=lambda k: B[k])):
        if all(close(QA[i][t], cols[t][cand[i]]) for i in range(m) for t in range(n)):
            perm = cand
            break
    require(perm is not None, lambda: f"to_canonical_form({B}): A = {QA.tolist()}, expected {[[float(cols[t][i]) for t in range(n)] for i in range(m)]}")
    require(all(close(Qb[i], sol[perm[i]]) for i in range(m)), f"to_canonical_form({B}): b = {Qb}, expected {[float(v) for v in sol]}")
    for t in range(n):
        want = lp.c[t] - dot(y, [lp.A[i][t] for i in range(m)])
        require(close(Qc[t], want), f"to_canonical_form({B}): c{t + 1} = {Qc[t]}, expected {float(want)}")
    require(close(q.z, dot(y, lp.b) + lp.z), f"to_canonical_form({B}): z = {q.z}, expected {float(dot(y, lp.b) + lp.z)}")
    require(q.is_sef and q.objective == "max", "to_canonical_form: result is not in SEF")
    if perm == list(range(m)):
        require(bool(q.is_canonical_form_for(basis())), f"the canonical form for {B} is not recognized by is_canonical_form_for")


def run_notsef(case, ctx):
    """Operations documented for equality form only refuse everything else and leave the program unchanged."""
    lp = model(case)
    p = build(case)
    if not p.is_sef:
        before = snapshot(p)
        basis = list(range(1, lp.m + 1))
        x = [0.0] * lp.n
        y = [0.0] * lp.m
        for name, args in [("to_canonical_form", (basis,)), ("simplex", (basis,)), ("simplex_iteration", (basis,)), ("two_phase_simplex", ()),
                           ("auxiliary", ()), ("verify_optimality", (y,)), ("verify_infeasibility", (y,)), ("verify_unboundedness", (x, x)),
                           ("is_basic_solution", (x, basis))]:
            raises((ArithmeticError,), lambda: getattr(p, name)(*args), f"{name} of a program that is not in SEF")
            require(same_snapshot(before, snapshot(p)), f"rejected {name} modified the program")
        ctx.nontrivial()
    want = case["obj"] == "max" and set(case["ineq"]) <= {"="} and not case["free"] and not case["neg"]
    require(bool(p.is_sef) == want, f"is_sef = {p.is_sef}, expected {want}")


C06 = Prop(
    "C06",
    "Equality-form programs with proposed bases (valid, dependent, wrong size, out of range, repeated; any order; list or array) "
    "and points (the basic solution or perturbed); answers and canonical forms are compared with exact linear algebra. "
    "Non-trivial: the basis is valid and has at least two columns (queries); the program is not in equality form (refusals).",
    [Sub("basis", basis_query, run_basis, 4000), Sub("not_sef", lambda: lp_cases(4, 5), run_notsef, 600)],
    ["columns are exactly dependent or clearly independent relative to their size", "to_canonical_form may list the rows in the order of the given or of the sorted basis"],
)


# ------------------------------------------------------------------------------ C07 dual
def exact_dual(case):
    """Standard dual in the library's convention: constraints are A^T y ? c, objective b, constant dropped."""
    mx = case["obj"] == "max"
    n, m = len(case["c"]), len(case["b"])
    ineq = []
    for j in range(1, n + 1):
        if j in case["free"]:
            ineq.append("=")
        elif j in case["neg"]:
            ineq.append("<=" if mx else ">=")
        else:
            ineq.append(">=" if mx else "<=")
    free = [i + 1 for i in range(m) if case["ineq"][i] == "="]
    neg = [i + 1 for i in range(m) if case["ineq"][i] == (">=" if mx else "<=")]
    return {"A": [[case["A"][i][j] for i in range(m)] for j in range(n)], "b": list(case["c"]), "c": list(case["b"]), "z": 0,
            "obj": "min" if mx else "max", "ineq": ineq, "free": free, "neg": neg}


def same_program(p, case, what):
    require(mat_eq(p.A, case["A"]), lambda: f"{what}: A = {np.asarray(p.A).tolist()}, expected {case['A']}")
    require(vec_eq(p.b, case["b"]), lambda: f"{what}: b = {list(p.b)}, expected {case['b']}")
    require(vec_eq(p.c, case["c"]), lambda: f"{what}: c = {list(p.c)}, expected {case['c']}")
    require(p.objective == case["obj"], f"{what}: objective {p.objective}, expected {case['obj']}")
    require(list(p.inequalities) == list(case["ineq"]), f"{what}: inequalities {p.inequalities}, expected {case['ineq']}")
    require(sorted(p.free_variables) == sorted(case["free"]), f"{what}: free {p.free_variables}, expected {case['free']}")
    require(sorted(p.negative_variables) == sorted(case["neg"]), f"{what}: negative {p.negative_variables}, expected {case['neg']}")
    pos = [j for j in range(1, len(case["c"]) + 1) if j not in case["free"] and j not in case["neg"]]
    require(list(p.positive_variables) == pos, f"{what}: positive {p.positive_variables}, expected {pos}")
    require(close(p.z, case["z"], 1e-9), f"{what}: z = {p.z}, expected {case['z']}")
    sef = case["obj"] == "max" and set(case["ineq"]) <= {"="} and not case["free"] and not case["neg"]
    require(bool(p.is_sef) == sef, f"{what}: is_sef = {p.is_sef}, expected {sef}")


def run_dual(case, ctx):
    lp = model(case)
    p = build(case)
    before = snapshot(p)
    d = p.dual() if case["steps"] else p.dual(show_steps=False)
    want = exact_dual(case)
    same_program(d, want, "dual")
    require(same_snapshot(before, snapshot(p)), "dual() modified the program")
    dd = d.dual()
    same_program(dd, dict(case, z=0), "dual of the dual")
    status, value, x = solve_lp(lp)
    ctx.label("primal " + status)
    dstatus, dvalue, _ = solve_lp(model(want))
    if status == "optimal":
        if dstatus != "optimal" or dvalue + lp.z != value:
            raise Violation("strong duality fails for the reference dual")  # cannot happen: the oracle certifies itself
        if any(v for r in model(want).sef()[0] for v in r):
            got = d.optimal_value()
            require(got is not None and close(float(got) + case["z"], value), f"optimal value of the dual {got} + z != {float(value)}")
    elif any(v for r in model(want).sef()[0] for v in r):
        require(d.optimal_value() is None, f"the dual of an {status} program has an optimal value")
    ctx.nontrivial(lp.m > 1 or lp.n > 1)


C07 = Prop(
    "C07",
    "Generated programs of every kind; the dual is compared entry by entry with the textbook dual, dualized again, and its optimal "
    "value is compared with the primal optimum from the exact solver. Non-trivial: larger than 1x1.",
    [Sub("dual", lambda: flagged(lp_cases(4, 4, bare=True), steps=st.booleans()), run_dual, 2400),
     Sub("standard", lambda: flagged(lp_cases(4, 5, sef=True, bare=True), steps=st.booleans()), run_dual, 800)],
    ["the dual's constant is 0, as in the README"],
)


# ------------------------------------------------------------------------- C36 auxiliary
def run_aux(case, ctx):
    lp = model(case)
    p = build(case)
    before = snapshot(p)
    a = p.auxiliary() if case["steps"] else p.auxiliary(show_steps=False)
    require(same_snapshot(before, snapshot(p)), "auxiliary() modified the program")
    m, n = lp.m, lp.n
    s = [-1 if v < 0 else 1 for v in case["b"]]
    want = {"A": [[s[i] * v for v in case["A"][i]] + [1 if k == i else 0 for k in range(m)] for i in range(m)],
            "b": [abs(v) for v in case["b"]], "c": [0] * n + [1] * m, "z": 0, "obj": "min", "ineq": ["="] * m, "free": [], "neg": []}
    same_program(a, want, "auxiliary")
    status = solve_sef(lp.A, lp.b, lp.c)[0]
    v = a.optimal_value()
    require(v is not None, "the auxiliary program has no optimal value")
    if status == "infeasible":
        require(float(v) > 1e-7, f"auxiliary optimum {v} although the program is infeasible")
    else:
        require(abs(float(v)) <= 1e-7, f"auxiliary optimum {v} although the program is feasible")
    ctx.label(status)
    ctx.nontrivial(any(v < 0 for v in case["b"]))


C36 = Prop(
    "C36",
    "Equality-form programs; the auxiliary program is compared entry by entry with its definition and its optimum with exact "
    "feasibility. Non-trivial: some right-hand side is negative.",
    [Sub("aux", lambda: flagged(lp_cases(4, 5, sef=True, bare=True), steps=st.booleans()), run_aux, 1600)],
)

PROPS = [C04, C05, C06, C07, C36]
