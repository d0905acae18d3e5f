"""Generators of linear programs (pure data) and helpers to hand them to the real code."""
from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st

from .core import STEPS, Violation
from .exact import LP, dot, rank, solve_square

STYLES = {
    "unit": (st.integers(-1, 1), 1),
    "tiny": (st.integers(-2, 2), 1),
    "small": (st.integers(-5, 5), 1),
    "pos": (st.integers(0, 4), 1),
    "half": (st.integers(-7, 7), 2),
    "quarter": (st.integers(-9, 9), 4),
    "med": (st.integers(-12, 12), 1),
    "big": (st.integers(-60, 60), 1),
}
GROWN = ["unit", "tiny", "small", "pos", "half"]
LARGE = ["optimal", "optimal", "degenerate", "feasible", "random"]


def nums(style, n):
    s, q = STYLES[style]
    return st.lists(s, min_size=n, max_size=n).map(lambda v: [x / q for x in v])


@st.composite
def lp_cases(draw, max_m=4, max_n=5, min_m=1, min_n=1, sef=False, modes=None, styles=None, scaled=True, grow=True, bare=False):
    """A JSON-able general LP.  Modes:
    random     everything independent
    feasible   b built around a sign-feasible point (rows may be tight or slack)
    optimal    additionally c built from a sign-feasible dual point: an optimum exists
    degenerate as optimal, with a sparse point and mostly tight rows (ties in the ratio test)
    redundant  as optimal, plus equality rows that are combinations of other equality rows
    neartie    as optimal, plus a nearly identical copy of an inequality row
    With grow, one program in sixteen is larger than asked for (two-digit indices, many free variables).
    """
    if grow and modes != ["neartie"] and draw(st.integers(0, 15)) == 9:
        if draw(st.integers(0, 3)) == 0:  # tall: two-digit rows
            min_m, max_m, min_n, scaled = max_m + 2, max_m + 9, min(min_n + 1, max_n), False
            max_n = max(min_n, 3)
        else:
            min_m, max_m, min_n, max_n, scaled = max_m, max_m + 4, max_n, max_n + 6, False
        styles = [s for s in styles or GROWN if s in GROWN] or ["tiny"]
        modes = [s for s in modes or LARGE if s in LARGE] or ["optimal"]
    mode = draw(st.sampled_from(modes or ["random", "feasible", "optimal", "optimal", "degenerate", "redundant"]))
    style = draw(st.sampled_from(styles or ["unit", "tiny", "small", "small", "pos", "half", "quarter", "med", "big"]))
    m = draw(st.integers(min_m, max_m))
    n = draw(st.integers(min_n, max_n))
    A = [draw(nums(style, n)) for _ in range(m)]
    if draw(st.integers(0, 15)) == 7:  # empty rows and columns, up to the zero matrix
        if draw(st.booleans()):
            for i in range(m) if draw(st.integers(0, 2)) == 0 else [draw(st.integers(0, m - 1))]:
                A[i] = [0] * n
        else:
            j = draw(st.integers(0, n - 1))
            for row in A:
                row[j] = 0
    if sef:
        ineq, signs, obj = ["="] * m, [0] * n, "max"
    else:
        pool = draw(st.sampled_from([["<=", ">=", "="], ["<=", ">="], ["<="], [">="], ["=", "<="], ["="]]))
        ineq = draw(st.lists(st.sampled_from(pool), min_size=m, max_size=m))
        spool = draw(st.sampled_from([[0], [0, 0, 1, 2], [0, 1], [0, 2], [1, 2], [1], [2]]))
        signs = draw(st.lists(st.sampled_from(spool), min_size=n, max_size=n))  # 0 >=0, 1 free, 2 <=0
        obj = draw(st.sampled_from(["max", "min"]))
    z = draw(st.sampled_from([0, 0, 3, -2.5, 17]))
    if mode == "random":
        b = draw(nums(style, m))
        c = draw(nums(style, n))
    else:
        sparse = mode == "degenerate"
        x0 = draw(st.lists(st.sampled_from([0, 0, 0, 1] if sparse else [0, 1, 2, 3, 0.5, -1, -2]), min_size=n, max_size=n))
        x0 = [(-abs(v) if s == 2 else abs(v) if s == 0 else v) for v, s in zip(x0, signs)]
        gaps = draw(st.lists(st.sampled_from([0, 0, 0, 1] if sparse else [0, 0, 1, 2, 5]), min_size=m, max_size=m))
        b = []
        for row, op, g in zip(A, ineq, gaps):
            v = sum(p * q for p, q in zip(row, x0))
            b.append(v + g if op == "<=" else v - g if op == ">=" else v)
        if mode == "feasible":
            c = draw(nums(style, n))
        else:
            y0 = draw(st.lists(st.sampled_from([0, 0, 1, 2, -1, 3, -2]), min_size=m, max_size=m))
            red = draw(st.lists(st.sampled_from([0, 0, 1, 2]), min_size=n, max_size=n))
            k = 1 if obj == "max" else -1
            y0 = [(k * abs(v) if op == "<=" else -k * abs(v) if op == ">=" else v) for v, op in zip(y0, ineq)]
            # max: y.A_j - c_j >= 0 for x_j>=0, <= 0 for x_j<=0, = 0 free  (mirrored for min)
            c = []
            for j in range(n):
                v = sum(y0[i] * A[i][j] for i in range(m))
                c.append(v - k * red[j] if signs[j] == 0 else v + k * red[j] if signs[j] == 2 else v)
        if mode == "redundant":
            eqs = [i for i in range(m) if ineq[i] == "="]
            if eqs:
                extra = draw(st.integers(1, 2))
                for _ in range(extra):
                    k1 = draw(st.sampled_from(eqs))
                    k2 = draw(st.sampled_from(eqs))
                    f1, f2 = draw(st.sampled_from([(1, 0), (2, 0), (1, 1), (1, -1), (-1, 0), (2, 1)]))
                    pos = draw(st.integers(0, len(A)))
                    A.insert(pos, [f1 * p + f2 * q for p, q in zip(A[k1], A[k2])])
                    b.insert(pos, f1 * b[k1] + f2 * b[k2])
                    ineq.insert(pos, "=")
                    eqs = [i for i in range(len(A)) if ineq[i] == "="]
        if mode == "neartie":
            rows = [i for i in range(m) if ineq[i] != "="]
            if rows:
                k1 = draw(st.sampled_from(rows))
                eps = draw(st.sampled_from([2.0 ** -17, 2.0 ** -16, 2.0 ** -18, -(2.0 ** -17)]))
                pos = draw(st.integers(0, len(A)))
                A.insert(pos, list(A[k1]))
                b.insert(pos, b[k1] + eps)
                ineq.insert(pos, ineq[k1])
    if scaled and mode != "neartie" and draw(st.sampled_from([False] * 7 + [True])):
        # the same program in other units: columns and rows multiplied by powers of two
        unit = draw(st.sampled_from([2.0 ** 9, 2.0 ** 10, 2.0 ** -8, 2.0 ** -10]))
        cs = draw(st.lists(st.sampled_from([1, unit]), min_size=n, max_size=n))
        rs = draw(st.lists(st.sampled_from([1, 1, 1, 1, 2.0 ** -4, 8]), min_size=len(A), max_size=len(A)))
        A = [[v * s * r for v, s in zip(row, cs)] for row, r in zip(A, rs)]
        b = [v * r for v, r in zip(b, rs)]
        if draw(st.booleans()):
            c = [v * s for v, s in zip(c, cs)]
    elif mode != "neartie" and draw(st.sampled_from([False] * 5 + [True])):
        # one small but visible number: nothing may be taken for zero, or for equal, that is not
        eps = draw(st.sampled_from([2.0 ** -9, -(2.0 ** -9), 2.0 ** -10, -(2.0 ** -10), 2.0 ** -11]))
        where, add = draw(st.sampled_from(["A", "b", "b", "c"])), draw(st.booleans())
        row = draw(st.sampled_from(A)) if where == "A" else b if where == "b" else c
        k = draw(st.integers(0, len(row) - 1))
        row[k] = row[k] + eps if add and where != "A" else eps  # rows do not become nearly parallel
    free = [j + 1 for j in range(n) if signs[j] == 1]
    neg = [j + 1 for j in range(n) if signs[j] == 2]
    if draw(st.booleans()):
        free, neg = free[::-1], neg[::-1]
    if bare and draw(st.integers(0, 39)) == 11:  # no constraints at all
        mode, A, b, ineq = "bare", [], [], []
    case = {"mode": mode, "A": A, "b": b, "c": c, "z": z, "obj": obj, "ineq": ineq, "free": free, "neg": neg}
    if sef and A and draw(st.integers(0, 6)) == 3:  # a canonical form, made from its program
        case = canonical(case, draw(st.permutations(range(n)))) or case
    if "age" not in case and draw(st.integers(0, 4)) == 3:
        case["age"] = draw(st.sampled_from(AGES[2 * (not sef):]))
        case["age"] = [case["age"], draw(st.integers(1, 15))]
    return case


# A program has a past: questions asked before it became what it is must not show in the answers given now.
AGES = ["sef", "sef", "rows", "cols", "both"]  # how the program is brought to its data by calls that change it in place


def canonical(case, order):
    """The exact canonical form for some basis if its numbers are short, with the program it comes from."""
    A, b, c = [[F(v) for v in r] for r in case["A"]], [F(v) for v in case["b"]], [F(v) for v in case["c"]]
    m, basis = len(A), []
    for j in order:
        if len(basis) < m and rank([[r[k] for k in basis + [j]] for r in A]) > len(basis):
            basis.append(j)
    if len(basis) < m:
        return None
    basis.sort()
    inv = [solve_square([[r[j] for j in basis] for r in A], [F(int(i == k)) for i in range(m)]) for k in range(m)]
    T = lambda v: [sum(inv[k][i] * v[k] for k in range(m)) for i in range(m)]
    cols = [T([r[j] for r in A]) for j in range(len(c))]
    cb = [c[j] for j in basis]
    nb, nc = T(b), [c[j] - dot(cb, cols[j]) for j in range(len(c))]
    z = F(case["z"]) + dot(cb, nb)
    every = [v for col in cols for v in col] + nb + nc + [z]
    if any(abs(v) > 400 or v.denominator > 16 or v.denominator & (v.denominator - 1) for v in every):
        return None
    past = {k: case[k] for k in ("A", "b", "c", "z", "obj", "ineq", "free", "neg")}
    return dict(case, A=[[float(col[i]) for col in cols] for i in range(m)], b=[float(v) for v in nb], c=[float(v) for v in nc], z=float(z),
                age=["canon", [j + 1 for j in basis], past])


def scribble(v):
    """What a caller may do with the answers he was given."""
    if isinstance(v, np.ndarray):
        if v.flags.writeable and v.dtype.kind == "f":
            v += 3
    elif isinstance(v, list):
        v.append(1)
    elif isinstance(v, set):
        v.clear()
    elif isinstance(v, dict):
        for t in v.values():
            scribble(t)
        v.clear()
    elif isinstance(v, tuple):
        for t in v:
            scribble(t)


def warm(p, few=False):
    """Asks a program everything; the answers do not matter."""
    m, n = np.shape(p.A)
    ask = [lambda: repr(p), lambda: p == p.copy(), lambda: p.inequalities, lambda: p.free_variables, lambda: p.negative_variables, lambda: p.positive_variables,
           lambda: p.is_feasible(np.zeros(n)), lambda: p.evaluate([1.0] * n), p.cs_conditions, lambda: p.dual().add_variable(5, in_place=True) and None,
           lambda: p.copy().add_constraint([1] * n, "<=", 3, in_place=True) and None, lambda: p.is_in_rref, lambda: p.steps_string and None]
    if not hasattr(p, "relax") and not few:  # the intermediate program may be unbounded, where branching does not end
        ask += [p.solve, p.optimal_value, lambda: p.is_solution_optimal([0.0] * n), lambda: p.value_of([0.0] * n)]
    if p.is_sef and not few:
        bases = [list(range(1, m + 1)), list(range(n - m + 1, n + 1)), list(range(1, n + 1, max(1, n // max(1, m))))[:m]]
        for B in bases:
            ask += [lambda B=B: p.is_basis(B), lambda B=B: p.is_basis_feasible(B), lambda B=B: p.compute_basic_solution(B), lambda B=B: p.is_canonical_form_for(B),
                    lambda B=B: p.simplex_iteration(B, False)[:2], lambda B=B: p.is_basic_solution([0.0] * n, B), lambda B=B: p.to_canonical_form(B).add_variable(in_place=True) and None]
        ask += [lambda: p.auxiliary().add_variable(1, in_place=True) and None, lambda: p.two_phase_simplex(), lambda: p.verify_optimality([1.0] * m),
                lambda: p.verify_infeasibility([-1.0] * m), lambda: p.verify_unboundedness([0.0] * n, [1.0] * n)]
    elif not few:
        ask += [lambda: p.to_sef().add_variable(in_place=True) and None]
    untouched = [p.dual, p.copy] + ([p.auxiliary] if p.is_sef else [p.to_sef])  # nobody touches these answers
    with STEPS.within(4_000_000):
        for f in ask + untouched:
            try:
                answer = f()
                if f not in untouched:
                    scribble(answer)
            except Exception:
                pass


def with_past(case, cls, kw):
    kind, past = case["age"][0], case["age"][1]
    if kind == "canon":
        p = plain(case["age"][2], cls, kw)
        warm(p)
        p.to_canonical_form(past, in_place=True)
    elif kind == "sef":
        if any(op != "=" for op in case["ineq"]) or case["free"] or case["neg"] or case["obj"] != "max":
            return None
        n = len(case["c"])
        neg = [j + 1 for j in range(n) if past >> j % 3 & 1 and j < n - 1]
        flip = lambda row: [-v if j + 1 in neg else v for j, v in enumerate(row)]
        least = past >= 8 or not neg
        p = plain(dict(case, A=[flip(r) for r in case["A"]], c=[-v if least else v for v in flip(case["c"])], neg=neg, obj="min" if least else "max"), cls, kw)
        warm(p)
        p.to_sef(in_place=True)
    else:
        m, n = len(case["b"]), len(case["c"])
        r = min(m, 1 + past % 2 if past < 12 else m) if kind in ("rows", "both") else 0
        k = min(n - 1, 1 + past // 2 % 2) if kind in ("cols", "both") and not kw.get("integral_variables") else 0
        if not r and not k:
            return None
        p = plain(dict(case, A=[row[: n - k] for row in case["A"][: m - r]], b=case["b"][: m - r], c=case["c"][: n - k], ineq=case["ineq"][: m - r],
                       free=[j for j in case["free"] if j <= n - k], neg=[j for j in case["neg"] if j <= n - k]), cls, kw)
        warm(p)
        for j in range(n - k, n):
            p.add_variable(float(case["c"][j]), [float(row[j]) for row in case["A"][: m - r]], j + 1 in case["free"], j + 1 in case["neg"], in_place=True)
            warm(p, True)
        for i in range(m - r, m):
            p.add_constraint([float(v) for v in case["A"][i]], case["ineq"][i], float(case["b"][i]), in_place=True)
            if i < m - 1:
                warm(p, True)
    p.clear_steps(in_place=True)
    return p


def model(case):
    return LP(case["A"], case["b"], case["c"], case["z"], case["obj"], case["ineq"],
              [j - 1 for j in case["free"]], [j - 1 for j in case["neg"]])


LAYOUTS = ["", "rows", "strided", "readonly"]


def laid_out(v, kind):
    """The same array in another memory layout."""
    a = np.array(v, dtype=float)
    if kind == "rows":
        return np.asfortranarray(a) if a.ndim == 2 else a[::-1].copy()[::-1]
    if kind == "strided":
        big = np.full(tuple(2 * k for k in a.shape), 99.0)
        big[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return big[tuple(slice(None, None, 2) for _ in a.shape)]
    if kind == "readonly":
        a.setflags(write=False)
    return a


DTYPES = [("f8", "f8", "f8")] * 6 + [("f4", "f4", "f4"), ("f8", "f4", "f2"), ("f2", "f2", "f4"), ("g", "f8", "g"), ("f4", "i8", "f8"), ("i4", "f4", "i2"), (">f8", ">f4", "f8")]


def as_dtype(a, dtype):
    """The array in another number type, if that type has the same numbers."""
    if dtype == "f8":
        return a
    if dtype[0] == "i" and not (a == np.round(a)).all():
        return a
    with np.errstate(all="ignore"):
        other = a.astype(dtype)
    return other if (other.astype(float) == a).all() else a


def plain(case, cls, kw, as_list=False):
    A = [[float(v) for v in r] for r in case["A"]]
    b = [float(v) for v in case["b"]]
    c = [float(v) for v in case["c"]]
    z, key = case["z"], int(abs(sum(c)) * 2 + len(b)) % 8
    if not as_list:
        dtypes = DTYPES[int(abs(sum(b)) * 4 + len(c)) % len(DTYPES)]
        A, b, c = [as_dtype(laid_out(v, LAYOUTS[(key + i) % 4 if key > 3 else 0]), dtypes[i]) for i, v in enumerate((A, b, c))]
        z = np.float64(z) if key in (2, 5) else np.float32(z) if key == 6 and float(np.float32(z)) == z else np.int64(z) if key == 7 and z == int(z) else z
    if not len(A):  # a list cannot tell the number of columns
        A, b = np.zeros((0, len(c))), np.zeros(0)
    return cls(A, b, c, z, case["obj"], list(case["ineq"]),
               list(case["free"]) or None, list(case["neg"]) or None, **kw)


def build(case, cls=None, as_list=False, **kw):
    """The program of the case, with the past its age tells (the same program whatever the past)."""
    from pytimize.programs import LinearProgram

    cls = cls or LinearProgram
    p = plain(case, cls, kw, as_list)
    if case.get("age"):
        q = with_past(case, cls, kw)
        if q is not None and same_snapshot(snapshot(p), snapshot(q)):  # a wrong edit is for C05, C06 and C09 to find
            return q
    return p


def floats(x, n, what):
    """The result as n finite floats, or a violation."""
    a = np.asarray(x)
    if a.dtype == object or a.ndim != 1 or a.shape[0] != n:
        raise Violation(f"{what}: expected a vector of {n} numbers, got {x!r}")
    v = [float(t) for t in a]
    if not all(np.isfinite(v)):
        raise Violation(f"{what}: not finite: {x!r}")
    return v


def scale_of(case):
    m = max([1.0] + [abs(v) for v in case["b"]] + [abs(v) for v in case["c"]])
    return float(m)


def close(a, b, tol=1e-6):
    return abs(float(a) - float(b)) <= tol * (1 + max(abs(float(a)), abs(float(b))))


def row_tol(row, x, rhs, tol=1e-6):
    return tol * (1 + abs(float(rhs)) + sum(abs(float(a) * float(v)) for a, v in zip(row, x)))


def violated(lp, x, tol=1e-6):
    """Which constraint of the exact model the float point x breaks beyond rounding, or None."""
    for j, v in enumerate(x):
        if j in lp.free:
            continue
        if (v > tol * 10 if j in lp.neg else v < -tol * 10):
            return f"sign of x{j + 1} = {v}"
    fx = [F(v) for v in x]
    for i, (row, q, op) in enumerate(zip(lp.A, lp.b, lp.ineq)):
        d = float(dot(row, fx) - q)
        t = row_tol(row, x, q, tol)
        if (op == "=" and abs(d) > t) or (op == "<=" and d > t) or (op == ">=" and -d > t):
            return f"row {i + 1}: {op} violated by {d}"
    return None


def snapshot(p):
    """Everything observable about a program, for before/after comparison."""
    return (
        np.array(p.A, copy=True).tolist(), np.array(p.b, copy=True).tolist(), np.array(p.c, copy=True).tolist(),
        float(p.z), p.objective, list(p.inequalities), sorted(p.free_variables), sorted(p.negative_variables), bool(p.is_sef),
    )


def same_snapshot(a, b):
    def eq(x, y):
        if isinstance(x, list):
            return isinstance(y, list) and len(x) == len(y) and all(eq(p, q) for p, q in zip(x, y))
        if isinstance(x, float) and isinstance(y, (float, int)):
            return x == y  # -0.0 == 0.0
        return x == y

    return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
