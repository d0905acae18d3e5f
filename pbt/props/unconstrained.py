"""C18: unconstrained programs (steepest descent with backtracking, Newton's method)."""
import numpy as np
from hypothesis import strategies as st

from ..core import Prop, Sub, Violation, require


@st.composite
def fn_cases(draw):
    n = draw(st.sampled_from([1, 2, 2, 3, 4, 6] if draw(st.integers(0, 15)) != 7 else [8, 11]))
    num = st.integers(-16, 16).map(lambda v: v / 4)
    return {
        "n": n,
        # T is unit lower triangular times a diagonal: f is a strictly convex function of T(x - m)
        "low": draw(st.lists(st.sampled_from([0, 0, 0.5, -0.5, 0.25, 1]), min_size=n * n, max_size=n * n)),
        "diag": draw(st.lists(st.sampled_from([1, 1, 0.5, 2, 1.5]), min_size=n, max_size=n)),
        "m": draw(st.lists(num, min_size=n, max_size=n)),
        "k": draw(st.sampled_from([0, 1, -3.5, 40, -100])),
        "kind": draw(st.sampled_from(["quadratic", "quadratic", "quartic", "hyper"])),
        "objective": draw(st.sampled_from(["min", "max"])),
        "x0": draw(st.one_of(st.lists(num, min_size=n, max_size=n), st.lists(st.integers(-5, 5), min_size=n, max_size=n))),
        "at_opt": draw(st.sampled_from([False] * 9 + [True])),
        "start": draw(st.sampled_from(["array", "list", "intarray", "tuple"])),
        "dfkind": draw(st.sampled_from(["array", "array", "array", "list", "tuple"])),
        "method": draw(st.sampled_from(["steepest", "newton"])),
        "tolerance": draw(st.sampled_from([None, None, 1e-3, 1e-2, 1e-5])),
        "alpha": draw(st.sampled_from([None, None, 1, 0.5, 3])),
        "c": draw(st.sampled_from([None, None, 0.1, 0.5, 0.9])),
        "p": draw(st.sampled_from([None, None, 0.5, 0.25, 0.8])),
        "cut": draw(st.tuples(st.integers(0, 3), st.integers(0, 3))),
    }


def problem(case):
    n = case["n"]
    T = np.zeros((n, n))
    for i in range(n):
        for j in range(i):
            T[i, j] = case["low"][i * n + j] / 2
        T[i, i] = case["diag"][i]
    m = np.array(case["m"], dtype=float)
    kind = case["kind"]

    def parts(x):
        u = T @ (np.asarray(x, dtype=float) - m)
        if kind == "quadratic":
            return 0.5 * u @ u, u, np.ones(n)
        if kind == "quartic":
            return np.sum(u ** 2 + 0.05 * u ** 4), 2 * u + 0.2 * u ** 3, 2 + 0.6 * u ** 2
        r = np.sqrt(1 + u ** 2 / 4)  # hyper: quadratic plus a term that is nearly linear far away
        return np.sum(0.5 * u ** 2 + r), u + u / (4 * r), 1 + 1 / (4 * r ** 3)

    s = 1.0 if case["objective"] == "min" else -1.0
    f = lambda x: float(s * (parts(x)[0] + case["k"]))
    df = lambda x: s * (T.T @ parts(x)[1])
    d2f = lambda x: s * (T.T @ np.diag(parts(x)[2]) @ T)
    low = float(np.min(np.linalg.eigvalsh(T.T @ T)))  # Hessian >= low * I in every kind
    return f, df, d2f, m, low, s


def start_of(case):
    x0 = case["m"] if case["at_opt"] else case["x0"]
    k = case["start"]
    if k == "list":
        return list(x0)
    if k == "tuple":
        return tuple(x0)
    if k == "intarray" and all(float(v).is_integer() for v in x0):
        return np.array([int(v) for v in x0])
    return np.array(x0, dtype=float)


def run_descent(case, ctx):
    from pytimize.programs import UnconstrainedProgram

    f, df, d2f, m, low, s = problem(case)
    n = case["n"]
    prog = UnconstrainedProgram(f, case["objective"]) if case["objective"] == "max" or case["k"] else UnconstrainedProgram(f)
    kw = {k: case[k] for k in ("tolerance", "alpha", "c", "p") if case[k] is not None}
    tol = case["tolerance"] or 1e-4
    newton = case["method"] == "newton"
    # the caller's derivatives may answer with arrays, lists or tuples
    as_kind = {"list": list, "tuple": tuple}.get(case["dfkind"], lambda v: v)
    grad = lambda x: as_kind(df(x))
    hess = lambda x: as_kind([as_kind(r) for r in d2f(x)]) if case["dfkind"] != "array" else d2f(x)
    if newton:
        for k in ("alpha", "c", "p"):
            kw.pop(k, None)
        call = lambda x, **more: prog.newton_method(x, grad, hess, **{**kw, **more})
    else:
        call = lambda x, **more: prog.steepest_descent(x, grad, **{**kw, **more})
    x0 = start_of(case)
    saved = np.array(x0, dtype=float)
    got = call(x0)
    require(np.array_equal(np.array(x0, dtype=float), saved), lambda: f"{case['method']} overwrote the caller's starting point: {x0}, it was {saved}")
    require(isinstance(x0, type(start_of(case))), "starting point replaced")
    g = np.asarray(got, dtype=float)
    require(g.shape == (n,) and bool(np.all(np.isfinite(g))), lambda: f"{case['method']} returned {got!r}")
    slope = float(np.linalg.norm(df(g)))
    require(slope <= tol * (1 + 1e-9), lambda: f"{case['method']} stopped at {g} where the gradient has norm {slope}, tolerance {tol}")
    require(float(np.linalg.norm(g - m)) <= 1.01 * tol / low + 1e-9, lambda: f"{case['method']} returned {g}, the optimum is {m}")
    require(s * f(g) <= s * f(saved) + 1e-9 * (1 + abs(f(saved))), lambda: f"{case['method']} made the objective worse: {f(saved)} -> {f(g)}")
    again = np.asarray(call(x0), dtype=float)
    require(np.array_equal(again, g), "a second run from the same point differs")
    ctx.label(case["method"], case["objective"], case["kind"])
    far = float(np.linalg.norm(df(saved))) > 1e-3
    ctx.nontrivial(far and n > 1)
    if not far:
        return
    # a run of i+j iterations is a run of i followed by a run of j
    i, j = case["cut"]
    if i and j:
        whole = np.asarray(call(x0, tolerance=0, max_iteration=i + j), dtype=float)
        first = np.asarray(call(x0, tolerance=0, max_iteration=i), dtype=float)
        rest = np.asarray(call(first.copy(), tolerance=0, max_iteration=j), dtype=float)
        if np.linalg.norm(df(first)) > 1e-6:
            require(np.allclose(whole, rest, rtol=1e-9, atol=1e-9), lambda: f"{i}+{j} iterations give {rest}, {i + j} iterations {whole}")
    one = np.asarray(call(x0, tolerance=0, max_iteration=1), dtype=float)
    # the program keeps nothing of earlier runs
    elsewhere = np.asarray(call(list(one)), dtype=float)
    require(float(np.linalg.norm(df(elsewhere))) <= tol * (1 + 1e-9), lambda: f"{case['method']} from {one} stopped at {elsewhere} where the gradient has norm {float(np.linalg.norm(df(elsewhere)))}, tolerance {tol}")
    require(np.array_equal(np.asarray(call(x0), dtype=float), g), "a later run from the same point differs from the first")
    if newton:
        want = saved - np.linalg.solve(d2f(saved), df(saved))
        require(np.allclose(one, want, rtol=1e-7, atol=1e-9), lambda: f"one Newton iteration gives {one}, expected {want}")
        return
    # one steepest descent iteration: the longest step alpha * p^k with sufficient decrease
    alpha, c, p = case["alpha"] or 1, case["c"] or 0.7, case["p"] or 0.5
    d = -s * df(saved)
    dd = float(d @ d)
    h = lambda x: s * f(x)
    a = float(alpha)
    for _ in range(400):
        margin = h(saved) - c * a * dd - h(saved + a * d)
        if abs(margin) < 1e-9 * (1 + abs(h(saved)) + a * dd):
            return  # too close to the acceptance threshold to predict
        if margin > 0:
            break
        a *= p
    want = saved + a * d
    require(np.allclose(one, want, rtol=1e-7, atol=1e-9), lambda: f"one iteration moves {saved} to {one}, expected {want} (step length {a})")


def run_objective(case, ctx):
    from pytimize.programs import UnconstrainedProgram

    o = case["o"]
    ctx.nontrivial(o not in ("min", "max"))
    try:
        UnconstrainedProgram(lambda x: 0.0, o)
    except ValueError:
        require(o not in ("min", "max"), f"objective {o!r} rejected")
        return
    except Exception as e:
        raise Violation(f"objective {o!r}: {type(e).__name__} instead of ValueError")
    require(o in ("min", "max"), f"objective {o!r} accepted")


C18 = Prop(
    "C18",
    "Strictly convex (or concave, for max) functions of one to six variables with known optimum and exact gradient and Hessian; random "
    "start points as arrays, integer arrays, lists and tuples; random tolerance, step length, sufficient-decrease and backtracking "
    "parameters. Non-trivial: at least two variables and a start away from the optimum.",
    [Sub("descent", fn_cases, run_descent, 1200),
     Sub("objective", lambda: st.fixed_dictionaries({"o": st.one_of(st.sampled_from(["min", "max", "MIN", "", "minimize", "ma", "x", "minmax"]), st.text(max_size=4))}),
         run_objective, 100)],
    ["Hessian eigenvalues are bounded away from zero, so that convergence is guaranteed and the gradient bound pins the optimum"],
)

PROPS = [C18]
