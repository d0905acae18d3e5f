"""C37: what the recorded steps say is what was computed."""
import re
from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st

from ..core import Prop, Sub, require
from ..lpgen import build, floats, lp_cases, model
from ..exact import rank
from .lp_core import as_arg, basis_query, det
from .lp_misc import point_cases
from .lp_solve import basis_cases, sef_cases

NUMBER = re.compile(r"[-+]?(?:\d+\.\d*|\.\d+|\d+)(?:[eE][-+]?\d+)?")


def numbers(text):
    return [float(t) for t in NUMBER.findall(text)]


def said(text, values, what):
    """The numbers of the text are the values, up to the digits numpy prints."""
    got, want = numbers(text), [float(v) for v in np.asarray(values, dtype=float).ravel()]
    big = max([abs(v) for v in want] + [1.0])
    require(len(got) == len(want) and all(abs(g - w) <= 2e-8 * big for g, w in zip(got, want)), lambda: f"{what} is recorded as {text!r}, it is {want}")


def texts(p):
    return [str(s["text"]) for s in p.steps]


def after(ts, prefix):
    return [t[len(prefix):] for t in ts if t.startswith(prefix)]


def with_earlier(p, k):
    """Some programs have steps already."""
    if k:
        p.is_feasible([0.0] * len(p.c))
    return len(p.steps)


def run_simplex(case, ctx):
    p = build(case)
    old = with_earlier(p, case["earlier"])
    basis = list(case["basis"])
    phases = case["phases"]
    sol, opt, cert = p.two_phase_simplex() if phases else p.simplex(basis)
    ts = texts(p)[old:]
    if phases and sol is None and opt is None and not isinstance(cert, tuple):
        # infeasible: nothing may claim an outcome
        require(not after(ts, "Solution:") and "The Program is Unbounded" not in ts, lambda: f"the steps of an infeasible program are {ts}")
        ctx.label("infeasible")
        return
    unbounded = opt is None
    deficient = phases and rank(model(case).A) < len(case["b"])  # solved without its redundant rows, by another program
    if deficient and not ts:
        ctx.label("redundant rows")
        return
    ctx.label("unbounded" if unbounded else "optimal")
    require(("The Program is Unbounded" in ts) == unbounded or (deficient and unbounded), lambda: f"the program is {'' if unbounded else 'not '}unbounded, the steps end with {ts[-3:]}")
    for prefix, value in (("Solution:", sol), ("Optimality Certificate:", cert), ("Optimal Basis:", opt)):
        lines = after(ts, prefix)
        if unbounded:
            require(not lines, lambda: f"{prefix} {lines} although the program is unbounded")
        else:
            require(len(lines) <= 1 and (lines or deficient), lambda: f"{len(lines)} lines {prefix!r} in {ts}")
            if lines:
                said(lines[0], value, prefix)
    marks = [i for i, t in enumerate(ts) if t.startswith("Iteration ")]
    require([int(numbers(ts[i])[0]) for i in marks] == list(range(len(marks))) and (marks or deficient), lambda: f"iterations are numbered {[ts[i] for i in marks]}")
    ctx.nontrivial(len(marks) > 2)
    if phases:
        return
    # the programs shown are those the iterations give
    q, at = p.copy(), basis
    for n, i in enumerate(marks[1:], 1):
        shown = ts[i + 1]
        s, at, q = q.simplex_iteration(list(at))
        a, b = numbers(shown), numbers(str(q))
        require(len(a) == len(b) and all(abs(u - v) <= 2e-3 for u, v in zip(a, b)), lambda: f"iteration {n} shows\n{shown}\nit gives\n{q}")
        if s is not None or at is None:
            require(n == len(marks) - 1, f"{len(marks) - 1} iterations are recorded, the program is done after {n}")
    require(s is not None or at is None, "the recorded iterations end before the program is done")


@st.composite
def simplex_cases(draw):
    phases = draw(st.integers(0, 2)) == 0
    case = draw(sef_cases(3, 5, bare=False)) if phases else draw(basis_cases(3, 3))
    case["phases"] = phases
    case.setdefault("basis", [])
    case["earlier"] = draw(st.booleans())
    return case


def run_feasible(case, ctx):
    from pytimize.programs import IntegerProgram

    p = build(case, cls=IntegerProgram) if case["ip"] else build(case)
    old = with_earlier(p, case["earlier"])
    x = [float(v) for v in case["point"]]
    arg = as_arg(x, case["kind"])
    got = bool(p.is_feasible(arg))
    ts = texts(p)[old:]
    yes, no = [t for t in ts if t.endswith(" is Feasible:")], [t for t in ts if t.endswith(" is Not Feasible:")]
    ctx.label("feasible" if got else "infeasible", "integer" if case["ip"] else "linear")
    ctx.nontrivial(len(x) > 1)
    require(len(yes) == got and len(no) <= (not got), lambda: f"is_feasible({x}) = {got}, the steps say {ts}")
    for t in yes:
        said(t[: -len(" is Feasible:")], x, "the feasible vector")
    for t in no:
        said(t[: -len(" is Not Feasible:")], x, "the infeasible vector")
    asked = [t for t in ts if t.startswith("Is ")]
    require(len(asked) <= 1 and (not got or asked), lambda: f"steps of is_feasible: {ts}")
    for t in asked:
        said(t, x, "the vector in question")
    lines = "\n".join(ts)
    if no and not case["ip"]:
        lp = model(case)
        negative = any(v < 0 for v in x)
        off = any(sum(F(a) * F(v) for a, v in zip(r, x)) != b for r, b in zip(lp.A, lp.b))
        require(("Negative" in lines) == negative, lambda: f"{x} {'has' if negative else 'has no'} negative entries, the steps say {ts}")
        gap = max([abs(sum(F(a) * F(v) for a, v in zip(r, x)) - b) for r, b in zip(lp.A, lp.b)], default=0)
        if gap == 0 or gap > F(1, 100) * (1 + max((abs(b) for b in lp.b), default=0)):
            require(("Constraints are Not Satisfied" in lines) == off, lambda: f"the constraints are {'not ' if off else ''}satisfied by {x}, the steps say {ts}")
    kept = texts(p)
    p.is_feasible(as_arg(x, case["kind"]), show_steps=False)
    require(texts(p) == kept, "is_feasible recorded steps although it was told not to")


@st.composite
def feasible_cases(draw):
    case = draw(point_cases())
    if draw(st.integers(0, 2)) == 0:  # equality form has steps of its own
        m, n = len(case["b"]), len(case["c"])
        case.update(obj="max", ineq=["="] * m, free=[], neg=[])
        case["point"] = [abs(v) for v in case["point"]] if draw(st.booleans()) else case["point"]
        if draw(st.booleans()):
            case["b"] = [sum(p * q for p, q in zip(r, case["point"])) for r in case["A"]]
    case["ip"] = draw(st.integers(0, 2)) == 0
    if case["ip"] and draw(st.booleans()):
        case["point"] = [float(int(v)) for v in case["point"]]
    case["earlier"] = draw(st.booleans())
    return case


def run_basis(case, ctx):
    lp = model(case)
    B, m, n = case["basis"], lp.m, lp.n
    if len(B) != m or not all(1 <= j <= n for j in B) or det([[lp.A[i][j - 1] for j in B] for i in range(m)]) == 0:
        return
    ctx.nontrivial(m > 1)
    p = build(case)
    old = with_earlier(p, case["earlier"])
    basis = lambda: np.array(B) if case["np"] else list(B)
    x = [float(v) for v in case["x"]]
    got = bool(p.is_basic_solution(as_arg(x, case["kind"]), basis()))
    ts = texts(p)[old:]
    asked = [t for t in ts if t.startswith("Is ") and t.endswith(" A Basic Solution")]
    require(len(asked) == 1, lambda: f"steps of is_basic_solution: {ts}")
    said(asked[0], B, "the basis in question")
    yes, no = [t for t in ts if " is A Basic Solution for Basis " in t], [t for t in ts if " is Not A Basic Solution for Basis " in t]
    require((len(yes), len(no)) == (int(got), int(not got)), lambda: f"is_basic_solution({x}, {B}) = {got}, the steps say {ts}")
    ctx.label("basic" if got else "not basic")
    left, right = re.split(r" is (?:Not )?A Basic Solution for Basis ", (yes + no)[0])
    said(left, x, "the vector")
    said(right, B, "the basis")
    named = sorted(int(numbers(t)[0]) for t in ts if t.startswith("Column ") and t.endswith(" Is Not a Zero"))
    want = [j + 1 for j in range(n) if j + 1 not in B and abs(x[j]) > 1e-6]
    if not any(0 < abs(v) <= 1e-6 for v in x):
        require(named == want, lambda: f"the steps call the entries {named} outside of {B} not zero, of {x} these are {want}")
    kept = texts(p)
    p.is_basic_solution(as_arg(x, case["kind"]), basis(), show_steps=False)
    require(texts(p) == kept, "is_basic_solution recorded steps although it was told not to")
    # canonical form
    q = p.copy()
    q.clear_steps(in_place=True)
    A, c = np.array(case["A"], dtype=float), np.array(case["c"], dtype=float)
    q.to_canonical_form(basis(), in_place=True)
    ts = texts(q)
    heads = {"Basis Inverse:": None, "Basis:": None, "Corresponding Coefficient Entries:": None, "y Vector:": None, "Convert to Canonical Form for Base Indices of": None}
    for h in heads:
        lines = after(ts, h)
        require(len(lines) == 1, lambda: f"{len(lines)} lines {h!r} among the steps {ts}")
        heads[h] = numbers(lines[0])
    require(heads["Convert to Canonical Form for Base Indices of"] == [float(j) for j in B], lambda: f"the basis is {B}, the steps say {ts[0]!r}")
    Ab = np.array(heads["Basis:"])
    require(Ab.size == m * m, lambda: f"the recorded basis matrix is {Ab.tolist()}")
    # listed in the order of the given or of the sorted basis
    order = next((o for o in (B, sorted(B)) if np.allclose(Ab.reshape(m, m), A[:, [j - 1 for j in o]], rtol=1e-6, atol=1e-7)), None)
    require(order is not None, lambda: f"the recorded basis matrix is {Ab.tolist()}, the columns {B} of the program are {A[:, [j - 1 for j in B]].tolist()}")
    sub, cb = A[:, [j - 1 for j in order]], c[[j - 1 for j in order]]
    inv = np.linalg.inv(sub)
    big = max(1.0, float(np.abs(inv).max()))
    for h, want in (("Corresponding Coefficient Entries:", cb), ("Basis Inverse:", inv.ravel()), ("y Vector:", inv.T @ cb)):
        g = heads[h]
        tol = 1e-6 * max(1.0, float(np.abs(want).max()) if len(want) else 1.0, big)
        require(len(g) == len(want) and all(abs(a - b) <= tol for a, b in zip(g, want)), lambda: f"{h} {g}, it is {list(want)}")
    r = p.copy()
    r.clear_steps(in_place=True)
    r.to_canonical_form(basis(), show_steps=False, in_place=True)
    require(texts(r) == [], "to_canonical_form recorded steps although it was told not to")


@st.composite
def basis_step_cases(draw):
    case = draw(basis_query())
    case["earlier"] = draw(st.booleans())
    return case


def run_sef(case, ctx):
    p = build(case)
    was = p.is_sef
    c = [float(v) for v in case["c"]]
    q = p.to_sef() if case["earlier"] else p.to_sef(in_place=True)
    ts = texts(q)
    if was:
        require(ts == [], lambda: f"nothing is converted, the steps are {ts}")
        return
    ctx.nontrivial(len(c) > 1)
    require(ts.count("Convert to SEF") == 1, lambda: f"steps of to_sef: {ts}")
    turned = [t for t in ts if " => " in t]
    require(len(turned) == (case["obj"] == "min") == sum(t.startswith("Take Negative") for t in ts), lambda: f"a {case['obj']} program has the steps {ts}")
    for t in turned:
        left, right = t.split(" => ")
        said(left, c, "the objective before")
        said(right, [-v for v in c], "the objective after")
    ctx.label(case["obj"])


@st.composite
def sef_step_cases(draw):
    case = draw(lp_cases(3, 6))
    case["earlier"] = draw(st.booleans())
    return case


C37 = Prop(
    "C37",
    "Generated programs, points and bases with recorded steps: the vectors, bases, matrices and verdicts read back from the text are "
    "compared with what was given, returned, or follows from the data. Non-trivial: at least two pivots (simplex), two variables, two basis "
    "columns.",
    [Sub("simplex", simplex_cases, run_simplex, 2400), Sub("feasible", feasible_cases, run_feasible, 2400), Sub("basis", basis_step_cases, run_basis, 2000),
     Sub("sef", sef_step_cases, run_sef, 1200)],
    ["numbers in step texts have the eight digits numpy prints"],
)
PROPS = [C37]
