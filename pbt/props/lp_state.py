"""C08, C09, C13: programs as objects - purity and aliasing, editing, recorded steps."""
import copy as pycopy
import random as pyrandom

import numpy as np
from hypothesis import strategies as st

from ..core import Prop, Sub, Violation, require
from ..exact import LP, det, rank
from ..lpgen import build, close, lp_cases, model, nums, same_snapshot, snapshot, warm
from .lp_core import exact_dual, same_program

# ------------------------------------------------------------------ C08 purity and aliasing
QUERIES = ["solve", "optimal_value", "two_phase", "simplex", "iteration", "aux", "dual", "to_sef", "copy", "is_feasible",
           "evaluate", "value_of", "is_solution_optimal", "verify", "is_basis", "basic", "canonical", "repr", "steps", "rref",
           "props", "eq", "clear", "cs", "bad_basis", "bad_point", "bad_edit", "infeasible_simplex"]


def call_query(op, p, rng, ints):
    """Runs a read-only operation.  Returns the arguments handed over, with copies taken before the call."""
    n, m = len(p.c), len(p.b)
    x = [float(ints[j % len(ints)]) for j in range(n)]
    y = [float(ints[(j + 1) % len(ints)]) for j in range(m)]
    basis = sorted(set(1 + (abs(ints[j % len(ints)]) + j) % n for j in range(m)))
    if ints[0] % 2:
        basis = basis[::-1]
    xa, ya = (np.array(x), np.array(y)) if ints[-1] % 2 else (list(x), list(y))
    args = [(xa, list(x)), (ya, list(y)), (basis, list(basis))]
    sef = bool(p.is_sef)
    zero = not np.any(np.asarray(p.A))
    try:
        if op == "solve":
            if not zero:
                p.solve()
        elif op == "optimal_value":
            if not zero:
                p.optimal_value()
        elif op == "two_phase":
            if sef and not zero:
                p.two_phase_simplex()
        elif op in ("simplex", "infeasible_simplex"):
            # also from bases that are not feasible: only the program's state is judged here
            if sef and len(basis) == m and p.is_basis(list(basis)):
                if p.is_basis_feasible(list(basis)) == (op == "simplex"):
                    p.simplex(basis)
        elif op == "iteration":
            if sef and len(basis) == m and p.is_basis(list(basis)) and p.is_basis_feasible(list(basis)):
                p.simplex_iteration(basis)
        elif op == "aux":
            if sef:
                p.auxiliary()
        elif op == "dual":
            p.dual()
        elif op == "to_sef":
            p.to_sef()
        elif op == "copy":
            p.copy()
        elif op == "is_feasible":
            p.is_feasible(xa)
        elif op == "evaluate":
            p.evaluate(xa)
        elif op == "value_of":
            try:
                p.value_of(xa)
            except ValueError:
                pass
        elif op == "is_solution_optimal":
            if not zero:
                p.is_solution_optimal(xa)
        elif op == "verify":
            if sef:
                p.verify_infeasibility(ya)
                p.verify_optimality(ya)
                p.verify_unboundedness(xa, xa)
        elif op == "is_basis":
            p.is_basis(basis)
        elif op == "basic":
            if sef and p.is_basis(list(basis)):
                p.compute_basic_solution(basis)
                p.is_basic_solution(xa, basis)
                p.is_feasible_basic_solution(xa, basis)
                p.is_basis_feasible(basis)
        elif op == "canonical":
            if sef and p.is_basis(list(basis)):
                p.to_canonical_form(basis)
                p.is_canonical_form_for(basis)
        elif op == "repr":
            repr(p)
            str(p)
        elif op == "steps":
            p.steps_string
        elif op == "rref":
            p.is_in_rref
            p.to_rref(p.A)
        elif op == "props":
            p.inequalities.append("=")
            p.free_variables.append(99)
            p.negative_variables.append(99)
            p.positive_variables.append(99)
        elif op == "eq":
            p == p.copy()
        elif op == "clear":
            p.clear_steps()
        elif op == "cs":
            p.cs_conditions()
        elif op == "bad_basis":
            bad = list(range(1, m)) + [n + 3]
            args.append((bad, list(bad)))
            for f in (p.compute_basic_solution, p.to_canonical_form, p.simplex, p.simplex_iteration):
                try:
                    f(bad)
                except (ArithmeticError, ValueError, IndexError):
                    pass
        elif op == "bad_point":
            for f in (p.is_feasible, p.evaluate, p.value_of):
                try:
                    f(list(x) + [1.0])
                except ValueError:
                    pass
        elif op == "bad_edit":
            for f in (lambda: p.add_constraint([1.0] * (n + 1), "<=", 1, in_place=True), lambda: p.add_constraint([1.0] * n, "<", 1, in_place=True),
                      lambda: p.add_variable(1, [1.0] * (m + 1), in_place=True), lambda: p.add_variable(1, [1.0] * (m + 1), free=True, in_place=True),
                      lambda: p.add_variable(1, [1.0] * (m + 1), negative=True, in_place=True),
                      lambda: p.add_variable(1, None, free=True, negative=True, in_place=True)):
                try:
                    f()
                except Exception:
                    continue
                raise Violation("an ill-formed edit was accepted")
    except ArithmeticError:
        if op != "infeasible_simplex":
            raise
    for given, was in args:
        require([float(v) for v in given] == [float(v) for v in was], f"{op} changed the argument {was} to {list(given)}")


DERIVE = ["copy", "dual", "to_sef", "add_constraint", "add_variable", "clear_steps", "canonical", "iteration", "aux"]
MUTATE = ["add_constraint", "add_variable", "to_sef", "canonical", "iteration", "clear_steps", "caller"]


def derive(op, p, ints, in_place):
    """Applies op (a new program, or in place).  None when the operation does not apply to this program."""
    n, m = len(p.c), len(p.b)
    basis = sorted(set(1 + (abs(ints[j % len(ints)]) + j) % n for j in range(m)))
    if op == "copy":
        return p.copy()
    if op == "dual":
        return p.dual()
    if op == "aux":
        return p.auxiliary() if p.is_sef else None
    if op == "to_sef":
        return p.to_sef(in_place=in_place)
    if op == "clear_steps":
        return p.clear_steps(in_place=in_place)
    if op == "add_constraint":
        if m >= 7:
            return None
        row = [float(ints[j % len(ints)]) for j in range(n)]
        arg = np.array(row) if ints[0] % 2 else row
        q = p.add_constraint(arg, ["<=", ">=", "="][abs(ints[0]) % 3], float(ints[-1]), in_place=in_place)
        if isinstance(arg, np.ndarray):
            arg *= 0
            arg += 1234.0
        return q
    if op == "add_variable":
        if n >= 9:
            return None
        kind = abs(ints[1 % len(ints)]) % 4
        col = None if kind == 3 else np.array([float(ints[i % len(ints)]) for i in range(m)])
        q = p.add_variable(float(ints[0]), col, free=kind == 1, negative=kind == 2, in_place=in_place)
        if col is not None:
            col += 4321.0
        return q
    if op == "canonical":
        if not (p.is_sef and p.is_basis(list(basis))):
            return None
        return p.to_canonical_form(basis, in_place=in_place)
    if op == "iteration":
        if not (p.is_sef and p.is_basis(list(basis)) and p.is_basis_feasible(list(basis))):
            return None
        return p.simplex_iteration(basis, in_place=in_place)[2]
    raise AssertionError(op)


def texts(p):
    return [str(s["text"]) for s in p.steps]


@st.composite
def purity_cases(draw):
    case = draw(lp_cases(4, 4, styles=["unit", "tiny", "small", "pos", "half"]))
    if draw(st.booleans()):
        case = draw(lp_cases(3, 5, sef=True, styles=["unit", "tiny", "small", "pos", "half"]))
    ops = []
    for _ in range(draw(st.integers(1, 7))):
        kind = draw(st.sampled_from(["query", "query", "query", "derive", "derive", "mutate", "mutate"]))
        op = draw(st.sampled_from({"query": QUERIES, "derive": DERIVE, "mutate": MUTATE}[kind]))
        ops.append([kind, op, draw(st.integers(0, 5)), draw(st.lists(st.integers(-3, 3), min_size=2, max_size=4))])
    case["ops"] = ops
    case["aslist"] = draw(st.booleans())
    case["ip"] = draw(st.integers(0, 4)) == 0
    case["integral"] = draw(st.sampled_from([None, 2, 6, 4, 10, 0]))
    return case


def run_purity(case, ctx):
    from pytimize.programs import IntegerProgram, LinearProgram

    cls = IntegerProgram if case["ip"] else LinearProgram
    own = {k: [list(map(float, r)) for r in case[k]] if k == "A" else [float(v) for v in case[k]] for k in "Abc"}
    if not case["aslist"]:
        own = {k: np.array(v) for k, v in own.items()}
    lists = {k: list(case[k]) for k in ("ineq", "free", "neg")}
    kw = {}
    if case["ip"] and case["integral"] is not None:
        lists["integral"] = [j for j in range(1, len(case["c"]) + 1) if case["integral"] >> j & 1]
        kw["integral_variables"] = lists["integral"]
    p = cls(own["A"], own["b"], own["c"], case["z"], case["obj"], lists["ineq"], lists["free"] or None, lists["neg"] or None, **kw)
    for k in ("ineq", "free", "neg"):
        require(lists[k] == list(case[k]), f"the constructor changed the caller's {k} list to {lists[k]}")
    same_program(p, case, "construction")
    pool = [[p, [snapshot(p), repr(p)], []]]
    derived = 0
    for kind, op, which, ints in case["ops"]:
        entry = pool[which % len(pool)]
        q = entry[0]
        if case["ip"] and op in ("solve", "optimal_value", "is_solution_optimal"):
            continue  # branch and bound may not terminate on unbounded programs; C16 covers it
        if op == "caller":
            # the caller reuses its own buffers
            for k in "Abc":
                if isinstance(own[k], np.ndarray):
                    own[k] *= -3.0
                    own[k] += 7.0
                elif k == "A":
                    for r in own[k]:
                        r[0] = 77.0
                else:
                    own[k][0] = 77.0
            for k in lists:
                lists[k].reverse()
                lists[k].append("=" if k == "ineq" else 50)
        elif kind == "query":
            call_query(op, q, which, ints)
        else:
            ref = q.copy()
            require(texts(ref) == texts(q), lambda: f"the copy's steps are {texts(ref)}, the program's {texts(q)}")
            require(type(ref) is type(q), f"copy() of a {type(q).__name__} is a {type(ref).__name__}")
            if kind == "derive":
                r = derive(op, q, ints, False)
                if r is None:
                    continue
                require(r is not q, f"{op} without in_place returned the program itself")
                derived += 1
                if len(pool) < 6:
                    pool.append([r, [snapshot(r), repr(r)], texts(r)])
            else:
                expected = derive(op, ref, ints, False)  # the copying form, on a copy
                r = derive(op, q, ints, True)
                if r is None:
                    continue
                require(r is q, f"{op}(in_place=True) returned another object")
                derived += 1
                require(same_snapshot(snapshot(expected), snapshot(q)),
                        lambda: f"{op} in place gives {snapshot(q)}, on a copy {snapshot(expected)}")
                entry[1] = [snapshot(q), repr(q)]
        for i, (r, want, _) in enumerate(pool):
            require(same_snapshot(snapshot(r), want[0]), lambda: f"after {kind} {op} on program {which % len(pool)}, program {i} changed from {want[0]} to {snapshot(r)}")
            require(repr(r) == want[1], lambda: f"after {kind} {op} on program {which % len(pool)}, the text of program {i} changed from {want[1]!r} to {repr(r)!r}")
        for i, e in enumerate(pool):
            now, was = texts(e[0]), e[2]
            if e is entry and kind == "mutate" and op == "clear_steps":
                require(now == [], f"clear_steps in place left {len(now)} steps")
            elif e is entry:
                require(now[:len(was)] == was, f"{kind} {op} changed the steps recorded earlier: {was} became {now}")
            else:
                require(now == was, f"{kind} {op} on program {pool.index(entry)} changed the steps of program {i} from {was} to {now}")
            e[2] = now
    ctx.nontrivial(len(case["ops"]) > 1)
    if derived:
        ctx.label("derives")
    ctx.label(*{f"{k}:{o}" for k, o, _, _ in case["ops"]})


C08 = Prop(
    "C08",
    "Histories of 1-7 operations over a program and everything derived from it (read-only calls incl. failing ones, copying and "
    "in-place forms, the caller reusing its own buffers); after every operation every program's full state is compared with what it "
    "must be. Non-trivial: at least two operations.",
    [Sub("history", purity_cases, run_purity, 4000)],
    ["recorded steps may only be appended to, and only by calls on the program itself"],
)


# ---------------------------------------------------------------------------- C09 editing
@st.composite
def edit_cases(draw):
    case = draw(lp_cases(3, 4, styles=["unit", "small", "half", "med"], bare=True))
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        op = draw(st.sampled_from(["con", "con", "var", "var", "badcon", "badvar", "copy", "sef", "clear"]))
        ops.append([op, draw(st.integers(0, 6)), draw(nums("half", 8)), draw(st.booleans()), draw(st.sampled_from(["array", "list"]))])
    case["ops"] = ops
    case["ip"] = draw(st.integers(0, 3)) == 0
    if draw(st.integers(0, 11)) == 7:  # grown from no constraints at all, often from the simplest program of that kind
        case.update(A=[], b=[], ineq=[], age=None)
        if draw(st.booleans()):
            case.update(obj="max", free=[], neg=[])
    return case


def matrix(d):
    return np.array(d["A"], dtype=float) if d["A"] else np.zeros((0, len(d["c"])))


def run_edit(case, ctx):
    from pytimize.programs import IntegerProgram, LinearProgram

    p = build(case, IntegerProgram if case["ip"] else LinearProgram)
    cur = {"A": [list(map(float, r)) for r in case["A"]], "b": list(map(float, case["b"])), "c": list(map(float, case["c"])), "z": case["z"],
           "obj": case["obj"], "ineq": list(case["ineq"]), "free": list(case["free"]), "neg": list(case["neg"])}
    edits = 0
    for op, k, values, in_place, kind in case["ops"]:
        n, m = len(cur["c"]), len(cur["b"])
        if values[1] > 1.5:
            warm(p, few=values[2] > 0)
        k2 = k * 8 + int(2 * abs(values[0])) % 8
        before = pycopy.deepcopy(cur)
        if op == "con":
            row = [float(values[j % 8]) for j in range(n)]
            ineq = ["<=", ">=", "="][k % 3]
            val = float(values[-1])
            q = p.add_constraint(np.array(row) if kind == "array" else row, ineq, int(val) if k == 6 and val == int(val) else val, in_place)
            cur["A"].append(row)
            cur["b"].append(val)
            cur["ineq"].append(ineq)
        elif op == "var":
            col = None if k == 6 else [float(values[i % 8]) for i in range(m)]
            free, neg = k % 3 == 1, k % 3 == 2
            kw = {}
            if free:
                kw["free"] = True
            if neg:
                kw["negative"] = True
            if col is not None:
                kw["column"] = np.array(col) if kind == "array" else col
            if in_place:
                kw["in_place"] = True
            q = p.add_variable(**kw) if k == 6 and not values[0] else p.add_variable(float(values[0]), **kw)
            for i in range(m):
                cur["A"][i].append(col[i] if col is not None else 0.0)
            cur["c"].append(float(values[0]))
            if free:
                cur["free"].append(n + 1)
            if neg:
                cur["neg"].append(n + 1)
        elif op == "badcon":
            bad = [lambda: p.add_constraint([1.0] * (n + 1), "<=", 1.0, in_place), lambda: p.add_constraint([1.0] * (n - 1), "=", 1.0, in_place),
                   lambda: p.add_constraint([1.0] * n, "<", 1.0, in_place), lambda: p.add_constraint([1.0] * n, "==", 1.0, in_place),
                   lambda: p.add_constraint([[1.0] * n], "<=", 1.0, in_place), lambda: p.add_constraint(["a"] * n, "<=", 1.0, in_place),
                   lambda: p.add_constraint(np.ones((1, n)), ">=", 1.0, in_place),
                   lambda: p.add_constraint([1.0] * n, "<=", [1.0, 2.0], in_place), lambda: p.add_constraint([1.0] * n, ">=", None, in_place),
                   lambda: p.add_constraint([1.0] * n, "=", "1", in_place), lambda: p.add_constraint([1.0] * n, ["<="], 1.0, in_place)][k2 % 11]
            reject(bad, "add_constraint")
            q = p
        elif op == "badvar":
            bad = [lambda: p.add_variable(1.0, [1.0] * (m + 1), in_place=in_place), lambda: p.add_variable(1.0, [1.0] * (m + 2), free=True, in_place=in_place),
                   lambda: p.add_variable(1.0, np.ones(m + 1), negative=True, in_place=in_place), lambda: p.add_variable(1.0, None, True, True, in_place),
                   lambda: p.add_variable(1.0, [1.0] * m, True, True, in_place),
                   lambda: p.add_variable([1.0, 2.0], [1.0] * m, free=True, in_place=in_place), lambda: p.add_variable(None, in_place=in_place),
                   lambda: p.add_variable("1", negative=True, in_place=in_place), lambda: p.add_variable(1.0, ["1"] * m or ["1"], negative=True, in_place=in_place),
                   lambda: p.add_variable(1.0, [[1.0]] * m or [[1.0]], free=True, in_place=in_place)][k2 % 10]
            reject(bad, "add_variable")
            q = p
        elif op == "copy":
            q = p.copy()
            require(q is not p, "copy() returned the program itself")
            in_place = False
        elif op == "clear":
            p.is_feasible([0.0] * n)
            q = p.clear_steps(in_place=in_place)
            require(q.steps == [] and q.steps_string == "", f"clear_steps left {q.steps}")
        else:
            if case["ip"]:
                continue
            q = p.to_sef(in_place=in_place)
            A, b, c, _ = LP(cur["A"], cur["b"], cur["c"], cur["z"], cur["obj"], cur["ineq"], [j - 1 for j in cur["free"]], [j - 1 for j in cur["neg"]]).sef()
            cur = {"A": [[float(v) for v in r] for r in A], "b": [float(v) for v in b], "c": [float(v) for v in c], "z": cur["z"], "obj": "max",
                   "ineq": ["="] * len(b), "free": [], "neg": []}
        ctx.label(op)
        if op in ("con", "var", "sef"):
            edits += 1
        if in_place or op.startswith("bad"):
            require(q is p, f"{op} in place returned another object")
        else:
            require(q is not p, f"{op} returned the program itself")
            same_program(p, before, f"original after a copying {op}")
        require(type(q) is type(p), f"{op} turned a {type(p).__name__} into a {type(q).__name__}")
        same_program(q, cur, f"after {op}")
        changed = before != cur
        if changed and q is not p:
            require(not (p == q) or same_data(before, cur), f"programs compare equal across {op}")
        require(bool(q == q.copy()), "a program differs from its copy")
        other = type(q)(matrix(cur), np.array(cur["b"], dtype=float), np.array(cur["c"]), cur["z"], cur["obj"], cur["ineq"], cur["free"] or None, cur["neg"] or None)
        require(bool(q == other) and bool(other == q), "equal programs compare unequal")
        kin = (LinearProgram if case["ip"] else IntegerProgram)(matrix(cur), np.array(cur["b"], dtype=float), np.array(cur["c"]), cur["z"], cur["obj"], cur["ineq"], cur["free"] or None, cur["neg"] or None)
        require(not (q == kin) and not (kin == q), "a linear and an integer program compare equal")
        for thing in (None, 3, "program", [cur["A"]], (1,)):
            require(not (q == thing) and q != thing, f"a program equals {thing!r}")
        rng = pyrandom.Random(f"{k} {values}")
        for t in rng.sample(VARIANTS, 4):
            alt = variant(cur, t, rng)
            if alt is None or alt == cur:
                continue
            other = type(q)(matrix(alt), np.array(alt["b"], dtype=float), np.array(alt["c"]), alt["z"], alt["obj"], alt["ineq"], alt["free"] or None, alt["neg"] or None)
            require(not (q == other) and not (other == q), lambda: f"programs differing in {t} compare equal: {cur} and {alt}")
        p = q
    ctx.nontrivial(edits > 1)


VARIANTS = ["A", "b", "c", "z", "objective", "inequalities", "swapped inequalities", "sign", "swapped signs", "swapped rows", "one row less", "one variable less"]


def variant(cur, t, rng):
    """The same data with one visible difference."""
    alt = pycopy.deepcopy(cur)
    m, n = len(alt["b"]), len(alt["c"])
    by = rng.choice([1, -1, 0.5, 2 ** -6])
    sign = {j: "free" if j in alt["free"] else "neg" if j in alt["neg"] else "pos" for j in range(1, n + 1)}
    if t in ("A", "b", "inequalities", "one row less") and not m or t in ("swapped inequalities", "swapped rows") and m < 2 or t in ("swapped signs", "one variable less") and n < 2:
        return None
    if t == "A":
        alt["A"][rng.randrange(m)][rng.randrange(n)] += by
    elif t == "b":
        alt["b"][rng.randrange(m)] += by
    elif t == "c":
        alt["c"][rng.randrange(n)] += by
    elif t == "z":
        alt["z"] = alt["z"] + by if rng.random() < 0.5 else -alt["z"]
    elif t == "objective":
        alt["obj"] = "min" if alt["obj"] == "max" else "max"
    elif t == "inequalities":
        i = rng.randrange(m)
        alt["ineq"][i] = rng.choice([op for op in ("<=", ">=", "=") if op != alt["ineq"][i]])
    elif t in ("swapped inequalities", "swapped rows"):
        i, j = rng.sample(range(m), 2)
        for k in ("ineq",) if t == "swapped inequalities" else ("A", "b", "ineq"):
            alt[k][i], alt[k][j] = alt[k][j], alt[k][i]
    elif t == "sign":
        j = rng.randint(1, n)
        sign[j] = rng.choice([v for v in ("free", "neg", "pos") if v != sign[j]])
    elif t == "swapped signs":
        i, j = rng.sample(range(1, n + 1), 2)
        sign[i], sign[j] = sign[j], sign[i]
    elif t == "one row less":
        del alt["A"][-1], alt["b"][-1], alt["ineq"][-1]
    elif t == "one variable less":
        alt["A"], alt["c"] = [r[:-1] for r in alt["A"]], alt["c"][:-1]
        del sign[n]
    if "sign" in t or t == "one variable less":
        alt["free"], alt["neg"] = [j for j in sign if sign[j] == "free"], [j for j in sign if sign[j] == "neg"]
        if sorted(alt["free"]) == sorted(cur["free"]) and sorted(alt["neg"]) == sorted(cur["neg"]) and t != "one variable less":
            return None
    return alt


def same_data(a, b):
    return all(a[k] == b[k] for k in a)


def reject(f, what):
    try:
        f()
    except ValueError:
        return
    raise Violation(f"an ill-formed {what} was accepted")


C09 = Prop(
    "C09",
    "Histories of 1-8 edits (constraints, variables of each sign, conversions, copies, cleared steps and ill-formed edits; in place "
    "and copying) replayed on a plain-data model, all data compared after each; equality is checked against copies, rebuilt "
    "programs and one-field variants. Non-trivial: at least two accepted edits.",
    [Sub("edits", edit_cases, run_edit, 3000)],
)


# ---------------------------------------------------------------------------- C13 steps
def run_steps(case, ctx):
    """Every operation gives the same result whether or not its steps are recorded."""
    lp = model(case)
    n, m = lp.n, lp.m
    a, b = build(case), build(case)
    zero = not any(v for r in lp.sef()[0] for v in r)
    results, recorded = [], False
    for k, p in enumerate((a, b)):
        kw = {"show_steps": k == 0}
        out = []
        for op, ints in case["ops"]:
            x = [float(ints[j % len(ints)]) for j in range(n)]
            y = [float(ints[j % len(ints)]) for j in range(m)]
            basis = case["basis"] if "basis" in case else sorted(set(1 + (abs(ints[j % len(ints)]) + j) % n for j in range(m)))
            count, was = len(p.steps), texts(p)
            if ints[0] < 0:  # what a copy records, or clears, is not the program's
                twin = p.copy()
                require(texts(twin) == was, "a copy does not carry the recorded steps")
                twin.is_feasible(x)
                twin.dual()
                require(texts(twin)[:count] == was, "is_feasible dropped recorded steps")
                require(texts(p) == was, f"steps recorded by a copy appear in the program: {texts(p)[count:]}")
                twin.clear_steps(in_place=True)
                require(texts(twin) == [] and twin.steps_string == "", "clear_steps in place kept steps")
                require(texts(p) == was, "clearing the steps of a copy changed the program's")
            if op == "solve" and not zero:
                out.append(p.solve(**kw))
            elif op == "feasible":
                out.append(bool(p.is_feasible(x, **kw)))
            elif op == "sef":
                q = p.to_sef(**kw)
                require(k == 0 or texts(q) == was, lambda: f"to_sef(show_steps=False) recorded {texts(q)[count:]}")
                out.append(snapshot(q))
            elif op == "dual":
                out.append(snapshot(p.dual(**kw)))
            elif p.is_sef and op == "two_phase" and not zero:
                out.append(p.two_phase_simplex(**kw))
            elif p.is_sef and op in ("basic", "canonical", "simplex", "iteration") and p.is_basis(list(basis)):
                if op == "basic":
                    out.append(bool(p.is_basic_solution(x, list(basis), **kw)))
                elif op == "canonical":
                    q = p.to_canonical_form(list(basis), **kw)
                    require(k == 0 or texts(q) == was, lambda: f"to_canonical_form(show_steps=False) recorded {texts(q)[count:]}")
                    out.append(snapshot(q))
                elif p.is_basis_feasible(list(basis)):
                    if op == "simplex":
                        out.append(p.simplex(list(basis), **kw))
                    else:
                        r = p.simplex_iteration(list(basis), **kw)
                        require(k == 0 or texts(r[2]) == was, lambda: f"simplex_iteration(show_steps=False) recorded {texts(r[2])[count:]}")
                        out.append((r[0], r[1], snapshot(r[2])))
            elif p.is_sef and op == "verify":
                out.append((bool(p.verify_optimality(y, **kw)), bool(p.verify_infeasibility(y, **kw)), bool(p.verify_unboundedness(x, x, **kw))))
            require(texts(p)[:count] == was, f"{op} dropped or changed recorded steps")
            if k == 1:
                require(len(p.steps) == count, f"{op}(show_steps=False) recorded {p.steps[count:]}")
            text = p.steps_string
            require(all(s["text"].strip() in text for s in p.steps), "steps_string does not contain the recorded steps")
        results.append(out)
        was, state = texts(p), snapshot(p)
        recorded = recorded or bool(was)
        cleared = p.clear_steps()
        require(cleared.steps == [] and cleared.steps_string == "", "clear_steps() kept steps")
        require(texts(p) == was, "clear_steps() without in_place changed the program's own steps")
        require(same_snapshot(snapshot(cleared), state), "clear_steps() changed the program's data")
        require(p.clear_steps(in_place=True) is p and p.steps == [] and same_snapshot(snapshot(p), state), "clear_steps(in_place=True) did not only clear the steps")
    require(len(results[0]) == len(results[1]), "the operations available depend on recording")
    for (op, _), u, v in zip(case["ops"], *results):
        require(equal_results(u, v), lambda: f"{op}: {u} with steps recorded, {v} without")
    ctx.nontrivial(len(results[0]) > 0)
    ctx.label(*{o for o, _ in case["ops"]})
    if recorded:
        ctx.label("steps recorded")


def equal_results(u, v):
    if isinstance(u, (tuple, list)) and isinstance(v, (tuple, list)):
        return len(u) == len(v) and all(equal_results(s, t) for s, t in zip(u, v))
    if isinstance(u, np.ndarray) or isinstance(v, np.ndarray):
        return u is not None and v is not None and np.array_equal(np.asarray(u), np.asarray(v))
    return u == v


@st.composite
def steps_cases(draw):
    from .lp_solve import basis_cases

    kind = draw(st.sampled_from(["general", "sef", "basis", "basis"]))
    if kind == "basis":
        case = draw(basis_cases(3, 3))
    else:
        case = draw(lp_cases(3, 4, sef=kind == "sef"))
        if draw(st.integers(0, 4)) == 0:  # numbers with more digits than a text shows
            case["c"] = [v + draw(st.sampled_from([0, 1 / 3, 2.0 ** -31, 1e-9])) for v in case["c"]]
    names = ["solve", "feasible", "sef", "dual", "two_phase", "basic", "canonical", "simplex", "iteration", "verify"]
    case["ops"] = [[draw(st.sampled_from(names)), draw(st.lists(st.integers(-2, 3), min_size=2, max_size=4))] for _ in range(draw(st.integers(1, 4)))]
    return case


C13 = Prop(
    "C13",
    "The same 1-4 operations on two equal programs, one recording its steps and one not; results must be identical and the step log "
    "well formed. Non-trivial: at least one operation applied.",
    [Sub("steps", steps_cases, run_steps, 4000)],
)

PROPS = [C08, C09, C13]
