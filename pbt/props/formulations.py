"""C19, C20, C34: formulations (expression algebra and the programs built from it)."""
from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st

from ..core import Prop, Sub, Violation, require
from ..exact import LP
from ..lpgen import close, same_snapshot, snapshot
from .ip import integer_optimum, quietly
from .lp_core import raises, same_program

FINE = [1 / 3, -2 / 7, 0.123456789, 1234.56789012, 1.25e-6, 3e-5, 2 ** 31 + 0.5, -1e7 - 1 / 3, 0.1]
COEFS = [0, 1, -1, 2, -3, 5, 0.5, -2.25, 10, 4.0, 1.0, -7, 0.125, 100]


# the same number in the types a user may hold it in (the value must survive the type)
KINDS = ["", "", "", "", "float", "i64", "i32", "f64", "f32"]


def number(c, kind):
    v = float(c)
    if kind in ("i64", "i32"):
        return getattr(np, "int64" if kind == "i64" else "int32")(int(v)) if v.is_integer() and abs(v) < 2 ** 31 else np.float64(v)
    if kind == "f32":
        return np.float32(v) if float(np.float32(v)) == v else np.float64(v)
    return np.float64(v) if kind == "f64" else v if kind == "float" else c


def lin(module):
    import importlib

    return importlib.import_module(f"pytimize.formulations.{module}")


# --------------------------------------------------------------------------- expression programs
# A case is straight-line code over a pool of values.  Every pool value keeps its exact meaning, so
# operands must never change when they are used.
@st.composite
def codes(draw, max_vars=6, max_ops=14):
    n = draw(st.sampled_from([1, 2, 3, 3, 4, max_vars, 2 * max_vars + 1]))
    ops = []
    fine = draw(st.integers(0, 3)) == 0  # single precision numbers round what they meet, so never with these
    coefs, kinds = (COEFS + FINE, [k for k in KINDS if k != "f32"]) if fine else (COEFS, KINDS)
    for _ in range(draw(st.integers(1, max_ops))):
        k = draw(st.sampled_from(["x", "v", "num", "add", "add", "add", "sub", "sub", "sub", "mul", "rmul", "neg", "pos", "iadd", "isub", "imul", "numadd", "addnum", "numsub", "subnum", "wide"]))
        a, b = draw(st.integers(0, 40)), draw(st.integers(0, 40))
        ops.append([k, a, b, draw(st.sampled_from(coefs)), draw(st.sampled_from(kinds))])
    return {"n": n, "ops": ops}


def evaluate(case, mod, check=True):
    """Returns pool: list of (object, exact coefficients {i: F} with every mentioned variable, exact constant, kind)."""
    n = case["n"]
    vs = mod.variables(n)
    pool = [(v, {i: F(1)}, F(0), "var") for i, v in enumerate(vs)]
    pool += [(mod.x[i + 1], {i: F(1)}, F(0), "eq") for i in range(n)]
    for k, a, b, c, *kind in case["ops"]:
        if not small(pool[-1][1], pool[-1][2]):
            pool.pop()  # beyond what fixed-width numbers hold
        c = number(c, kind[0] if kind else "")
        if k == "x":
            i = a % n
            pool.append((mod.x[i + 1], {i: F(1)}, F(0), "eq"))
            continue
        if k == "v":
            pool.append((vs[a % n], {a % n: F(1)}, F(0), "var"))
            continue
        if k == "num":
            pool.append((c, {}, F(float(c)), "num"))
            continue
        if k == "wide":  # many terms at once
            take = range(a % n, n)
            if b % 3:  # the largest variable first, or in the middle
                take = [*take][::-1] if b % 3 == 1 else [*take[1::2], *take[::2]]
            e, t = 0, {}
            for i in take:
                e = e + (c if i % 2 else i + 1) * vs[i]
                t[i] = F(float(c)) if i % 2 else F(i + 1)
            pool.append((e, t, F(0), "eq"))
            continue
        # any value, or one of the last few
        u, ut, uc, uk = pool[a % len(pool) if a <= 20 else -1 - a % min(4, len(pool))]
        w, wt, wc, wk = pool[b % len(pool) if b <= 20 else -1 - b % min(4, len(pool))]
        if k.startswith("num"):
            k, (u, ut, uc, uk) = k[3:], (c, {}, F(float(c)), "num")
        elif k.endswith("num"):
            k, (w, wt, wc, wk) = k[:3], (c, {}, F(float(c)), "num")
        if k in ("add", "sub", "iadd", "isub"):
            if uk == "num" and wk == "num":
                continue
            s = 1 if k in ("add", "iadd") else -1
            if k == "add":
                r = u + w
            elif k == "sub":
                r = u - w
            else:
                r = u
                if k == "iadd":
                    r += w
                else:
                    r -= w
            t = {i: ut.get(i, F(0)) + s * wt.get(i, F(0)) for i in set(ut) | set(wt)}
            pool.append((r, t, uc + s * wc, "eq"))
        elif uk == "num":
            continue
        elif k in ("mul", "rmul", "imul"):
            if k == "mul":
                r = u * c
            elif k == "rmul":
                r = c * u
            else:
                r = u
                r *= c
            pool.append((r, {i: v * F(float(c)) for i, v in ut.items()}, uc * F(float(c)), "eq"))
        elif k == "neg":
            pool.append((-u, {i: -v for i, v in ut.items()}, -uc, "eq"))
        else:
            pool.append((+u, dict(ut), uc, "eq"))
    return pool


def small(t, c):
    return all(abs(v) < 10 ** 9 for v in list(t.values()) + [c])


def noise(pool):
    """Rounding of double precision sums of the size that occurs in the pool."""
    return 1e-14 * float(max([abs(v) for e in pool for v in list(e[1].values()) + [e[2]] if small(e[1], e[2])], default=0))


def row_is(row, t, n, what, extra=0.0):
    row = [float(v) for v in np.asarray(row, dtype=float).ravel()]
    top = max([i for i, v in t.items() if v] + [-1]) + 1
    require(top <= len(row), lambda: f"{what}: only {len(row)} coefficients, variable x{top} occurs")
    for i, v in enumerate(row):
        require(abs(v - float(t.get(i, 0))) <= 1e-9 * (1 + abs(v)) + extra, lambda: f"{what}: x{i + 1} has coefficient {v}, expected {float(t.get(i, 0))}")


def near(a, b, extra=0.0):
    return abs(float(a) - float(b)) <= 1e-9 * (1 + abs(float(b))) + extra


def run_code(case, ctx):
    mod = lin("integer" if case["integer"] else "linear")
    pool = [e for e in evaluate(case, mod)]
    n, e0 = case["n"], noise(pool)
    ctx.nontrivial(len(pool) > 2 * n + 2)
    for i, (e, t, c, kind) in enumerate(pool):
        if kind == "num" or not small(t, c):
            continue
        eq = e if kind == "eq" else e + 0
        o = (mod.maximize if i % 2 else mod.minimize)(eq)
        require(o.objective == ("max" if i % 2 else "min"), f"objective {o.objective}")
        require(near(o.constant, c, e0), lambda: f"expression {i}: constant {o.constant}, expected {float(c)}")
        got = o.coefficients
        row_is([] if got is None else got, t, n, f"expression {i}", e0)
    # constraints between any two pool values, and their program
    cons, want = [], []
    for a, b, op in case["cons"]:
        u, ut, uc, uk = pool[a % len(pool)]
        w, wt, wc, wk = pool[b % len(pool)]
        if uk == "num" and wk == "num" or not (small(ut, uc) and small(wt, wc)):
            continue
        if op != "=" and (uk == "var" and wk == "num" and wc == 0 or wk == "var" and uk == "num" and uc == 0):
            continue  # a sign constraint, not a row
        t = {i: ut.get(i, F(0)) - wt.get(i, F(0)) for i in set(ut) | set(wt)}
        if not any(t.values()):
            continue
        cons.append(u <= w if op == "<=" else u >= w if op == ">=" else u == w)
        # int <= expression is answered by the expression's >=
        flip = uk == "num"
        want.append((t, wc - uc, op, flip))
    if not cons:
        return
    obj = [e for e in pool if e[3] != "num" and small(e[1], e[2])]
    e, t0, c0, kind = obj[case["obj"] % len(obj)]
    f = (mod.maximize if case["max"] else mod.minimize)(e + 0 if kind == "var" else e).subject_to(*cons)
    p = f.program
    require(len(p.inequalities) == len(cons) and np.asarray(p.A).shape[0] == len(cons), f"{len(cons)} constraints became {np.asarray(p.A).shape[0]} rows")
    row_is(p.c, t0, n, "objective", e0)
    require(near(p.z, c0, e0), f"objective constant {p.z}, expected {float(c0)}")
    require(p.objective == ("max" if case["max"] else "min"), f"objective {p.objective}")
    rev = {"<=": ">=", ">=": "<=", "=": "="}
    for i, (t, k, op, flip) in enumerate(want):
        got = [float(v) for v in p.A[i]]
        # either side may be moved: the row must describe the same half-space
        s = 1
        if p.inequalities[i] == rev[op] and op != "=" or op == "=" and flip:
            lead = max(t, key=lambda j: abs(t[j]))  # never a rounding residue
            s = 1 if lead < len(got) and got[lead] * float(t[lead]) > 0 else -1
        want_op = op if s == 1 else rev[op]
        require(p.inequalities[i] == want_op, lambda: f"row {i}: {p.inequalities[i]}, expected {want_op}")
        row_is([s * v for v in got], t, n, f"row {i}", e0)
        require(near(s * float(p.b[i]), k, e0), lambda: f"row {i}: right side {s * float(p.b[i])}, expected {float(k)}")
    ctx.label(f"{min(len(cons), 4)} rows")
    # nothing above may have changed any operand
    for i, (e, t, c, kind) in enumerate(pool):
        if kind == "eq" and small(t, c):
            o = mod.minimize(e)
            require(near(o.constant, c, e0), lambda: f"expression {i} changed: constant {o.constant}, was {float(c)}")
            row_is([] if o.coefficients is None else o.coefficients, t, n, f"expression {i} after use", e0)


@st.composite
def code_cases(draw):
    case = draw(codes())
    case["cons"] = draw(st.lists(st.tuples(st.integers(0, 60), st.integers(0, 60), st.sampled_from(["<=", ">=", "="])).map(list), max_size=6))
    case["obj"] = draw(st.integers(0, 60))
    case["max"] = draw(st.booleans())
    case["integer"] = draw(st.booleans())
    return case


BAD = ["str", "none", "list", "self", "var", "dict", "complex", "tuple"]


def run_unsupported(case, ctx):
    mod = lin("linear")
    pool = [e for e in evaluate(case, mod) if e[3] != "num" and small(e[1], e[2])]
    e, t, c, kind = pool[case["pick"] % len(pool)]
    other = {"str": "2", "none": None, "list": [1, 2], "self": mod.x[1] + 1, "var": mod.variables(2)[1], "dict": {}, "complex": 1j, "tuple": (1,)}[case["bad"]]
    op = case["op"]
    ctx.label(op, case["bad"], kind)
    ctx.nontrivial()
    if op in ("mul", "rmul"):
        if case["bad"] == "complex":
            return
        raises((TypeError, ValueError), (lambda: e * other) if op == "mul" else (lambda: other * e), f"{op} of an expression and {other!r}")
    elif case["bad"] in ("self", "var", "complex"):
        return
    elif op in ("add", "radd"):
        raises((TypeError, ValueError), (lambda: e + other) if op == "add" else (lambda: other + e), f"{op} of an expression and {other!r}")
    elif op in ("sub", "rsub"):
        raises((TypeError, ValueError), (lambda: e - other) if op == "sub" else (lambda: other - e), f"{op} of an expression and {other!r}")
    else:
        i = case["pick"] % 4
        raises((ValueError,), lambda: mod.x[-i], f"x[{-i}]")
        k = [1, -1, 0.5, 7][i]
        raises((ValueError,), (lambda: mod.x >= k) if case["bad"] in ("str", "none") else (lambda: mod.x <= k), f"x compared with {k}")
        return
    if kind == "eq":
        o = mod.minimize(e)
        require(close(o.constant, c, 1e-9), "a refused operation changed its operand")
        row_is([] if o.coefficients is None else o.coefficients, t, case["n"], "expression after a refused operation")


@st.composite
def bad_cases(draw):
    case = draw(codes(4, 6))
    case.update(pick=draw(st.integers(0, 30)), bad=draw(st.sampled_from(BAD)), op=draw(st.sampled_from(["mul", "rmul", "add", "radd", "sub", "rsub", "index"])))
    return case


C19 = Prop(
    "C19",
    "Random straight-line code over variables, x[i], numbers and earlier results (+, -, scalar *, unary, augmented), each result tracked "
    "by exact coefficients; objectives and constraints between any two results are read back as program data, and every operand is read "
    "again at the end. Non-trivial: at least two operations produced a result; refused operand kinds.",
    [Sub("algebra", code_cases, run_code, 6000), Sub("unsupported", bad_cases, run_unsupported, 600)],
)


# ------------------------------------------------------------------- C20 / C34 programs and where()
@st.composite
def flow_cases(draw):
    large = draw(st.integers(0, 7)) == 0  # more variables than one digit counts
    n = draw(st.integers(6, 14)) if large else draw(st.integers(1, 5))
    m = draw(st.integers(1, 9)) if large else draw(st.integers(1, 4))
    row = st.lists(st.sampled_from([0, 0, 1, -1, 2, -3, 0.5, 4]), min_size=n, max_size=n)
    rows = [draw(row) for _ in range(m)]
    for r in rows:
        if not any(r):
            r[draw(st.integers(0, n - 1))] = draw(st.sampled_from([1, -2]))
    # every fourth case carries values that no rounding leaves alone
    fine = draw(st.integers(0, 3)) == 0
    for r in rows if fine else []:
        r[draw(st.integers(0, n - 1))] = draw(st.sampled_from(FINE))
    side = FINE if fine else [0, 1, -2, 3, 4.5, 10]
    actions = draw(st.lists(st.one_of(
        st.tuples(st.just("where"), st.lists(st.tuples(st.sampled_from(["+", "-", "+", "-", "x+", "x-", "0<", "0>"]), st.integers(0, n - 1)).map(list), min_size=1, max_size=4)),
        st.tuples(st.sampled_from(["allpos", "allneg", "read", "read", "repr", "solve", "dual"]), st.just(0))).map(list), max_size=6))
    return {"n": n, "A": rows, "left": draw(st.lists(st.sampled_from([0, 0, 1, -2, 3.5]), min_size=m, max_size=m)),
            "b": draw(st.lists(st.sampled_from(side), min_size=m, max_size=m)), "fine": fine,
            "right": [draw(row) if draw(st.integers(0, 3)) == 0 else [0] * n for _ in range(m)],
            "ineq": draw(st.lists(st.sampled_from(["<=", ">=", "="]), min_size=m, max_size=m)),
            "c": draw(row), "z": draw(st.sampled_from(FINE if fine else [0, 17, -2.5])), "obj": draw(st.sampled_from(["max", "min"])),
            "const_obj": draw(st.sampled_from([False] * 9 + [True])), "by": draw(st.sampled_from(["v", "x"])),
            "integer": draw(st.booleans()), "actions": actions, "kinds": draw(st.lists(st.sampled_from(KINDS), min_size=2, max_size=3)), "sef": draw(st.booleans()), "again": draw(st.sampled_from([-1] * 9 + [0, 1, 2]))}


def linear_sum(terms, const, kind=""):
    const, out = number(const, kind), None
    for k, v in terms:
        if k == 0:
            continue
        t = number(k, kind) * v
        out = t if out is None else out + t
    if out is None:
        return const
    return out + const if const else out


def run_flow(case, ctx):
    flow(case, ctx, lin("integer" if case["integer"] else "linear"))


def flow(case, ctx, mod, only_integer=False):
    from pytimize.programs import IntegerProgram, LinearProgram

    n = case["n"]
    kinds = case.get("kinds") or ["", ""]
    vs = mod.variables(n)
    names = vs if case["by"] == "v" else [mod.x[i + 1] for i in range(n)]
    cons, A, b, ineq = [], [], [], []
    for k, (r, right, l, q, op) in enumerate(zip(case["A"], case["right"], case["left"], case["b"], case["ineq"])):
        net = [p - s for p, s in zip(r, right)]
        if not any(net):
            continue
        lhs = linear_sum(zip(r, names), l, kinds[len(cons) % len(kinds)])
        rhs = linear_sum(zip(right, names), q, kinds[-1 - len(cons) % len(kinds)])
        cons.append(lhs <= rhs if op == "<=" else lhs >= rhs if op == ">=" else lhs == rhs)
        A.append(net)
        b.append(q - l)
        ineq.append(op)
        if case.get("again") == k:  # one constraint may be stated twice
            cons.append(cons[0]), A.append(A[0]), b.append(b[0]), ineq.append(ineq[0])
    if not cons:
        return
    c = [0] * n if case["const_obj"] else case["c"]
    objective = linear_sum(zip(c, names), case["z"], kinds[1])
    f = (mod.maximize if case["obj"] == "max" else mod.minimize)(objective).subject_to(*cons)
    mentioned = [j for j in range(n) if c[j] or any(r[j] or s[j] for r, s in zip(case["A"], case["right"]))]
    # variables beyond the last one used do not exist in the program
    got = np.asarray(f.program.c).shape[0]
    used = max([j for j in range(n) if c[j] or any(r[j] for r in A)] + [-1]) + 1
    require(used <= got <= max(mentioned) + 1, f"the program has {got} variables, the formulation uses x1..x{used}")
    N = got
    pos, neg = set(), set()

    def expected():
        # signs of variables that do not occur in the program change nothing
        return {"A": [r[:N] for r in A], "b": b, "c": list(c[:N]), "z": case["z"], "obj": case["obj"], "ineq": ineq,
                "free": [j + 1 for j in range(N) if j not in pos and j not in neg], "neg": sorted(j + 1 for j in neg if j < N)}

    def check(what):
        p = f.program
        require(type(p) is (IntegerProgram if case["integer"] else LinearProgram), f"{what}: program is a {type(p).__name__}")
        same_program(p, expected(), what)
        if case["fine"] or len(case["actions"]) % 2:
            same_program(f, expected(), f"attributes of the formulation {what}")
        return p

    check("after subject_to")
    for kind, arg in case["actions"]:
        if kind == "where":
            args, P, M, bad = [], [], [], False
            for s, j in arg:
                zero = number(0, kinds[0])
                if s in ("+", "0<"):
                    args.append(vs[j] >= zero if s == "+" else zero <= vs[j])
                    P.append(j)
                elif s in ("-", "0>"):
                    args.append(vs[j] <= zero if s == "-" else zero >= vs[j])
                    M.append(j)
                elif s == "x+":
                    args.append(mod.x >= zero)
                    P.extend(range(N))
                else:
                    args.append(mod.x <= zero)
                    M.extend(range(N))
            allp, allm = sorted(pos) + P, sorted(neg) + M
            bad = len(set(allp)) < len(allp) or len(set(allm)) < len(allm) or bool(set(allp) & set(allm))
            if bad:
                raises((ValueError,), lambda: f.where(*args), f"where({arg}) with {sorted(pos)} >= 0 and {sorted(neg)} <= 0")
                check(f"after the rejected where({arg})")
                ctx.label("rejected where")
            else:
                require(f.where(*args) is f, "where() does not return the formulation")
                pos, neg = set(allp), set(allm)
                check(f"after where({arg})")
                ctx.label("where")
        elif kind in ("allpos", "allneg"):
            g = f.whereAllPositive if kind == "allpos" else f.whereAllNegative
            if pos or neg:
                raises((ValueError,), g, f"{kind} with constrained variables")
            else:
                require(g() is f, f"{kind} does not return the formulation")
                if kind == "allpos":
                    pos = set(range(N))
                else:
                    neg = set(range(N))
                ctx.label(kind)
            check(f"after {kind}")
        elif kind == "repr":
            require(repr(f) == repr(f.program) == str(f), "the formulation's text is not its program's")
        elif kind == "dual" and not case["integer"]:
            require(same_snapshot(snapshot(f.dual()), snapshot(check("before dual").dual())), "dual() is not the program's")
        elif kind == "solve":
            if N <= 3 and not case["fine"] and any(v for r in A for v in r):
                lp = check("before solve")
                if not case["integer"]:
                    u, w = f.solve(), lp.copy().solve()
                    require((u is None) == (w is None) and (u is None or np.allclose(u, w)), f"solve() gives {u}, the program's solve() {w}")
        else:
            p = check("read")
            require(np.array_equal(f.A, p.A) and list(f.inequalities) == list(p.inequalities) and f.z == p.z, "attributes are not the program's")
    ctx.nontrivial(len(cons) > 1 and any(a[0] != "read" for a in case["actions"]))
    if case["sef"]:
        before = check("before to_sef").copy()
        f.to_sef(in_place=True)
        require(f.is_sef, "to_sef(in_place=True) through the formulation had no effect")
        require(same_snapshot(snapshot(f.program), snapshot(before.to_sef())), "to_sef(in_place=True) through the formulation differs from to_sef()")


C20 = Prop(
    "C20",
    "Random formulations (terms on both sides, constants on both sides, objective-only and unused variables) followed by histories of "
    "where, whereAllPositive/Negative, reads and queries, valid and contradictory; after every step the program is compared with exact "
    "expected data. Non-trivial: at least two rows and one action other than reading.",
    [Sub("flow", flow_cases, run_flow, 4000)],
)


# ------------------------------------------------------------------------- C34 integer formulations
@st.composite
def int_cases(draw):
    n = draw(st.integers(1, 3))
    m = draw(st.integers(1, 3))
    return {"n": n, "A": [draw(st.lists(st.integers(-5, 7), min_size=n, max_size=n)) for _ in range(m)],
            "b": draw(st.lists(st.integers(0, 20), min_size=m, max_size=m)), "ineq": [draw(st.sampled_from(["<=", "<=", ">="])) for _ in range(m)],
            "c": draw(st.lists(st.integers(-9, 9), min_size=n, max_size=n)), "z": draw(st.sampled_from([0, 2.5])),
            "box": draw(st.lists(st.sampled_from([1, 2, 3, 2.5]), min_size=n, max_size=n)), "obj": draw(st.sampled_from(["max", "min"])),
            "signs": draw(st.lists(st.sampled_from([0, 0, 1, 2]), min_size=n, max_size=n)), "style": draw(st.sampled_from(["v", "x"]))}


def run_integer(case, ctx):
    from pytimize.programs import IntegerProgram

    mod = lin("integer")
    n = case["n"]
    vs = mod.variables(n)
    names = vs if case["style"] == "v" else [mod.x[i + 1] for i in range(n)]
    A, b, ineq, cons = [], [], [], []

    def add(row, op, q):
        if not any(row):
            return
        lhs = linear_sum(zip(row, names), 0)
        if not hasattr(lhs, "terms") and q == 0 and op != "=":
            lhs = lhs + 0
        cons.append(lhs <= q if op == "<=" else lhs >= q)
        A.append(row), b.append(q), ineq.append(op)

    for r, op, q in zip(case["A"], case["ineq"], case["b"]):
        add(r, op, q)
    for j in range(n):
        unit = [1 if k == j else 0 for k in range(n)]
        if case["signs"][j] != 2:
            add(unit, "<=", case["box"][j])
        if case["signs"][j] != 0:
            add(unit, ">=", -case["box"][j])
    f = (mod.maximize if case["obj"] == "max" else mod.minimize)(linear_sum(zip(case["c"], names), case["z"])).subject_to(*cons)
    signs = [vs[j] >= 0 if s == 0 else vs[j] <= 0 for j, s in enumerate(case["signs"]) if s != 1]
    if signs:
        f = f.where(*signs)
    require(type(f.program) is IntegerProgram, f"the program is a {type(f.program).__name__}")
    data = {"A": A, "b": b, "c": case["c"], "z": case["z"], "obj": case["obj"], "ineq": ineq, "integral": None,
            "free": [j + 1 for j in range(n) if case["signs"][j] == 1], "neg": [j + 1 for j in range(n) if case["signs"][j] == 2]}
    same_program(f.program, data, "integer formulation")
    status, value = integer_optimum(data)
    ctx.label(status)
    if status not in ("optimal", "infeasible"):
        return
    x = quietly(f.solve)
    require((x is None) == (status != "optimal"), lambda: f"solve() = {x}, the integer problem is {status}")
    if x is None:
        return
    require(all(abs(v - round(v)) < 1e-6 for v in x), f"solve() = {x} is not integral")
    lp = LP(A, b, case["c"], case["z"], case["obj"], ineq, [j - 1 for j in data["free"]], [j - 1 for j in data["neg"]])
    r = [F(round(v)) for v in x]
    require(lp.feasible(r), f"solve() = {x} is infeasible")
    require(lp.value(r) == value, f"solve() = {x} has value {float(lp.value(r))}, the optimum is {float(value)}")
    require(close(f.optimal_value(), value), f"optimal_value() = {f.optimal_value()}, the optimum is {float(value)}")
    half = [float(v) for v in r]
    half[0] += 0.5
    require(not f.is_feasible(half), f"is_feasible accepts the fractional {half}")
    ctx.nontrivial(n > 1)


C34 = Prop(
    "C34",
    "Bounded integer programs written as integer formulations (variables or x[i], all sign kinds); the compiled program, its type, its "
    "optimum (against exhaustive enumeration) and its refusal of fractional points. Non-trivial: an optimum exists and n > 1.",
    [Sub("integer", int_cases, run_integer, 500, steps=40_000_000)],
)

PROPS = [C19, C20, C34]
