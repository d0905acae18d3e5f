"""Exact rational linear algebra and a self-certifying exact LP solver (the reference model).

Nothing here imports the code under test.  Every answer of `solve_lp` is certified inside this
module with exact arithmetic before it is returned (weak duality / Farkas / improving ray), so a
mistake in the reference shows up as a harness error, never as a finding.
"""
from fractions import Fraction as F


class OracleError(Exception):
    """The reference model contradicted itself: a harness defect."""


def fr(v):
    return F(v) if not isinstance(v, F) else v


def vec(v):
    return [F(x) for x in v]


def mat(A):
    return [[F(x) for x in r] for r in A]


def dot(a, b):
    return sum((x * y for x, y in zip(a, b) if x and y), F(0))


def matvec(A, x):
    return [dot(r, x) for r in A]


def transpose(A, ncols=None):
    if not A:
        return [[] for _ in range(ncols or 0)]
    return [list(c) for c in zip(*A)]


def rref(A):
    """Reduced row echelon form; returns (R, pivot columns)."""
    R = [list(r) for r in A]
    m = len(R)
    n = len(R[0]) if m else 0
    piv = []
    r = 0
    for c in range(n):
        p = next((i for i in range(r, m) if R[i][c] != 0), None)
        if p is None:
            continue
        R[r], R[p] = R[p], R[r]
        k = R[r][c]
        R[r] = [v / k for v in R[r]]
        for i in range(m):
            if i != r and R[i][c] != 0:
                f = R[i][c]
                R[i] = [a - f * b for a, b in zip(R[i], R[r])]
        piv.append(c)
        r += 1
        if r == m:
            break
    return R, piv


def rank(A):
    if not A or not A[0]:
        return 0
    return len(rref(A)[1])


def det(A):
    A = [list(r) for r in A]
    n = len(A)
    d = F(1)
    for c in range(n):
        p = next((i for i in range(c, n) if A[i][c] != 0), None)
        if p is None:
            return F(0)
        if p != c:
            A[c], A[p] = A[p], A[c]
            d = -d
        d *= A[c][c]
        for i in range(c + 1, n):
            if A[i][c]:
                f = A[i][c] / A[c][c]
                A[i] = [a - f * b for a, b in zip(A[i], A[c])]
    return d


def solve_square(A, b):
    """Solve A x = b exactly; None if singular."""
    n = len(A)
    M = [list(r) + [v] for r, v in zip(A, b)]
    R, piv = rref(M)
    if piv[:n] != list(range(n)):
        return None
    return [R[i][n] for i in range(n)]


class LP:
    """objective {c x + z : A x ineq b, sign constraints}; free/neg are 0-based index sets."""

    def __init__(self, A, b, c, z=0, obj="max", ineq=None, free=(), neg=()):
        self.A, self.b, self.c, self.z = mat(A), vec(b), vec(c), F(z)
        self.obj = obj
        self.ineq = list(ineq) if ineq is not None else ["="] * len(self.b)
        self.free, self.neg = set(free), set(neg)
        self.m, self.n = len(self.b), len(self.c)

    def value(self, x):
        return dot(self.c, x) + self.z

    def slack(self, x):
        """Exact worst violation (0 if feasible) of the exact point x."""
        worst = F(0)
        for j, v in enumerate(x):
            if j in self.free:
                continue
            worst = max(worst, v if j in self.neg else -v)
        for row, q, op in zip(self.A, self.b, self.ineq):
            d = dot(row, x) - q
            worst = max(worst, abs(d) if op == "=" else (d if op == "<=" else -d))
        return worst

    def feasible(self, x):
        return self.slack(x) == 0

    def sef(self):
        """Equality form (max, x>=0). Returns (A, b, c, back) with back(xs) the original point."""
        cols, cost, kind = [], [], []
        sgn = 1 if self.obj == "max" else -1
        for j in range(self.n):
            col = [r[j] for r in self.A]
            if j in self.neg:
                cols.append([-v for v in col])
                cost.append(-sgn * self.c[j])
                kind.append((j, -1))
            else:
                cols.append(col)
                cost.append(sgn * self.c[j])
                kind.append((j, 1))
                if j in self.free:
                    cols.append([-v for v in col])
                    cost.append(-sgn * self.c[j])
                    kind.append((j, -1))
        for i, op in enumerate(self.ineq):
            if op != "=":
                cols.append([F((1 if op == "<=" else -1) if k == i else 0) for k in range(self.m)])
                cost.append(F(0))
                kind.append((None, 0))
        A = [[cols[k][i] for k in range(len(cols))] for i in range(self.m)]

        def back(xs):
            x = [F(0)] * self.n
            for (j, s), v in zip(kind, xs):
                if j is not None:
                    x[j] += s * v
            return x

        return A, list(self.b), cost, back


def solve_sef(A, b, c):
    """Exact two-phase simplex with Bland's rule on max{cx : Ax=b, x>=0}.

    Returns ("optimal", x, y) | ("unbounded", x, d) | ("infeasible", y); self-certified.
    y is for the ORIGINAL rows (redundant rows allowed).
    """
    m, n = len(b), len(c)
    sg = [1 if v >= 0 else -1 for v in b]
    # tableau: [A | I | b] on sign-normalised rows; artificial block carries B^-1 along
    T = [[sg[i] * v for v in A[i]] + [F(1 if k == i else 0) for k in range(m)] + [sg[i] * b[i]] for i in range(m)]
    basis = list(range(n, n + m))

    def price(cost):
        red = list(cost) + [F(0)] if len(cost) == n + m else cost
        for i, bi in enumerate(basis):
            cb = cost[bi]
            if cb:
                red = [r - cb * t for r, t in zip(red, T[i])]
        return red

    def pivot(r, k):
        p = T[r][k]
        T[r] = [v / p for v in T[r]]
        for i in range(m):
            if i != r and T[i][k]:
                f = T[i][k]
                T[i] = [a - f * q for a, q in zip(T[i], T[r])]
        basis[r] = k

    def run(cost, allowed):
        red = price(cost)
        while True:
            k = next((j for j in range(allowed) if red[j] > 0), None)
            if k is None:
                return red, None
            best = None
            for i in range(m):
                if T[i][k] > 0:
                    q = (T[i][-1] / T[i][k], basis[i], i)
                    if best is None or q < best:
                        best = q
            if best is None:
                return red, k
            pivot(best[2], k)
            f = red[k]
            red = [a - f * q for a, q in zip(red, T[best[2]])]

    phase1 = [F(0)] * n + [F(-1)] * m
    red, k = run(phase1, n + m)
    if k is not None:
        raise OracleError("phase one unbounded")
    val = -sum((T[i][-1] for i in range(m) if basis[i] >= n), F(0))
    if val < 0:
        # reduced cost of artificial i is -1 - y_i  => y_i = -1 - red
        y = [sg[i] * (-1 - red[n + i]) for i in range(m)]
        yA = [dot(y, [A[i][j] for i in range(m)]) for j in range(n)]
        if not (all(v >= 0 for v in yA) and dot(y, b) < 0):
            raise OracleError("farkas certificate invalid")
        return ("infeasible", y)
    for i in range(m):  # drive artificials out where possible
        if basis[i] >= n:
            k = next((j for j in range(n) if T[i][j] != 0), None)
            if k is not None:
                pivot(i, k)
    cost = list(c) + [F(0)] * m
    red, k = run(cost, n)
    x = [F(0)] * n
    for i, bi in enumerate(basis):
        if bi < n:
            x[bi] = T[i][-1]
        elif T[i][-1] != 0:
            raise OracleError("artificial left at nonzero level")
    if any(v < 0 for v in x) or matvec(A, x) != list(b):
        raise OracleError("primal point infeasible")
    if k is not None:
        d = [F(0)] * n
        d[k] = F(1)
        for i, bi in enumerate(basis):
            if bi < n:
                d[bi] -= T[i][k]
        if any(v < 0 for v in d) or any(matvec(A, d)) or dot(c, d) <= 0:
            raise OracleError("ray invalid")
        return ("unbounded", x, d)
    y = [sg[i] * -red[n + i] for i in range(m)]
    yA = [dot(y, [A[i][j] for i in range(m)]) for j in range(n)]
    if any(p < q for p, q in zip(yA, c)) or dot(y, b) != dot(c, x):
        raise OracleError("dual certificate invalid")
    return ("optimal", x, y)


def solve_lp(lp):
    """Returns (status, value, x): exact optimum of a general LP."""
    A, b, c, back = lp.sef()
    r = solve_sef(A, b, c)
    if r[0] == "infeasible":
        return ("infeasible", None, None)
    x = back(r[1])
    if not lp.feasible(x):
        raise OracleError("mapped point infeasible")
    if r[0] == "unbounded":
        return ("unbounded", None, x)
    return ("optimal", lp.value(x), x)
