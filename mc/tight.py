"""Exact linear relaxation of the route-covering problem and the "tight" test.

A tight instance is one on which *any* converged exact column generation followed by
integer programming over the generated columns must return the true optimum, whatever
the order in which it generates columns or breaks ties:

  * the covering LP over every feasible elementary route has the same value as the
    integer optimum, and
  * for some optimal integer solution, each of its columns is indispensable: without the
    cheapest routes of that (customer set, vehicle type), the LP value increases by more than
    MARGIN (more than the pricing tolerance of the code can hide).

Everything is rational arithmetic (Fractions); nothing here imports vrpy.
"""
from fractions import Fraction as F

MARGIN = F(3, 250)  # the pricing tolerance (0.001) per customer, with room to spare


def lp_max(c, A, b):
    """max c.x st A x <= b, x >= 0 with b >= 0 (exact). Returns (value, x) or None if unbounded."""
    m, n = len(A), len(c)
    T = [list(map(F, A[i])) + [F(1) if j == i else F(0) for j in range(m)] + [F(b[i])] for i in range(m)]
    z = [-F(x) for x in c] + [F(0)] * m + [F(0)]
    basis = [n + i for i in range(m)]
    it = 0

    def result():
        x = [F(0)] * n
        for i, j in enumerate(basis):
            if j < n:
                x[j] = T[i][-1]
        return z[-1], x

    while True:
        it += 1
        # Dantzig first, Bland after a while (anti-cycling)
        if it < 60:
            e = min(range(n + m), key=lambda j: z[j])
            if z[e] >= 0:
                return result()
        else:
            e = next((j for j in range(n + m) if z[j] < 0), None)
            if e is None:
                return result()
        r, best = None, None
        for i in range(m):
            if T[i][e] > 0:
                q = T[i][-1] / T[i][e]
                if best is None or q < best or (q == best and basis[i] < basis[r]):
                    best, r = q, i
        if r is None:
            return None
        p = T[r][e]
        if p != 1:
            T[r] = [x / p for x in T[r]]
        Tr = T[r]
        for i in range(m):
            f = T[i][e]
            if i != r and f:
                T[i] = [x - f * y if y else x for x, y in zip(T[i], Tr)]
        f = z[e]
        if f:
            z = [x - f * y if y else x for x, y in zip(z, Tr)]
        basis[r] = e


def lp_max_lazy(c, A, b):
    """lp_max with rows added only when they are violated (same value, exact)."""
    if len(A) <= 24:
        r = lp_max(c, A, b)
        return None if r is None else r[0]
    # a row for each variable that bounds it, if there is one
    rows = []
    for j in range(len(c)):
        cand = [i for i in range(len(A)) if A[i][j] > 0 and all(x >= 0 for x in A[i])]
        if cand:
            i = min(cand, key=lambda i: (sum(1 for x in A[i] if x), b[i]))
            if i not in rows:
                rows.append(i)
    while True:
        r = lp_max(c, [A[i] for i in rows], [b[i] for i in rows])
        if r is None:
            r = lp_max(c, A, b)
            return None if r is None else r[0]
        x = r[1]
        slack = [(b[i] - sum(a * y for a, y in zip(A[i], x) if a and y), i) for i in range(len(A))]
        bad = sorted(t for t in slack if t[0] < 0)[:6]
        if not bad:
            return r[0]
        rows += [i for _, i in bad]


class Relaxation:
    """Covering LP of a ref.Model over given (set, type) -> cost columns."""

    def __init__(self, M):
        self.M = M
        self.freq = [M.N[v]["frequency"] if M.periodic else 1 for v in M.customers]
        self.nveh = M.nveh if (M.nveh and not M.periodic) else None
        self.eq = bool(M.use_all and self.nveh)

    def value(self, cols):
        """cols: list of (frozenset, type, cost). Drop columns are added when allowed."""
        M = self.M
        cust = M.customers
        nv = len(cust)
        # dual variables: cover (>=0, or split free if eq), fleet mu (rhs -m, >=0, or split)
        kf = M.K if self.nveh else 0
        c, signs = [], []
        for i in range(nv):
            c.append(self.freq[i])
            signs.append(("v", i, 1))
            if self.eq:
                c.append(-self.freq[i])
                signs.append(("v", i, -1))
        for k in range(kf):
            c.append(-self.nveh[k])
            signs.append(("k", k, -1))
            if self.eq:
                c.append(self.nveh[k])
                signs.append(("k", k, 1))
        A, b = [], []
        for s, k, cost in cols:
            row = []
            for kind, i, sg in signs:
                if kind == "v":
                    row.append(sg if cust[i] in s else 0)
                else:
                    row.append(sg if i == k else 0)
            A.append(row)
            b.append(F(cost).limit_denominator(10**6))
        if M.drop:
            for i in range(nv):
                A.append([sg if (kind == "v" and j == i) else 0 for kind, j, sg in signs])
                b.append(F(M.drop))
        # an infeasible primal shows up as an unbounded dual
        return lp_max_lazy(c, A, b)


def optimal_solutions(M, best, opt, limit=64):
    """All optimal integer solutions, as lists of (set, type) (up to limit)."""
    cust = M.customers
    idx = {v: i for i, v in enumerate(cust)}
    freq = tuple(M.N[v]["frequency"] if M.periodic else 1 for v in cust)
    nveh = M.nveh if (M.nveh and not M.periodic) else None
    items = [(s, k, c) for (s, k), (c, _r) in best.items()]
    out = []

    def rec(need, used, cost, chosen):
        if len(out) >= limit or cost > opt + 1e-9:
            return
        i = next((j for j, x in enumerate(need) if x > 0), None)
        if i is None:
            if M.use_all and nveh and any(u != m for u, m in zip(used, nveh)):
                return
            if abs(cost - opt) < 1e-9:
                out.append(list(chosen))
            return
        v = cust[i]
        for s, k, c in items:
            if v not in s or any(need[idx[w]] < 1 for w in s):
                continue
            if nveh and used[k] + 1 > nveh[k]:
                continue
            nn = list(need)
            for w in s:
                nn[idx[w]] -= 1
            uu = list(used)
            uu[k] += 1
            rec(tuple(nn), tuple(uu), cost + c, chosen + [(s, k)])
        if M.drop:
            nn = list(need)
            nn[i] -= 1
            rec(tuple(nn), used, cost + M.drop, chosen)

    rec(freq, tuple([0] * M.K), 0, [])
    return out


def analyse(M, routes=None):
    """(optimum or None, tight: bool)."""
    routes = M.all_routes() if routes is None else routes
    best = M.best_per_set(routes)
    opt = M.optimum(routes)
    if opt is None:
        return None, False
    second = {}
    for s, _r, k, c in routes:
        b = best[s, k][0]
        if c > b + 1e-9 and ((s, k) not in second or c < second[s, k]):
            second[s, k] = c
    R = Relaxation(M)
    base = [(s, k, c) for (s, k), (c, _r) in best.items()]
    z = R.value(base)
    if z is None or abs(float(z) - opt) > 1e-9:
        return opt, False
    need = {}
    for sol in optimal_solutions(M, best, opt):
        ok = True
        for g in sol:
            if g not in need:
                cols = [
                    (s, k, c) if (s, k) != g else (s, k, second[g])
                    for s, k, c in base
                    if (s, k) != g or g in second
                ]
                z2 = R.value(cols)
                need[g] = z2 is None or z2 > z + MARGIN
            if not need[g]:
                ok = False
                break
        if ok:
            return opt, True
    return opt, False
