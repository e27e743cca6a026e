"""Reference model: a deliberately boring brute-force semantics of the VRP
variants documented by vrpy.  Nothing in here imports vrpy.

An instance is a plain JSON-able dict
    nodes : list of [name, {attr: value}]          (insertion order matters)
    edges : list of [u, v, {attr: value}]
    opts  : keyword arguments of VehicleRoutingProblem
    solve : keyword arguments of solve()
"""
SRC, SNK = "Source", "Sink"
EPS = 1e-6
# states and transitions of the reference model explored so far (evidence)
COUNT = [0, 0]


def nodes_of(inst):
    return {_h(n): dict(a) for n, a in inst["nodes"]}


def _h(n):
    return tuple(n) if isinstance(n, list) else n


def edges_of(inst):
    return {(_h(u), _h(v)): dict(a) for u, v, a in inst["edges"]}


def as_list(x):
    return list(x) if isinstance(x, (list, tuple)) else [x]


class Model:
    """Problem data with documented defaults filled in."""

    def __init__(self, inst):
        self.inst = inst
        o = inst.get("opts", {})
        self.N = nodes_of(inst)
        self.E = edges_of(inst)
        for (u, v) in self.E:
            self.N.setdefault(u, {})
            self.N.setdefault(v, {})
        self.mixed = bool(o.get("mixed_fleet"))
        self.cap = as_list(o["load_capacity"]) if o.get("load_capacity") else None
        self.fixed = as_list(o["fixed_cost"]) if o.get("fixed_cost") else None
        self.nveh = as_list(o["num_vehicles"]) if o.get("num_vehicles") else None
        self.use_all = bool(o.get("use_all_vehicles")) and self.nveh is not None
        self.stops = o.get("num_stops")
        self.duration = o.get("duration")
        self.tw = bool(o.get("time_windows"))
        self.pd = bool(o.get("pickup_delivery"))
        self.sdc = bool(o.get("distribution_collection"))
        self.drop = o.get("drop_penalty")
        self.periodic = o.get("periodic")
        self.span = bool(o.get("minimize_global_span"))
        if self.mixed:
            self.K = len(self.cap or self.fixed or self.nveh)
        else:
            self.K = 1
        self.customers = [v for v in self.N if v not in (SRC, SNK)]
        for v, a in self.N.items():
            for k in ("demand", "collect", "service_time", "lower", "upper"):
                a.setdefault(k, 0)
            a.setdefault("frequency", 1)
            if v in (SRC, SNK) and a["demand"] > 0:
                a["demand"] = 0
        # documented: missing depot connections are added with a prohibitive cost
        for v in self.customers:
            for e in ((SRC, v), (v, SNK)):
                if e not in self.E:
                    self.E[e] = {"cost": 1e10}
        for e, a in self.E.items():
            a.setdefault("time", 0)
            c = a["cost"]
            a["cost"] = list(c) if isinstance(c, (list, tuple)) else [c] * self.K
        if self.N[SNK]["upper"] == 0:
            preds = [u for (u, v) in self.E if v == SNK and u != SRC]
            preds_all = [u for (u, v) in self.E if v == SNK]
            cand = [self.N[u]["upper"] + self.N[u]["service_time"] + self.E[u, SNK]["time"] for u in preds_all]
            cand.append(self.N[SRC]["upper"] + self.N[SRC]["service_time"])
            self.N[SNK]["upper"] = max(cand) if cand else 0

    # ---- per-route semantics -------------------------------------------
    def is_path(self, r):
        return (
            len(r) >= 2
            and r[0] == SRC
            and r[-1] == SNK
            and all((a, b) in self.E for a, b in zip(r, r[1:]))
            and len(set(r)) == len(r)
        )

    def cost(self, r, k=0):
        c = sum(self.E[a, b]["cost"][k] for a, b in zip(r, r[1:]))
        if self.fixed:
            c += self.fixed[k]
        return c

    def load(self, r):
        return sum(self.N[v]["demand"] for v in r)

    def stops_ok(self, r):
        return not self.stops or len(r) - 2 <= self.stops

    def dur(self, r):
        return sum(self.E[a, b]["time"] for a, b in zip(r, r[1:])) + sum(
            self.N[v]["service_time"] for v in r
        )

    def dur_ok(self, r):
        return not self.duration or self.dur(r) <= self.duration + EPS

    def arrivals(self, r):
        t = {SRC: self.N[SRC]["lower"]}
        cur = t[SRC]
        for a, b in zip(r, r[1:]):
            cur = max(cur + self.N[a]["service_time"] + self.E[a, b]["time"], self.N[b]["lower"])
            t[b] = cur
        return t

    def tw_ok(self, r):
        if not self.tw:
            return True
        t = self.arrivals(r)
        return all(t[v] <= self.N[v]["upper"] + EPS for v in r if v != SRC)

    def sdc_profile(self, r):
        """Load on board when leaving each node of the route (start = all deliveries)."""
        cur = sum(self.N[v]["demand"] for v in r)
        out = [cur]
        for v in r[1:-1]:
            cur += self.N[v]["collect"] - self.N[v]["demand"]
            out.append(cur)
        return out

    def pd_profile(self, r):
        cur, out = 0, []
        for v in r:
            cur += self.N[v]["demand"]
            out.append(cur)
        return out

    def cap_ok(self, r, k=0):
        if not self.cap:
            return True
        if self.pd:
            return all(-EPS <= x <= self.cap[k] + EPS for x in self.pd_profile(r))
        if self.sdc:
            return all(x <= self.cap[k] + EPS for x in self.sdc_profile(r))
        return self.load(r) <= self.cap[k] + EPS

    def pd_ok(self, r):
        if not self.pd:
            return True
        pos = {v: i for i, v in enumerate(r)}
        deliveries = {}
        for v, a in self.N.items():
            if "request" in a:
                deliveries[_h(a["request"])] = v
        for v in r:
            a = self.N[v]
            if "request" in a:
                d = _h(a["request"])
                if d not in pos or pos[d] < pos[v]:
                    return False
            if v in deliveries and deliveries[v] not in pos:
                return False
        return True

    def route_ok(self, r, k=0):
        return (
            self.is_path(r)
            and self.stops_ok(r)
            and self.dur_ok(r)
            and self.tw_ok(r)
            and self.cap_ok(r, k)
            and self.pd_ok(r)
        )

    # ---- whole-problem semantics ---------------------------------------
    def all_routes(self, big=1e9, customers=None):
        """[(frozenset customers, path, type, cost)] of every feasible elementary route."""
        out = []
        cs = self.customers if customers is None else customers
        succ = {v: [w for w in cs if (v, w) in self.E and w != v] for v in [SRC] + list(cs)}
        limit = min(len(cs), self.stops or len(cs))

        def extend(p):
            for w in succ[p[-1]]:
                if w in p:
                    continue
                COUNT[1] += 1
                q = p + [w]
                if (w, SNK) in self.E:
                    r = q + [SNK]
                    if self.stops_ok(r) and self.dur_ok(r) and self.tw_ok(r) and self.pd_ok(r):
                        for k in range(self.K):
                            if self.cap_ok(r, k):
                                out.append((frozenset(q[1:]), r, k, self.cost(r, k)))
                if len(q) - 1 < limit:
                    extend(q)

        extend([SRC])
        # shortest routes first
        out.sort(key=lambda x: len(x[0]))
        COUNT[0] += len(out)
        return out

    def best_per_set(self, routes=None):
        best = {}
        for s, r, k, c in routes if routes is not None else self.all_routes():
            if (s, k) not in best or c < best[s, k][0]:
                best[s, k] = (c, r)
        return best

    def optimum(self, routes=None):
        """Exact optimum by exhaustive search over partitions. None if infeasible.

        Handles fleet bounds, use_all_vehicles, drops, frequencies, min-max span."""
        best = self.best_per_set(routes)
        freq = {v: (self.N[v]["frequency"] if self.periodic else 1) for v in self.customers}
        items = sorted(best.items(), key=lambda x: (sorted(map(str, x[0][0])), x[0][1]))
        need0 = tuple(freq[v] for v in self.customers)
        idx = {v: i for i, v in enumerate(self.customers)}
        K = self.K
        # with periodic, num_vehicles is a per-day bound that only the final schedule sees
        nveh = self.nveh if (self.nveh and not self.periodic) else None
        if self.use_all and not nveh:
            use_all = False
        else:
            use_all = self.use_all
        memo = {}
        comb = max if self.span else (lambda a, b: a + b)

        def pareto(cands):
            out = []
            for c in sorted(set(cands)):
                if not out or c[1] < out[-1][1]:
                    out.append(c)
            if not self.span and out:
                out = [min(out, key=sum)]
            return out

        def rec(need, used):
            """Pareto set of (route cost, drop cost)."""
            key = (need, used)
            if key in memo:
                return memo[key]
            i = next((j for j, x in enumerate(need) if x > 0), None)
            cands = []
            if i is None:
                if not (use_all and any(u != m for u, m in zip(used, nveh))):
                    cands.append((0, 0))
            else:
                v = self.customers[i]
                for (s, k), (c, _r) in items:
                    if v not in s:
                        continue
                    if nveh and used[k] + 1 > nveh[k]:
                        continue
                    if any(need[idx[w]] < 1 for w in s):
                        continue
                    nn = list(need)
                    for w in s:
                        nn[idx[w]] -= 1
                    uu = list(used)
                    if nveh:
                        uu[k] += 1
                    for sub in rec(tuple(nn), tuple(uu)):
                        cands.append((comb(sub[0], c), sub[1]))
                if self.drop:
                    nn = list(need)
                    nn[i] -= 1
                    for sub in rec(tuple(nn), used):
                        cands.append((sub[0], sub[1] + self.drop))
            COUNT[1] += len(cands)
            memo[key] = pareto(cands)
            return memo[key]

        r = rec(need0, tuple([0] * K))
        COUNT[0] += len(memo)
        return None if not r else min(map(sum, r))
