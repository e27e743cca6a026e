"""Monitors: compare the public observables of one solve() with the reference model.

judge(...) returns a list of (code, message).  Codes
  PATH    a route is not a simple Source-Sink path of the graph
  COVER   a customer is not visited exactly once (dropped customers: at most once)
  CAP STOPS DUR TW PD SDC   a route breaks that constraint
  FLEET USEALL TYPE         vehicle bounds, all vehicles in use, vehicle type of a route
  FREQ SCHED                periodic visits and schedule
  VALUE COST                value / cost of routes
  DROP                      value does not account for exactly one penalty per unvisited customer
  LOAD NLOAD DURREP ARR DEP other reported figures
  SELF    check_arrival_time() or check_departure_time() fail on a plan that is right
  BELOW   value below the true optimum
  OPT     not optimal on a problem where exact column generation must be optimal
  WORSE   worse than a solution that was available from the start
  SOLVED  a solution for an infeasible problem
  ERR     no solution for a problem that has one within reach
"""
from collections import Counter

from .ref import SRC, SNK, _h

REL = 1e-6


def close(a, b, tol=1e-6):
    try:
        return abs(a - b) <= tol * max(1, abs(a), abs(b))
    except TypeError:
        return False


def leq(a, b, tol=1e-6):
    return a <= b + tol * max(1, abs(a), abs(b))


def _route(r):
    return [_h(v) for v in r]


def judge(M, obs, opt=None, tight=False, upper=None, locked=(), frac_ok=False, known_opt=True):
    """M: ref.Model, obs: run.observe() dict (without error).
    locked: complete preassigned routes (not subject to the limits of the fleet)."""
    out = []
    bad = lambda c, m: out.append((c, m))  # noqa: E731
    routes = {k: _route(r) for k, r in obs["routes"].items()}
    lockset = [_route(r) for r in locked]
    for k, r in routes.items():
        if not M.is_path(r):
            bad("PATH", "route %s: %s is not a simple path from Source to Sink" % (k, r))
    if out:
        # anything else is meaningless on something that is not a path
        known = all(v in M.N for r in routes.values() for v in r)
        edges = known and all((a, b) in M.E for r in routes.values() for a, b in zip(r, r[1:]))
        if not edges:
            return out
    types = obs["types"]
    computed = []
    rest = list(lockset)
    for k, r in routes.items():
        if r in rest:
            rest.remove(r)
        else:
            computed.append(k)
    for r in rest:
        bad("LOCK", "preassigned route %s is not part of the solution" % r)
    # cover
    visits = Counter(v for r in routes.values() for v in r[1:-1])
    dropped = []
    for v in M.customers:
        need = M.N[v]["frequency"] if M.periodic else 1
        if M.periodic:
            if visits[v] != need:
                bad("FREQ", "customer %r is visited %s times instead of %s" % (v, visits[v], need))
        elif M.drop:
            if visits[v] == 0:
                dropped.append(v)
            elif visits[v] != 1:
                bad("COVER", "customer %r is visited %s times" % (v, visits[v]))
        elif visits[v] != 1:
            bad("COVER", "customer %r is visited %s times" % (v, visits[v]))
    # types
    for k in routes:
        t = types.get(k)
        if not isinstance(t, int) or not 0 <= t < M.K:
            bad("TYPE", "route %s has vehicle type %r" % (k, t))
    if any(c == "TYPE" for c, _ in out):
        return out
    if set(types) != set(routes):
        bad("TYPE", "vehicle types are given for routes %s instead of %s" % (sorted(types), sorted(routes)))
    # constraints
    for k, r in routes.items():
        t = types[k]
        if r in lockset:
            # the user's responsibility
            continue
        if not M.stops_ok(r):
            bad("STOPS", "route %s makes more than %s stops: %s" % (k, M.stops, r))
        if not M.dur_ok(r):
            bad("DUR", "route %s lasts %s > %s: %s" % (k, M.dur(r), M.duration, r))
        if len(set(r)) == len(r) and not M.tw_ok(r):
            bad("TW", "route %s misses a time window: %s, arrivals %s" % (k, r, M.arrivals(r)))
        if not M.cap_ok(r, t):
            if M.sdc:
                bad("SDC", "route %s exceeds capacity %s: %s, loads %s" % (k, M.cap[t], r, M.sdc_profile(r)))
            elif M.pd:
                bad("PDCAP", "route %s exceeds capacity %s: %s, loads %s" % (k, M.cap[t], r, M.pd_profile(r)))
            else:
                bad("CAP", "route %s exceeds capacity %s: %s, load %s" % (k, M.cap[t], r, M.load(r)))
        if not M.pd_ok(r):
            bad("PD", "route %s separates a pickup from its delivery: %s" % (k, r))
    # fleet
    if M.nveh and not M.periodic:
        use = Counter(types[k] for k in computed)
        for t in range(M.K):
            if use[t] > M.nveh[t]:
                bad("FLEET", "%s vehicles of type %s in use, %s available" % (use[t], t, M.nveh[t]))
            if M.use_all and use[t] != M.nveh[t]:
                bad("USEALL", "%s vehicles of type %s in use instead of %s" % (use[t], t, M.nveh[t]))
    # figures
    costs = obs["costs"]
    ref = {k: M.cost(r, types[k]) for k, r in routes.items()}
    if set(costs) != set(ref) or any(not close(costs[k], ref[k]) for k in ref):
        bad("COST", "reported route costs %s instead of %s" % (costs, ref))
    total = (max(ref.values(), default=0) if M.span else sum(ref.values()))
    pen = (M.drop or 0) * len(dropped)
    if not close(obs["value"], total + pen):
        bad("DROP" if M.drop else "VALUE", "reported value %s instead of %s + %s (dropped: %s)" % (obs["value"], total, pen, dropped))
    # loads
    if M.cap and not M.pd and not M.sdc:
        ref = {k: M.load(r) for k, r in routes.items()}
        if set(obs["load"]) != set(ref) or any(not close(obs["load"][k], ref[k]) for k in ref):
            bad("LOAD", "reported loads %s instead of %s" % (obs["load"], ref))
    if M.cap or M.pd:
        ref = {}
        for k, r in routes.items():
            if M.sdc:
                # load on the truck when leaving the node, the truck leaves the depot full
                cur, d = M.cap[types[k]], {}
                for v in r:
                    cur += M.N[v]["collect"] - M.N[v]["demand"]
                    d[v] = cur
            else:
                cur, d = 0, {}
                for v in r:
                    cur += M.N[v]["demand"]
                    d[v] = cur
            ref[k] = d
        if not _same(obs["node_load"], ref):
            bad("NLOAD", "reported node loads %s instead of %s" % (obs["node_load"], ref))
    if M.duration or M.tw:
        ref = {k: M.dur(r) for k, r in routes.items()}
        if set(obs["duration"]) != set(ref) or any(not close(obs["duration"][k], ref[k]) for k in ref):
            bad("DURREP", "reported durations %s instead of %s" % (obs["duration"], ref))
        ref = {k: M.arrivals(r) for k, r in routes.items()}
        if not _same(obs["arrival"], ref):
            bad("ARR", "reported arrival times %s instead of %s" % (obs["arrival"], ref))
        ref = {
            k: {v: (a if v == SRC else a + M.N[v]["service_time"]) for v, a in d.items()} for k, d in ref.items()
        }
        dep = {k: {v: x for v, x in d.items() if v != SRC} for k, d in obs["departure"].items()}
        refd = {k: {v: x for v, x in d.items() if v != SRC} for k, d in ref.items()}
        if not _same(dep, refd):
            bad("DEP", "reported departure times %s instead of %s" % (obs["departure"], ref))
    if M.tw and obs.get("self_check") and all(M.tw_ok(r) for r in lockset) and not any(c in ("PATH", "TW", "ARR", "DEP") for c, _ in out):
        bad("SELF", "%s fails on routes that keep the time windows: %s" % (obs["self_check"], routes))
    # schedule
    if M.periodic:
        out += judge_schedule(M, routes, types, obs["schedule"])
    # optimality
    if known_opt and not any(c in ("PATH", "COVER", "FREQ") for c, _ in out):
        if opt is None:
            if not out:
                bad("SOLVED", "a solution (value %s) for an infeasible problem" % obs["value"])
        elif not leq(opt, obs["value"]):
            bad("BELOW", "value %s below the optimum %s" % (obs["value"], opt))
        elif tight and not leq(obs["value"], opt):
            bad("OPT", "value %s, optimum %s" % (obs["value"], opt))
    if upper is not None and not leq(obs["value"], upper):
        bad("WORSE", "value %s is worse than an available solution of value %s" % (obs["value"], upper))
    return out


def _same(a, b):
    if not isinstance(a, dict) or set(a) != set(b):
        return False
    for k in b:
        if not isinstance(a[k], dict) or {_h(x) for x in a[k]} != set(b[k]):
            return False
        if any(not close(a[k][v], b[k][v]) for v in b[k]):
            return False
    return True


def judge_schedule(M, routes, types, sched):
    out = []
    bad = lambda c, m: out.append((c, m))  # noqa: E731
    best = best_schedule(M, routes, types)
    if not sched:
        if best is not None and routes:
            bad("SCHED", "no schedule for routes %s although there is one over %s days" % (routes, M.periodic))
        return out
    days = Counter(r for d in sched.values() for r in d)
    if any(not (0 <= d < M.periodic) for d in sched):
        bad("SCHED", "schedule %s has a day out of the %s day period" % (sched, M.periodic))
    if set(days) != set(routes) or any(x != 1 for x in days.values()):
        bad("SCHED", "schedule %s does not have each of routes %s once" % (sched, sorted(routes)))
        return out
    for d, rs in sched.items():
        c = Counter(v for r in rs for v in routes[r][1:-1])
        for v, x in c.items():
            if x > 1:
                bad("SCHED", "customer %r is visited %s times on day %s" % (v, x, d))
        if M.nveh:
            u = Counter(types[r] for r in rs)
            for k in range(M.K):
                if u[k] > M.nveh[k]:
                    bad("SCHEDFLEET", "%s vehicles of type %s in use on day %s, %s available" % (u[k], k, d, M.nveh[k]))
    if best is not None:
        n = [len(sched.get(d, [])) for d in range(M.periodic)]
        if max(n) - min(n) > best:
            bad("SCHEDBAL", "routes per day %s are not balanced, a spread of %s is possible" % (n, best))
    return out


def best_schedule(M, routes, types):
    """Smallest spread (max - min routes per day) over all valid schedules, None if there is none."""
    ids = sorted(routes, key=str)
    T = M.periodic
    best = [None]
    day_c = [set() for _ in range(T)]
    day_u = [Counter() for _ in range(T)]
    day_n = [0] * T

    def rec(i):
        if best[0] is not None and best[0] <= (1 if len(ids) % T else 0):
            return
        if i == len(ids):
            s = max(day_n) - min(day_n)
            if best[0] is None or s < best[0]:
                best[0] = s
            return
        r = routes[ids[i]]
        cs = set(r[1:-1])
        seen_empty = False
        for d in range(T):
            if day_n[d] == 0:
                if seen_empty:
                    continue
                seen_empty = True
            if cs & day_c[d]:
                continue
            k = types[ids[i]]
            if M.nveh and day_u[d][k] >= M.nveh[k]:
                continue
            day_c[d] |= cs
            day_u[d][k] += 1
            day_n[d] += 1
            rec(i + 1)
            day_c[d] -= cs
            day_u[d][k] -= 1
            day_n[d] -= 1

    rec(0)
    return best[0]


def judge_error(M, err, opt, tight, known_opt=True):
    """err: {"error":..., "msg":...} of a failed solve()."""
    if not known_opt:
        return [("ERR", "%s: %s" % (err["error"], err["msg"]))]
    if opt is not None and (tight or always_solvable(M)):
        return [("ERR", "%s: %s on a problem with optimum %s" % (err["error"], err["msg"], opt))]
    return []


def always_solvable(M):
    """Problems whose trivial plan (one vehicle per customer or request) is feasible."""
    if M.nveh and not M.periodic:
        return False
    return trivial_value(M) is not None


def trivial_value(M):
    """Cost of one vehicle per customer (per request), None if that is not feasible."""
    if M.span:
        comb = max
    else:
        comb = lambda a, b: a + b  # noqa: E731
    total = 0
    freq = lambda v: M.N[v]["frequency"] if M.periodic else 1  # noqa: E731
    if M.pd:
        done = set()
        for v in M.customers:
            if "request" in M.N[v]:
                d = _h(M.N[v]["request"])
                r = [SRC, v, d, SNK]
                if not M.route_ok(r):
                    return None
                total = comb(total, M.cost(r))
                done |= {v, d}
        return total if done == set(M.customers) else None
    for v in M.customers:
        r = [SRC, v, SNK]
        ks = [k for k in range(M.K) if M.route_ok(r, k)]
        if not ks:
            return None
        c = M.cost(r, ks[0])
        total = comb(total, c * (1 if M.span else freq(v)))
    return total
