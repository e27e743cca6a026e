"""Instance families.  Every generator enumerates its (finite) space completely and
deterministically, simplest instances first."""
from itertools import combinations, permutations, product

SRC, SNK = "Source", "Sink"

_POS = {
    "line": lambda i: (i, 0),
    "two": lambda i: ((i + 1) // 2 * (1 if i % 2 else -1), 0),
    "grid": lambda i: [(1, 0), (0, 2), (3, 1), (2, 3), (4, 0), (0, 5), (5, 2), (1, 4), (3, 5), (6, 6), (6, 1), (2, 6)][i - 1],
    "clus": lambda i: [(5, 5), (5, 6), (-4, 5), (-5, 5), (6, 5), (-4, 6), (5, -5), (6, -5), (-5, -5), (-6, -5), (5, -6), (-5, -6)][i - 1],
}
METRIC = ("line", "two", "grid", "clus")
GENERIC = ("asym", "asym2", "sparse", "detour", "chain")
LAYOUTS = METRIC + GENERIC
# customers can only be visited in increasing order: many customers, few routes
FORWARD = ("fwd", "fwda", "fwdl")


def _ab(layout, n):
    """{(i, j): (cost, time)} with 0 = Source, n + 1 = Sink."""
    ids = range(0, n + 2)
    out = {}
    for i in ids:
        for j in ids:
            if i == j or j == 0 or i == n + 1 or (i, j) == (0, n + 1):
                continue
            inner = i != 0 and j != n + 1
            if layout in FORWARD and inner and j < i:
                continue
            if layout in _POS or layout in ("fwd", "fwdl"):
                pos = {"fwd": _POS["grid"], "fwdl": lambda v: (9 + v, v % 3)}.get(layout) or _POS[layout]
                a = (0, 0) if i == 0 else pos(i)
                b = (0, 0) if j == n + 1 else pos(j)
                c = abs(a[0] - b[0]) + abs(a[1] - b[1])
                t = c
            else:
                c = 2 + (i * 7 + j * 13 + i * j * 5) % 11
                t = 1 + (i * 5 + j * 3 + i * j) % 7
                if layout == "asym2":
                    c = 1 + (i * 17 + j * 5 + i * i * 3 + j * j) % 13
                    t = 1 + (i * 3 + j * 11 + i * j * 7) % 9
                if layout == "sparse" and inner and (i + 2 * j) % 3 == 0:
                    continue
                if layout == "detour":
                    c = c % 4 + 1 if inner else 10 + c % 3
                    t = 1 if inner else 4 + t % 5
                if layout == "chain":
                    if inner and j != i + 1:
                        continue
                    c, t = 10, 20
            out[i, j] = (c, t)
    return out


def names_int(n):
    return [SRC] + list(range(1, n + 1)) + [SNK]


def names_str(n):
    return [SRC] + ["c%d" % (n - i) for i in range(n)] + [SNK]


def make(n, layout, nodes=None, opts=None, types=1, names=None, cost=None, time=True, drop_edges=()):
    """nodes: {index: attrs}; cost: function (i, j, c, k) -> cost for vehicle type k."""
    ab = _ab(layout, n)
    nm = (names or names_int)(n)
    N = [[nm[i], dict((nodes or {}).get(i, {}))] for i in range(n + 2)]
    for a in N:
        if isinstance(a[1].get("request"), int):
            a[1]["request"] = nm[a[1]["request"]]
    E = []
    for (i, j), (c, t) in ab.items():
        if (i, j) in drop_edges:
            continue
        a = {}
        if cost:
            cs = [cost(i, j, c, k) for k in range(types)]
        else:
            cs = [c] * types
        a["cost"] = cs if types > 1 else cs[0]
        if time:
            a["time"] = t
        E.append([nm[i], nm[j], a])
    return {"nodes": N, "edges": E, "opts": dict(opts or {})}


def scaled(inst, time=1, load=1):
    """The same problem in other units of time and load."""
    import copy

    x = copy.deepcopy(inst)
    o = x["opts"]
    for _, a in x["nodes"]:
        for k in ("lower", "upper", "service_time"):
            if k in a:
                a[k] *= time
        for k in ("demand", "collect"):
            if k in a:
                a[k] *= load
    for _, _, a in x["edges"]:
        if "time" in a:
            a["time"] *= time
    if o.get("duration"):
        d = o["duration"] * time
        o["duration"] = int(d) if d == int(d) else int(d) + 1  # whole numbers only
    if o.get("load_capacity"):
        c = o["load_capacity"]
        o["load_capacity"] = [int(v * load) for v in c] if isinstance(c, list) else int(c * load)
    return x


# --- critical values ---------------------------------------------------------
def paths(n, layout):
    ab = _ab(layout, n)
    for m in range(1, (n if n < 6 else 3) + 1):
        for p in permutations(range(1, n + 1), m):
            r = (0, *p, n + 1)
            if all(e in ab for e in zip(r, r[1:])):
                yield r


def durations(n, layout, svc=None):
    """Distinct durations of all routes, plus those just too short."""
    ab = _ab(layout, n)
    ds = {sum(ab[e][1] for e in zip(r, r[1:])) + sum((svc or {}).get(v, 0) for v in r) for r in paths(n, layout)}
    lo = max(ab[0, v][1] + ab[v, n + 1][1] + (svc or {}).get(v, 0) for v in range(1, n + 1))
    return sorted(d for d in ds if d >= lo - 1 and d > 0)


def times(n, layout):
    return {k: v[1] for k, v in _ab(layout, n).items()}


# --- exhaustive feature combinations ------------------------------------------
FEATURES = ("cap", "stops", "dur", "tw", "sdc", "pd", "fix", "nveh", "useall", "drop", "per", "mixed", "span")


def compatible(f):
    f = set(f)
    if "useall" in f and "nveh" not in f:
        return False
    if "sdc" in f and ("cap" not in f or "pd" in f):
        return False
    if "per" in f and f & {"drop", "span", "pd"}:
        return False
    if "pd" in f and f & {"sdc", "per"}:
        return False
    return True


def rare(f):
    """Combinations few would use (thinned in the quick tier)."""
    f = set(f)
    return any(x <= f for x in ({"pd", "mixed"}, {"pd", "span"}, {"mixed", "span"}, {"per", "sdc"}, {"per", "useall"}))


def combo(f, n, layout, sel=0, names=None):
    """One instance with exactly the features f; sel picks the parameter values."""
    f = set(f)
    nd = {i: {} for i in range(n + 2)}
    types = 2 if "mixed" in f else 1
    o = {}
    q = [(1, 2, 1, 3, 2, 1, 2, 3), (2, 0, 3, 1, 1, 2, 1, 2), (3, 3, 1, 2, 2, 3, 1, 1), (1, 1, 1, 1, 1, 1, 1, 1)][sel % 4]
    for i in range(1, n + 1):
        nd[i]["demand"] = q[(i - 1) % 8]
    svc = {}
    if "dur" in f or "tw" in f:
        for i in range(1, n + 1):
            svc[i] = nd[i]["service_time"] = (i + sel) % 3
    if "cap" in f:
        o["load_capacity"] = [4, 3, 5, 3][sel % 4]
    if "stops" in f:
        o["num_stops"] = [2, 3, 1, 2][sel % 4]
    if "sdc" in f:
        o["distribution_collection"] = True
        for i in range(1, n + 1):
            nd[i]["collect"] = (i * 2 + sel) % 4
    if "pd" in f:
        o["pickup_delivery"] = True
        for i in range(1, n + 1):
            nd[i].pop("demand", None)
        pairs = [(i, i + 1) if (sel + i) % 3 else (i + 1, i) for i in range(1, n, 2)]
        for a, b in pairs:
            w = 1 + (a + sel) % 3
            nd[a].update(request=b, demand=w)
            nd[b].update(demand=-w)
    if "dur" in f:
        ds = durations(n, layout, svc)
        o["duration"] = ds[min(len(ds) - 1, [len(ds) // 3, 1, len(ds) // 2, 2 * len(ds) // 3][sel % 4])]
    if "tw" in f:
        o["time_windows"] = True
        tm = times(n, layout)
        for i in range(1, n + 1):
            d = tm[0, i]
            lo = [0, d + 2, max(0, d - 1), d][(i + sel) % 4]
            nd[i]["lower"] = lo
            nd[i]["upper"] = max(lo, d) + [3, 6, 12, 1][(i * 3 + sel) % 4]
        if sel % 2:
            nd[0]["lower"], nd[0]["upper"] = 1, 100
            for i in range(1, n + 1):
                nd[i]["upper"] += 1
            nd[n + 1]["upper"] = max(
                max(nd[0]["lower"] + tm[0, i], nd[i]["lower"]) + svc.get(i, 0) + tm[i, n + 1] for i in range(1, n + 1)
            ) + (sel % 3)
    if "fix" in f:
        o["fixed_cost"] = [3, 5, 1, 8][sel % 4] if types == 1 else [[2, 5], [4, 1], [0, 3], [6, 6]][sel % 4]
    if "nveh" in f:
        o["num_vehicles"] = [2, n, n - 1, 3][sel % 4] if types == 1 else [[1, 2], [2, 2], [2, 1], [1, 1]][sel % 4]
    if "useall" in f:
        o["use_all_vehicles"] = True
    if "drop" in f:
        o["drop_penalty"] = [7, 12, 4, 30][sel % 4]
    if "per" in f:
        o["periodic"] = 2 + sel % 2
        for i in range(1, n + 1):
            nd[i]["frequency"] = 1 + (i + sel) % 2
    cost = None
    if "mixed" in f:
        o["mixed_fleet"] = True
        if "cap" in f:
            o["load_capacity"] = [[3, 5], [4, 3], [3, 6], [5, 5]][sel % 4]
        elif "nveh" not in f and "fix" not in f:
            o["fixed_cost"] = [1, 2]
        cost = lambda i, j, c, k: c + k * ((i + j + sel) % 3)  # noqa: E731
    if "span" in f:
        o["minimize_global_span"] = True
    return make(n, layout, nd, o, types, names, cost)


def all_combos():
    for m in range(0, len(FEATURES) + 1):
        for f in combinations(FEATURES, m):
            if compatible(f):
                yield f


# --- solver options ------------------------------------------------------------
STRATEGIES = ("BestEdges1", "Exact", "BestEdges2", "BestPaths", "Hyper")


def variants(lp=True, strategies=STRATEGIES):
    out = []
    for s in strategies:
        for mode in ("cspy", "elem", "lp"):
            if mode == "lp" and not lp:
                continue
            for greedy in (False, True):
                for dive in (False, True):
                    d = {}
                    if s != "BestEdges1":
                        d["pricing_strategy"] = s
                    if mode == "elem":
                        d["elementary"] = True
                    if mode == "lp":
                        d["cspy"] = False
                    if greedy:
                        d["greedy"] = True
                    if dive:
                        d["dive"] = True
                    out.append(d)
    return out


def pd_variants():
    return [d for d in variants() if d.get("cspy") is False]


ALL_VARIANTS = variants()
CSPY_VARIANTS = variants(lp=False)
