"""The properties: which jobs explore each of them, and which codes of the monitors violate it."""
from itertools import combinations, permutations, product

from . import fam
from .fam import (ALL_VARIANTS, CSPY_VARIANTS, FORWARD, GENERIC, LAYOUTS, METRIC, SNK, SRC, all_combos, combo, durations, make, times)

LPV = [v for v in ALL_VARIANTS if v.get("cspy") is False]
PDV = fam.pd_variants()


def S(inst, variants, **kw):
    return dict(kind="solve", inst=inst, variants=variants, **kw)


def mix(i, salt=0):
    """Fixed scrambling of a counter: a plain i % k would move in step with the nested loops."""
    x = ((i + 1) * 0x9E3779B97F4A7C15 + (salt + 1) * 0xD1B54A32D192ED03) & (2**64 - 1)
    x = ((x ^ x >> 29) * 0xBF58476D1CE4E5B9) & (2**64 - 1)
    return x ^ x >> 32


def every(i, k, salt=0):
    """True for one i out of k."""
    return mix(i, salt) % k == 0


def rot(vs, i, k=1):
    """k option sets out of vs, moving on with i so that all of them get used."""
    n = len(vs)
    return [vs[(mix(i, 7) + j * 23) % n] for j in range(k)]


def tag(inst, lay):
    if lay in METRIC:
        inst["metric"] = 1
    if lay in FORWARD:
        inst["forward"] = 1
    return inst


def thin(gen, step, off=0):
    """Every step-th job (quick tier: the thinned space is what is enumerated completely)."""
    for i, x in enumerate(gen):
        if mix(i, off) % step == 0:
            yield x


# ---------------------------------------------------------------------------
def grid(tier, need=(), avoid=(), per=2, layouts=None, sels=None, n=3, kw=None, vs=None, only=None):
    """All compatible combinations of features (that include `need` and nothing of `avoid`)."""
    thorough = tier == "thorough"
    sels = sels if sels is not None else ((0, 1, 2, 3) if thorough else (None,))
    layouts = layouts or (LAYOUTS if thorough else (None,))
    i = j = 0
    for f in all_combos():
        if not set(need) <= set(f) or set(f) & set(avoid):
            continue
        if only and not only(f):
            continue
        j += 1
        if not thorough and fam.rare(f) and not every(j, 3, 5):
            continue
        for lay in layouts:
            for sel in sels:
                i += 1
                L = lay or LAYOUTS[i % len(LAYOUTS)]
                s = sel if sel is not None else (i // len(LAYOUTS) + i) % 4
                m = n
                if "pd" in f and m % 2:
                    m += 1
                inst = tag(combo(f, m, L, s), L)
                v = PDV if "pd" in f else (vs or ALL_VARIANTS)
                yield S(inst, rot(v, i, per), f=list(f), **(kw or {}))


def unused(tier, need=(), avoid=("span",), step=2):
    """Attributes that belong to features which are not asked for."""
    for j in thin(grid(tier, need=need, avoid=avoid, per=1), 1 if tier == "thorough" else step, 11):
        o = j["inst"]["opts"]
        cs = [n for n in j["inst"]["nodes"] if n[0] not in (SRC, SNK)]
        for i, (v, a) in enumerate(cs):
            if not o.get("time_windows") and not o.get("duration"):
                a.update(lower=40 + 17 * i, upper=45 + 17 * i, service_time=30)
            if not o.get("periodic"):
                a["frequency"] = 2 + i
            if not o.get("distribution_collection"):
                a["collect"] = 9
            if not o.get("pickup_delivery"):
                a["request"] = cs[i - 1][0]
            if not o.get("load_capacity") and not o.get("pickup_delivery"):
                a["demand"] = 100
        yield j


def elementary_traps(tier, per=3):
    """Cheap cycles between customers far from the depot: relaxed pricing wants to loop."""
    i = 0
    for n in (3, 4, 5) + ((6,) if tier == "thorough" else ()):
        for inner in (0, 1, 2):
            for q in product((1, 2), repeat=min(n, 3)):
                for cap in (3, 4) + ((5, 6) if tier == "thorough" else ()):
                    i += 1
                    nd = {v: {"demand": q[(v - 1) % 3]} for v in range(1, n + 1)}
                    o = {"load_capacity": cap}
                    if i % 3 == 0:
                        o = {"num_stops": min(cap, n)}
                    cost = lambda a, b, c, k: 10 if a == 0 or b == n + 1 else inner + (a + 2 * b) % 2  # noqa: E731
                    yield S(make(n, "grid", nd, o, cost=cost), rot(ALL_VARIANTS, i, per))


def large(tier, feats=((), ("cap",), ("stops",), ("cap", "stops"), ("dur",), ("cap", "dur"), ("cap", "tw"), ("tw",),
                       ("cap", "nveh"), ("cap", "drop"), ("cap", "mixed"), ("cap", "mixed", "fix"), ("cap", "sdc"),
                       ("cap", "per"), ("cap", "fix"), ("cap", "nveh", "drop")), sizes=(6, 8, 11), lays=("grid", "clus", "asym")):
    """Bigger problems: validity only."""
    i = 0
    for n in sizes:
        for f in feats:
            for lay in lays:
                i += 1
                inst = big_combo(f, n, lay, i % 4)
                vs = [{}, {"greedy": True}, {"pricing_strategy": "BestEdges2"}, {"pricing_strategy": "BestPaths"}, {"dive": True}, {"pricing_strategy": "Exact"}, {"pricing_strategy": "Hyper"}]
                if n <= 6:
                    vs = vs + [{"cspy": False}]
                yield S(inst, [dict(vs[i % len(vs)], **({"max_iter": 40}))], big=True, upper=True)


def forward(tier, feats, sizes=(6, 7), per=1, vs=None, sels=None):
    """Customers can only be visited in increasing order: the optimum is known for more customers."""
    T = tier == "thorough"
    i = 0
    for n in sizes + ((8,) if T else ()):
        for f in feats:
            for lay in FORWARD:
                for sel in sels or ((0, 1, 2, 3) if T else (i % 4, (i + 2) % 4)):
                    i += 1
                    inst = tag(big_combo(f, n, lay, sel), lay)
                    o = inst["opts"]
                    if "nveh" in f:
                        o["num_vehicles"] = (n + 1) // 2 if "mixed" not in f else [2, 3]
                    yield S(inst, rot(vs or (ALL_VARIANTS if every(i, 5, 1) else CSPY_VARIANTS), i, per))


def big_combo(f, n, lay, sel):
    """combo() with limits that let several customers share a vehicle."""
    f = set(f)
    inst = combo(f, n, lay, sel)
    o = inst["opts"]
    if "cap" in f and "mixed" not in f:
        o["load_capacity"] = [6, 7, 9, 5][sel % 4]
    if "nveh" in f and "mixed" not in f:
        o["num_vehicles"] = n
    if "stops" in f:
        o["num_stops"] = 3
    return inst


def units(tier, feats, time=(1,), load=(1,), lays=("grid", "asym", "two", "detour"), n=3):
    """Other units of time and load: the same answers."""
    T = tier == "thorough"
    i = 0
    for f in feats:
        for lay in LAYOUTS if T else lays:
            for sel in range(4):
                for ft in time:
                    for fl in load:
                        i += 1
                        if T or every(i, 3, 6):
                            inst = tag(fam.scaled(combo(f, n + n % 2 if "pd" in f else n, lay, sel), ft, fl), lay)
                            yield S(inst, rot(PDV if "pd" in f else ALL_VARIANTS, i, 1))


# --- C02 capacity -------------------------------------------------------------
def capacity(tier):
    T = tier == "thorough"
    i = 0
    # every demand vector, every capacity
    for lay in LAYOUTS:
        for q in product((0, 1, 2, 3), repeat=3):
            for cap in (3, 4, 5) + ((6,) if T else ()):
                i += 1
                if not T and not every(i, 2):
                    continue
                nd = {v + 1: {"demand": q[v]} for v in range(3)}
                yield S(make(3, lay, nd, {"load_capacity": cap}), rot(ALL_VARIANTS if every(i, 2, 1) else CSPY_VARIANTS, i, 1))
    for lay in ("grid", "asym", "two", "detour"):
        for q in product((1, 2, 3), repeat=4):
            for cap in (4, 5, 6) if T else (5,):
                i += 1
                nd = {v + 1: {"demand": q[v]} for v in range(4)}
                yield S(make(4, lay, nd, {"load_capacity": cap}), rot(CSPY_VARIANTS, i, 1))
    # larger values, non integer demands, demand at the depot
    for lay in ("grid", "asym"):
        for q in product((0.5, 1.5, 2.5), repeat=3):
            i += 1
            nd = {v + 1: {"demand": q[v]} for v in range(3)}
            yield S(make(3, lay, nd, {"load_capacity": 4}), rot(ALL_VARIANTS, i, 1))
        for q in product((40, 60, 100), repeat=3):
            i += 1
            nd = {v + 1: {"demand": q[v]} for v in range(3)}
            nd[0] = {"demand": 70}
            nd[4] = {"demand": 50}
            yield S(make(3, lay, nd, {"load_capacity": 100 + 40 * (i % 2)}), rot(ALL_VARIANTS, i, 1))
    # vehicle types: each has its own capacity
    for lay in ("grid", "asym2", "two"):
        for q in product((1, 2, 3), repeat=3):
            for caps in ([3, 5], [5, 3], [2, 6], [4, 4, 6]):
                i += 1
                if max(q) > max(caps) or (not T and not every(i, 2)):
                    continue
                nd = {v + 1: {"demand": q[v]} for v in range(3)}
                cost = lambda a, b, c, k: c + (k * ((a + b) % 3) if caps[0] < caps[-1] else 2 - k)  # noqa: E731,B023
                yield S(make(3, lay, nd, {"load_capacity": list(caps), "mixed_fleet": True}, len(caps), cost=cost), rot(ALL_VARIANTS if every(i, 3, 1) else CSPY_VARIANTS, i, 1))
    # many small customers: no limit on their number other than the capacity
    for lay in FORWARD:
        for n, q, cap in ((6, 0, 2), (7, 0.51, 4), (7, 0.2, 2), (6, 0.34, 3), (7, 0.5, 4), (7, 0, 1), (6, 0.9, 6), (7, 0.57, 4), (6, 1.5, 9), (8, 0.6, 5), (8, 1, 8)):
            for big in (None, 1, n):
                if n == 8 and big:
                    continue
                i += 1
                nd = {v: {"demand": q} for v in range(1, n + 1)}
                if big:
                    nd[big] = {"demand": cap}
                o = {"load_capacity": cap}
                if i % 2:
                    o["fixed_cost"] = 25  # few vehicles
                yield S(tag(make(n, lay, nd, o), lay), rot(ALL_VARIANTS if every(i, 3, 1) else CSPY_VARIANTS, i, 1))
    yield from forward(tier, (("cap",), ("cap", "stops"), ("cap", "mixed"), ("cap", "tw"), ("cap", "dur"), ("cap", "nveh"), ("cap", "drop"), ("cap", "per"), ("cap", "mixed", "fix")))
    yield from units(tier, (("cap",), ("cap", "mixed"), ("cap", "tw"), ("cap", "dur")), load=(100, 1000, 7))
    yield from grid(tier, need=("cap",), avoid=("pd", "sdc", "span"), per=1)
    yield from large(tier, feats=(("cap",), ("cap", "stops"), ("cap", "dur"), ("cap", "tw"), ("cap", "mixed"), ("cap", "per"), ("cap", "drop"), ("cap", "nveh")), sizes=(7, 10))


# --- C03 stops and duration ---------------------------------------------------
def stops_duration(tier):
    T = tier == "thorough"
    i = 0
    for n in (3, 4):
        for lay in LAYOUTS:
            for st in range(1, n + 1):
                i += 1
                yield S(make(n, lay, {}, {"num_stops": st}), rot(ALL_VARIANTS, i, 3))
                yield S(make(n, lay, {}, {"num_stops": st, "use_all_vehicles": True, "num_vehicles": n - 1}), rot(ALL_VARIANTS, i, 1))
                nd = {v: {"demand": 1 + v % 2} for v in range(1, n + 1)}
                for cap in (3, 5):
                    yield S(make(n, lay, nd, {"num_stops": st, "load_capacity": cap}), rot(CSPY_VARIANTS, i, 2))
    # every critical duration
    for lay in LAYOUTS:
        for svc in product((0, 1, 3), repeat=3):
            if not T and sum(svc) % 2 == 0:
                continue
            sv = {v + 1: svc[v] for v in range(3)}
            nd = {v: {"service_time": s} for v, s in sv.items()}
            ds = durations(3, lay, sv)
            if not T:
                ds = ds[:: max(1, len(ds) // 4)]
            for d in ds:
                i += 1
                for extra in ({}, {"num_stops": 2}) if (T or every(i, 3)) else ({},):
                    yield S(make(3, lay, nd, dict(extra, duration=d)), rot(ALL_VARIANTS if every(i, 4, 1) else CSPY_VARIANTS, i, 1))
    for lay in ("asym", "grid", "detour", "asym2"):
        ds = durations(4, lay)
        for d in ds if T else ds[::3]:
            i += 1
            yield S(make(4, lay, {}, {"duration": d}), rot(CSPY_VARIANTS, i, 2))
    yield from forward(tier, (("stops",), ("dur",), ("stops", "dur"), ("cap", "stops"), ("cap", "dur"), ("stops", "nveh"), ("dur", "drop"), ("stops", "mixed", "fix"), ("dur", "tw"), ("stops", "tw"), ("stops", "per")))
    yield from units(tier, (("dur",), ("cap", "dur"), ("dur", "tw"), ("stops", "dur")), time=(0.25, 60, 3600))
    yield from grid(tier, need=("dur",), avoid=("span",), per=1)
    yield from grid(tier, need=("stops",), avoid=("span", "dur"), per=1)
    yield from large(tier, feats=(("stops",), ("dur",), ("cap", "stops"), ("cap", "dur"), ("dur", "tw")), sizes=(7, 10))


# --- C04 time windows ---------------------------------------------------------
def tw_inst(n, lay, kinds, svc, src=0, opts=None, cut=None):
    """kinds: per customer, the kind of window relative to the direct travel time from the depot."""
    tm = times(n, lay)
    nd = {i: {} for i in range(n + 2)}
    for i in range(1, n + 1):
        d = tm[0, i] + src
        lo, up = {
            "open": (0, 100),
            "early": (0, d),
            "late": (d + 6, d + 8),
            "mid": (d, d + 4),
            "exact": (d + 3, d + 3),
            "wide": (d + 1, d + 12),
        }[kinds[(i - 1) % len(kinds)]]
        nd[i] = {"lower": lo, "upper": up, "service_time": svc[(i - 1) % len(svc)]}
    if src:
        nd[0] = {"lower": src, "upper": 100}
    if cut is not None:
        nd[n + 1]["upper"] = cut
    return make(n, lay, nd, dict(opts or {}, time_windows=True))


def time_windows(tier):
    T = tier == "thorough"
    i = 0
    for lay in LAYOUTS:
        for kinds in product(("open", "early", "late", "mid", "exact"), repeat=3):
            i += 1
            for svc in ((0,), (1, 0, 2), (3, 1)) if T else ((((0,), (1, 0, 2), (3, 1))[mix(i, 2) % 3]),):
                for src in (0, 2) if T else (2 * (mix(i, 3) % 2),):
                    if not T and not every(i, 2):
                        continue
                    yield S(tw_inst(3, lay, kinds, svc, src), rot(ALL_VARIANTS if every(i, 3, 1) else CSPY_VARIANTS, i, 1))
    # closing time of the depot
    for lay in ("grid", "asym", "two", "detour"):
        for cut in range(14, 34, 1 if T else 2):
            for kinds in (("open",), ("late", "open"), ("mid", "wide")):
                i += 1
                yield tagged(S(tw_inst(3, lay, kinds, (1, 0, 2), 0, None, cut), rot(ALL_VARIANTS, i, 1)), lay)
    # the Sink opens late
    for lay in ("grid", "asym", "two", "sparse"):
        for lo, up in ((10, 20), (25, 40), (16, 16), (40, 90)):
            for kinds in (("open",), ("late", "open"), ("mid", "wide"), ("early", "open")):
                i += 1
                inst = tw_inst(3, lay, kinds, (1, 0, 2), 2 * (i % 2))
                inst["nodes"][-1][1].update(lower=lo, upper=up)
                yield S(inst, rot(ALL_VARIANTS if every(i, 3, 1) else CSPY_VARIANTS, i, 1))
    # a limited duration, a capacity or a fleet as well
    for lay in ("grid", "asym", "asym2"):
        for kinds in product(("open", "late", "wide"), repeat=3):
            i += 1
            for k, extra in enumerate(({"duration": 14}, {"duration": 18}, {"num_stops": 2}, {"num_vehicles": 2}, {"drop_penalty": 9}, {"fixed_cost": 6})):
                if T or every(i + k, 3):
                    yield S(tw_inst(3, lay, kinds, (0, 1), 0, extra), rot(ALL_VARIANTS if every(i, 3, 1) else CSPY_VARIANTS, i + k, 1))
    for lay in ("grid", "two", "asym2", "detour"):
        for kinds in product(("open", "early", "late", "wide"), repeat=4):
            i += 1
            if T or every(i, 6):
                yield S(tw_inst(4, lay, kinds, (1, 0)), rot(CSPY_VARIANTS, i, 1))
    yield from forward(tier, (("tw",), ("cap", "tw"), ("tw", "stops"), ("tw", "drop"), ("tw", "mixed", "fix"), ("tw", "nveh"), ("tw", "dur")))
    yield from units(tier, (("tw",), ("cap", "tw"), ("tw", "drop"), ("tw", "mixed", "fix"), ("tw", "stops")), time=(0.125, 60, 3600, 100000))
    yield from grid(tier, need=("tw",), avoid=("span", "pd"), per=1)
    yield from large(tier, feats=(("tw",), ("cap", "tw"), ("tw", "dur"), ("cap", "tw", "drop"), ("cap", "tw", "mixed")), sizes=(7, 10))


def tagged(job, lay):
    tag(job["inst"], lay)
    return job


# --- C05 pickup and delivery ----------------------------------------------------
def pickup_delivery(tier):
    T = tier == "thorough"
    i = 0
    pairings = [((1, 2), (3, 4)), ((2, 1), (3, 4)), ((1, 3), (4, 2)), ((4, 1), (2, 3)), ((1, 4), (2, 3)), ((3, 1), (4, 2))]
    for lay in ("grid", "two", "line", "asym", "asym2", "detour", "clus"):
        for pr in pairings:
            for w in ((1, 1), (2, 1), (3, 2), (0, 2)):
                for cap in (3, 4, 5, None):
                    i += 1
                    if (not T and not every(i, 4)) or (cap and max(w) > cap):
                        continue
                    nd = {}
                    for (a, b), q in zip(pr, w):
                        nd[a] = {"request": b, "demand": q}
                        nd[b] = {"demand": -q}
                    for extra in ({}, {"num_stops": 2}, {"num_vehicles": 1}, {"duration": 26}, {"fixed_cost": 5}, {"drop_penalty": 6}) if T else (({}, {"num_vehicles": 1}, {"num_stops": 2}, {"fixed_cost": 5}, {"duration": 26}, {"drop_penalty": 6})[mix(i, 2) % 6],):
                        o = dict(extra)
                        if cap:
                            o["load_capacity"] = cap
                        yield tagged(S(make(4, lay, nd, o), rot(PDV, i, 1)), lay)
    # time windows
    for lay in ("grid", "two", "line"):
        for pr in pairings[:4]:
            for kinds in product(("open", "wide", "late"), repeat=2):
                i += 1
                inst = tw_inst(4, lay, ("open", kinds[0], "open", kinds[1]), (0, 1), 0, {"pickup_delivery": True, "load_capacity": 4})
                for (a, b), q in zip(pr, (2, 3)):
                    inst["nodes"][a][1].update(request=b, demand=q)
                    inst["nodes"][b][1].update(demand=-q)
                yield tagged(S(inst, rot(PDV, i, 1)), lay)
    # three requests
    for lay in ("grid", "asym", "two"):
        for pr in (((1, 2), (3, 4), (5, 6)), ((6, 1), (2, 5), (4, 3)), ((1, 6), (2, 3), (5, 4))):
            for cap in (3, 4, 6):
                i += 1
                nd = {}
                for (a, b), q in zip(pr, (1, 3, 2)):
                    nd[a] = {"request": b, "demand": q}
                    nd[b] = {"demand": -q}
                o = {"load_capacity": cap}
                if i % 3 == 0:
                    o["num_vehicles"] = 2
                yield tagged(S(make(6, lay, nd, o), rot(PDV[:2], i, 1)), lay)
    # edges are missing, also the one from a pickup to its delivery
    for lay in ("grid", "asym", "two", "clus"):
        for pr in pairings:
            (a, b), (c, d) = pr
            for miss in ([(a, b)], [(c, d)], [(a, b), (c, d)], [(a, b), (b, d)], [(a, c), (c, d)], [(a, c), (b, d)], [(d, b), (b, c)]):
                for w, cap in (((2, 2), 4), ((1, 1), None), ((2, 1), 3), ((0, 0), 3)):
                    i += 1
                    if not T and not every(i, 3):
                        continue
                    nd = {a: {"request": b, "demand": w[0]}, b: {"demand": -w[0]}, c: {"request": d, "demand": w[1]}, d: {"demand": -w[1]}}
                    o = dict(({}, {"num_vehicles": 1}, {"fixed_cost": 9}, {"drop_penalty": 9})[mix(i, 2) % 4])
                    if cap:
                        o["load_capacity"] = cap
                    yield S(make(4, lay, nd, o, drop_edges=miss), rot(PDV, i, 1))
    # dropping: never one half of a request
    for lay in ("grid", "asym", "detour", "asym2"):
        for pr in pairings:
            for pen in (3, 6, 9, 12, 16):
                for w, far in (((0, 0), 0), ((0, 0), 1), ((1, 0), 0), ((0, 1), 1)):
                    i += 1
                    if not T and not every(i, 3):
                        continue
                    (a, b), (c, d) = pr
                    nd = {a: {"request": b, "demand": w[0]}, b: {"demand": -w[0]}, c: {"request": d, "demand": w[1]}, d: {"demand": -w[1]}}
                    out = (a, c) if far else (b, d)
                    inst = make(4, lay, nd, {"drop_penalty": pen})
                    for e in inst["edges"]:
                        e[2]["cost"] += 15 * ((e[0] in out) + (e[1] in out))
                    if every(i, 2, 3):
                        inst["opts"]["load_capacity"] = 2
                    yield S(inst, rot(PDV, i, 1))
    yield from units(tier, (("pd", "cap"), ("pd", "cap", "tw"), ("pd",)), time=(0.25, 1000), load=(1, 100), lays=("grid", "two", "line"))
    yield from grid(tier, need=("pd",), per=1)


def pd_all(tier):
    yield from pickup_delivery(tier)
    yield from pd_types(tier)


def _pd(gen):
    for j in gen:
        j["inst"]["opts"]["pickup_delivery"] = True
        yield j


# --- C06 simultaneous distribution and collection -------------------------------
def dist_coll(tier):
    T = tier == "thorough"
    i = 0
    for lay in ("grid", "asym", "two", "asym2", "detour", "sparse"):
        for qs in product(((0, 2), (1, 0), (1, 3), (2, 2), (3, 1), (3, 3), (0, 0)), repeat=3):
            i += 1
            if not T and not every(i, 3):
                continue
            for cap in (3, 4, 5) if T else ((3, 4, 5)[mix(i, 2) % 3],):
                nd = {v + 1: {"demand": q[0], "collect": q[1]} for v, q in enumerate(qs)}
                yield S(make(3, lay, nd, {"load_capacity": cap, "distribution_collection": True}), rot(ALL_VARIANTS if every(i, 3, 1) else CSPY_VARIANTS, i, 1))
    for lay in ("grid", "asym"):
        for qs in product(((1, 3), (3, 1), (2, 2)), repeat=4):
            i += 1
            if T or every(i, 3):
                nd = {v + 1: {"demand": q[0], "collect": q[1]} for v, q in enumerate(qs)}
                o = {"load_capacity": 5, "distribution_collection": True}
                o.update(({}, {"num_stops": 3}, {"fixed_cost": 4}, {"num_vehicles": 3})[mix(i, 2) % 4])
                yield S(make(4, lay, nd, o), rot(CSPY_VARIANTS, i, 1))
    # amounts that are not whole numbers
    for lay in ("grid", "asym", "two"):
        for qs in product(((0.5, 1.5), (1.5, 0.5), (2.5, 1.5), (1.7, 2.6)), repeat=3):
            i += 1
            if T or every(i, 3):
                nd = {v + 1: {"demand": q[0], "collect": q[1]} for v, q in enumerate(qs)}
                yield S(make(3, lay, nd, {"load_capacity": 3 + mix(i, 2) % 3, "distribution_collection": True}), rot(ALL_VARIANTS if every(i, 3, 1) else CSPY_VARIANTS, i, 1))
    for lay in FORWARD:
        for n, q, c, cap in ((6, 0.3, 0.51, 3), (7, 0.51, 0.2, 4), (7, 0, 0.51, 4), (7, 0.5, 0.55, 4), (6, 0.6, 0.6, 4)):
            i += 1
            nd = {v: {"demand": q, "collect": c} for v in range(1, n + 1)}
            for extra in ({}, {"fixed_cost": 25}):
                yield S(tag(make(n, lay, nd, dict(extra, load_capacity=cap, distribution_collection=True)), lay), rot(CSPY_VARIANTS, i, 1))
    # many customers that only deliver or only collect
    for lay in FORWARD:
        for n, cap in ((6, 3), (7, 3), (7, 4), (8, 4)):
            for pat in (((1, 0), (0, 1)), ((1, 0), (1, 0), (0, 1)), ((2, 0), (0, 1), (0, 1)), ((1, 1),), ((0, 1),), ((1, 0),), ((2, 1), (0, 0), (0, 1))):
                i += 1
                if n == 8 and not T:
                    continue
                nd = {v: {"demand": pat[(v - 1) % len(pat)][0], "collect": pat[(v - 1) % len(pat)][1]} for v in range(1, n + 1)}
                o = {"load_capacity": cap, "distribution_collection": True}
                if every(i, 2, 4):
                    o["fixed_cost"] = 25
                yield S(tag(make(n, lay, nd, o), lay), rot(ALL_VARIANTS if every(i, 4, 1) else CSPY_VARIANTS, i, 1))
    yield from forward(tier, (("cap", "sdc"), ("cap", "sdc", "stops"), ("cap", "sdc", "nveh"), ("cap", "sdc", "drop"), ("cap", "sdc", "mixed"), ("cap", "sdc", "tw"), ("cap", "sdc", "fix")))
    yield from unused(tier, need=("cap", "sdc"), step=1)
    yield from units(tier, (("cap", "sdc"), ("cap", "sdc", "mixed"), ("cap", "sdc", "tw")), load=(100, 1000, 7))
    yield from grid(tier, need=("cap", "sdc"), avoid=("span",), per=2)
    yield from large(tier, feats=(("cap", "sdc"), ("cap", "sdc", "stops"), ("cap", "sdc", "drop")), sizes=(6, 8))


# --- C07 fleet ------------------------------------------------------------------
def no_vehicles(tier):
    T = tier == "thorough"
    i = 0
    # types without vehicles
    for lay in ("grid", "asym", "two", "detour"):
        for nv in ([0, 2], [2, 0], [0, 3], [3, 0], [0, 1, 2], [2, 0, 1], [1, 2, 0], [0, 3, 0]):
            for ua in (False, True):
                for caps in ([3, 5, 4], [6, 4, 5], None):
                    i += 1
                    if not T and not every(i, 2):
                        continue
                    nd = {v: {"demand": 1 + v % 2} for v in range(1, 4)}
                    o = {"mixed_fleet": True, "num_vehicles": list(nv)}
                    if caps:
                        o["load_capacity"] = caps[: len(nv)]
                    if mix(i, 7) % 3 == 0:
                        o["fixed_cost"] = [0, 3, 1][: len(nv)]
                    if ua:
                        o["use_all_vehicles"] = True
                    # what is not there would be the cheapest
                    cost = lambda a, b, c, k: c + (0 if nv[k] == 0 else 3 + (a + b + k) % 2)  # noqa: E731,B023
                    yield S(make(3, lay, nd, o, len(nv), cost=cost), rot(ALL_VARIANTS if every(i, 4, 1) else CSPY_VARIANTS, i, 1))


def fleet(tier):
    T = tier == "thorough"
    i = 0
    for lay in LAYOUTS:
        for n in (3, 4):
            for nv in range(1, n + 1):
                for ua in (False, True):
                    for c in ({}, {"load_capacity": 4}, {"num_stops": 2}, {"fixed_cost": 5}, {"load_capacity": 3, "drop_penalty": 8}, {"drop_penalty": 5}):
                        i += 1
                        if not T and not every(i, 2):
                            continue
                        nd = {v: {"demand": 1 + v % 2} for v in range(1, n + 1)}
                        o = dict(c, num_vehicles=nv)
                        if ua:
                            o["use_all_vehicles"] = True
                        yield S(make(n, lay, nd, o), rot(ALL_VARIANTS if every(i, 3, 1) else CSPY_VARIANTS, i, 1))
    for lay in ("grid", "asym", "two"):
        for nv in product((1, 2, 3), repeat=2):
            for ua in (False, True):
                for caps in ([3, 5], [4, 4], [6, 2], None):
                    for fx in ([0, 4], [5, 1], None):
                        i += 1
                        if not T and not every(i, 2):
                            continue
                        nd = {v: {"demand": 1 + v % 2} for v in range(1, 5)}
                        o = {"mixed_fleet": True, "num_vehicles": list(nv)}
                        if caps:
                            o["load_capacity"] = caps
                        if fx:
                            o["fixed_cost"] = fx
                        if ua:
                            o["use_all_vehicles"] = True
                        cost = lambda a, b, c, k: c + k * ((a + 2 * b) % 3)  # noqa: E731
                        yield S(make(4, lay, nd, o, 2, cost=cost), rot(ALL_VARIANTS if every(i, 5, 1) else CSPY_VARIANTS, i, 1))
    yield from no_vehicles(tier)
    yield from forward(tier, (("nveh",), ("cap", "nveh"), ("stops", "nveh"), ("cap", "nveh", "useall"), ("stops", "nveh", "useall"), ("cap", "mixed", "nveh"), ("cap", "mixed", "nveh", "useall"), ("cap", "nveh", "drop"), ("tw", "nveh")))
    yield from grid(tier, need=("nveh",), avoid=("span", "per"), per=1)
    yield from large(tier, feats=(("nveh",), ("cap", "nveh"), ("stops", "nveh"), ("cap", "nveh", "drop"), ("cap", "mixed", "nveh")), sizes=(7, 9))


# --- C08 dropping ----------------------------------------------------------------
def drops(tier):
    T = tier == "thorough"
    i = 0
    for lay in LAYOUTS:
        for pen in (1, 3, 5, 8, 13, 50):
            for nv in (None, 1, 2):
                for c in ({}, {"load_capacity": 3}, {"num_stops": 1}, {"num_stops": 2}, {"duration": 0}, {"fixed_cost": 4}):
                    i += 1
                    if not T and not every(i, 2):
                        continue
                    nd = {v: {"demand": 1 + v % 3, "service_time": v % 2} for v in range(1, 4)}
                    o = dict(c, drop_penalty=pen)
                    if c.get("duration") == 0:
                        ds = durations(3, lay, {v: v % 2 for v in range(1, 4)})
                        o["duration"] = ds[len(ds) // 3] if len(ds) > 1 else ds[0]
                    if nv:
                        o["num_vehicles"] = nv
                    yield S(make(3, lay, nd, o), rot(ALL_VARIANTS if every(i, 3, 1) else CSPY_VARIANTS, i, 1))
    # customers that cannot be visited in time
    for lay in ("grid", "asym", "two", "detour"):
        tm = times(4, lay)
        for late in range(1, 16):
            for pen in (4, 20):
                i += 1
                nd = {}
                for v in range(1, 5):
                    if late >> (v - 1) & 1:
                        nd[v] = {"lower": 0, "upper": max(0, tm[0, v] - 1)}
                    else:
                        nd[v] = {"lower": 0, "upper": 60}
                yield S(make(4, lay, nd, {"time_windows": True, "drop_penalty": pen}), rot(ALL_VARIANTS if every(i, 3, 1) else CSPY_VARIANTS, i, 1))
    yield from forward(tier, (("drop",), ("cap", "drop"), ("stops", "drop"), ("tw", "drop"), ("dur", "drop"), ("cap", "nveh", "drop"), ("cap", "mixed", "drop"), ("cap", "sdc", "drop"), ("fix", "drop")))
    yield from grid(tier, need=("drop",), avoid=("span",), per=1)
    yield from large(tier, feats=(("drop",), ("cap", "drop"), ("cap", "drop", "nveh"), ("tw", "drop")), sizes=(7, 9))


# --- C10 optimality ----------------------------------------------------------------
def optimal(tier):
    yield from unused(tier, step=3)
    T = tier == "thorough"
    i = 0
    for n in (1, 2, 3, 4, 5) + ((6,) if T else ()):
        for lay in LAYOUTS:
            for o in ({}, {"num_stops": 2}, {"load_capacity": 4}, {"fixed_cost": 3}, {"load_capacity": 5, "num_vehicles": n}, {"load_capacity": 5, "fixed_cost": 9}, {"num_stops": 3, "fixed_cost": 2}):
                for sel in range(4 if T else 2):
                    i += 1
                    nd = {v: {"demand": 1 + (v + sel) % 3} for v in range(1, n + 1)}
                    yield S(make(n, lay, nd, dict(o)), rot(ALL_VARIANTS if every(i, 3, 1) else CSPY_VARIANTS, i, 2))
    # the scale of the data does not matter
    for lay in ("grid", "asym", "two", "clus"):
        for scale in (0.001, 0.01, 0.37, 1000, 12345.678, 1e6):
            if scale < 0.01:
                continue
            for o in ({}, {"load_capacity": 4}, {"num_stops": 2}, {"load_capacity": 4, "num_vehicles": 4}, {"load_capacity": 4, "drop_penalty": 7 * scale}):
                i += 1
                nd = {v: {"demand": 1 + v % 3} for v in range(1, 5)}
                cost = lambda a, b, c, k: round(c * scale, 4)  # noqa: E731,B023
                yield S(make(4, lay, nd, dict(o), cost=cost), rot(CSPY_VARIANTS, i, 2))
    # small gains (still above the pricing tolerance)
    for lay in ("grid", "asym", "two", "asym2", "detour"):
        for scale in (0.01, 0.02, 0.05, 0.1):
            for f in (("cap",), ("cap", "tw"), ("stops",), ("cap", "mixed"), ("cap", "sdc"), ("tw",), ("cap", "per")):
                i += 1
                if not T and not every(i, 2):
                    continue
                inst = combo(f, 4, lay, i % 4)
                for e in inst["edges"]:
                    c = e[2]["cost"]
                    e[2]["cost"] = [round(x * scale, 4) for x in c] if isinstance(c, list) else round(c * scale, 4)
                yield S(tag(inst, lay), rot(ALL_VARIANTS if every(i, 3, 1) else CSPY_VARIANTS, i, 1))
    yield from forward(tier, ((), ("cap",), ("stops",), ("dur",), ("tw",), ("cap", "mixed", "fix"), ("cap", "nveh"), ("cap", "drop"), ("cap", "sdc"), ("fix",)))
    # free edges
    for n in (3, 4):
        for free in range(1, 2 ** n, 1 if T else 2):
            i += 1
            cost = lambda a, b, c, k: 0 if a and free >> (a - 1) & 1 else c  # noqa: E731,B023
            nd = {v: {"demand": 1 + v % 2} for v in range(1, n + 1)}
            yield S(make(n, "grid", nd, {"load_capacity": 4}, cost=cost), rot(ALL_VARIANTS, i, 2))
            cost0 = lambda a, b, c, k: 0 if a and b <= n else c  # noqa: E731,B023
            yield S(make(n, "asym", nd, {"num_stops": 2}, cost=cost0), rot(ALL_VARIANTS, i, 1))
    yield from grid(tier, avoid=("span",), per=1, only=lambda f: len(f) <= (13 if T else 4))
    yield from elementary_traps(tier, 1)


# --- C11 verdicts --------------------------------------------------------------------
def verdicts(tier):
    yield from unused(tier, step=3)
    """Problems around the border of feasibility."""
    T = tier == "thorough"
    i = 0
    for lay in LAYOUTS:
        for q in product((1, 2, 3), repeat=3):
            for cap in (3, 4, 5):
                for nv in (1, 2, 3):
                    i += 1
                    if not T and not every(i, 4):
                        continue
                    nd = {v + 1: {"demand": q[v]} for v in range(3)}
                    yield S(make(3, lay, nd, {"load_capacity": cap, "num_vehicles": nv}), rot(ALL_VARIANTS if every(i, 2, 1) else CSPY_VARIANTS, i, 1))
        for d in range(1, 40, 1 if T else 3):
            i += 1
            yield S(make(3, lay, {1: {"service_time": 2}}, {"duration": d}), rot(ALL_VARIANTS, i, 1))
            yield S(make(3, lay, {2: {"service_time": 1}}, {"duration": d, "num_vehicles": 2}), rot(CSPY_VARIANTS, i, 1))
        for nv in (1, 2, 3, 4, 5):
            for st in (1, 2, 3):
                for ua in (False, True):
                    i += 1
                    o = {"num_vehicles": nv, "num_stops": st}
                    if ua:
                        o["use_all_vehicles"] = True
                    yield S(make(4, lay, {}, o), rot(ALL_VARIANTS if every(i, 4, 1) else CSPY_VARIANTS, i, 1))
        # time windows that may or may not be met
        tm = times(3, lay)
        for slack in product((-1, 0, 5), repeat=3):
            i += 1
            nd = {v: {"lower": 0, "upper": max(0, tm[0, v] + slack[v - 1]), "service_time": 1} for v in (1, 2, 3)}
            for v in nd:
                if nd[v]["upper"] == 0:
                    nd[v]["upper"] = 1
            yield S(make(3, lay, nd, {"time_windows": True}), rot(ALL_VARIANTS if every(i, 6, 1) else CSPY_VARIANTS, i, 1))
    # each vehicle type may be the only one that is large enough, and there may be too few of it
    for lay in ("grid", "asym", "two"):
        for q in product((1, 2, 4), repeat=3):
            for caps in ([2, 4], [4, 2], [3, 3], [1, 3], [3, 1, 4]):
                for nv in (None, [1] * len(caps), [2] + [1] * (len(caps) - 1), [1] * (len(caps) - 1) + [2]):
                    i += 1
                    if not T and not every(i, 4):
                        continue
                    nd = {v + 1: {"demand": q[v]} for v in range(3)}
                    o = {"mixed_fleet": True, "load_capacity": list(caps)}
                    if nv:
                        o["num_vehicles"] = nv
                    cost = lambda a, b, c, k: c + k  # noqa: E731
                    yield S(make(3, lay, nd, o, len(caps), cost=cost), rot(ALL_VARIANTS if every(i, 2, 1) else CSPY_VARIANTS, i, 1))
    # pickup and delivery, distribution and collection: amounts against the capacity
    for lay in ("grid", "asym", "two"):
        for w in product((1, 2, 3, 5), repeat=2):
            for cap in (2, 3, 5):
                for nv in (None, 1, 2):
                    i += 1
                    if T or every(i, 2):
                        nd = {1: {"request": 2, "demand": w[0]}, 2: {"demand": -w[0]}, 4: {"request": 3, "demand": w[1]}, 3: {"demand": -w[1]}}
                        o = {"pickup_delivery": True, "load_capacity": cap}
                        if nv:
                            o["num_vehicles"] = nv
                        yield tagged(S(make(4, lay, nd, o), rot(PDV, i, 1)), lay)
                    nd = {1: {"demand": w[0], "collect": w[1]}, 2: {"demand": w[1], "collect": 1}, 3: {"demand": 1, "collect": w[0]}}
                    o = {"distribution_collection": True, "load_capacity": cap}
                    if nv:
                        o["num_vehicles"] = nv
                    if max(w) <= cap:
                        yield S(make(3, lay, nd, o), rot(CSPY_VARIANTS, i, 1))
    yield from forward(tier, (("cap", "nveh"), ("stops", "nveh"), ("cap", "mixed", "nveh"), ("dur", "nveh"), ("tw", "nveh"), ("cap", "nveh", "useall"), ("cap", "sdc", "nveh")))
    yield from grid(tier, avoid=("span",), per=1, only=lambda f: len(f) >= 5)


# --- C12 solver options -------------------------------------------------------------
def options(tier):
    T = tier == "thorough"
    cases = []
    for f in ((), ("cap",), ("stops",), ("dur",), ("cap", "stops"), ("cap", "dur"), ("cap", "nveh"), ("cap", "nveh", "useall"),
              ("tw",), ("cap", "tw"), ("cap", "sdc"), ("cap", "drop"), ("cap", "mixed"), ("cap", "mixed", "fix", "nveh"), ("cap", "per"),
              ("cap", "fix"), ("dur", "tw"), ("stops", "nveh", "drop")):
        for k, lay in enumerate(LAYOUTS if T else ("grid", "asym", "detour")):
            for sel in (0, 1, 2, 3) if T else (k % 4,):
                cases.append((f, lay, sel))
    for f, lay, sel in cases:
        inst = tag(combo(f, 4 if len(f) < 3 else 3, lay, sel), lay)
        vs = list(ALL_VARIANTS)
        vs += [dict(v, run_exact=r) for v in ALL_VARIANTS[::13] for r in (2, 3)]
        if not T:
            vs = [v for k, v in enumerate(vs) if v.get("cspy") is not False or k % 3 == len(f) % 3]
        # split in two jobs for balance
        h = len(vs) // 3
        for part in (vs[:h], vs[h: 2 * h], vs[2 * h:]):
            yield S(inst, part)


# --- C13 histories ---------------------------------------------------------------------
def histories(tier):
    T = tier == "thorough"
    nd = {1: {"demand": 1}, 2: {"demand": 2}, 3: {"demand": 2}}
    base = make(3, "grid", nd, {})
    asym = make(3, "asym", nd, {"load_capacity": 4})
    solves = [["solve", {}], ["solve", {"cspy": False}], ["solve", {"dive": True}], ["solve", {"greedy": True}],
              ["solve", {"max_iter": 1}], ["solve", {"heuristic_only": True}], ["solve", {"pricing_strategy": "Exact", "elementary": True}],
              ["solve", {"preassignments": [[SRC, 2, SNK]]}], ["solve", {"initial_routes": [[SRC, 1, 2, SNK], [SRC, 3, SNK]]}],
              ["solve", {"pricing_strategy": "BestPaths"}], ["solve", {"time_limit": 100}]]
    data = [["set", "num_stops", 2], ["unset", "num_stops"], ["set", "load_capacity", 3], ["set", "load_capacity", 4],
            ["unset", "load_capacity"], ["set", "duration", 9], ["unset", "duration"], ["set", "num_vehicles", 2], ["set", "num_vehicles", 3],
            ["unset", "num_vehicles"], ["set", "use_all_vehicles", True], ["set", "drop_penalty", 4], ["unset", "drop_penalty"],
            ["set", "fixed_cost", 5], ["unset", "fixed_cost"], ["set", "periodic", 2], ["unset", "periodic"], ["set", "time_windows", True],
            ["set", "minimize_global_span", True], ["unset", "minimize_global_span"],
            ["set", "load_capacity", 1],
            ["node", 1, {"demand": 3}], ["node", 2, {"frequency": 2}], ["node", 3, {"service_time": 4}],
            ["node", 2, {"lower": 3, "upper": 9}],
            ["edge", SRC, 2, {"cost": 20}], ["edge", 1, 2, {"cost": 0}], ["edge", 3, SNK, {"time": 9}], ["del", 1, 2],
            ["add", 4, {"demand": 1, "upper": 30}, [[SRC, 4, {"cost": 4, "time": 4}], [4, SNK, {"cost": 5, "time": 5}], [3, 4, {"cost": 1, "time": 1}]]]]
    tw = [["node", v, {"upper": 30}] for v in (1, 2, 3)]
    out = []
    first = [[], [["set", "load_capacity", 4]], [["set", "num_stops", 2]], [["set", "num_vehicles", 3], ["set", "fixed_cost", 2]]]
    # any data operation (or none) between any two solves
    for st in first:
        for a in solves if T else solves[:8]:
            for d in [None] + data:
                for b in solves if T else (solves[0], solves[1], solves[5]):
                    h = list(tw) + list(st) + [a] + ([d] if d else []) + [b]
                    out.append(h)
    # two data operations, then two solves
    for d1 in data:
        for d2 in data if T else data[::4]:
            out.append(list(tw) + [solves[0], d1, solves[0], d2, solves[3], solves[0]])
    # solve after solve after solve
    for a, b, c in product(solves, repeat=3):
        if T or (solves.index(a) + solves.index(b) + solves.index(c)) % 3 == 0:
            out.append([a, b, c])
    # dropped customers are forgotten
    lock = [["solve", {"preassignments": [[SRC, 1, SNK], [SRC, 2, SNK], [SRC, 3, SNK]]}], ["solve", {"preassignments": [[SRC, 1, 2, SNK], [SRC, 3, SNK]], "cspy": False}]]
    for a in solves[:5]:
        for b in lock + solves[:8]:
            out.append([["set", "drop_penalty", 3], a, b])
            out.append([["set", "drop_penalty", 3], ["set", "num_stops", 1], a, ["set", "drop_penalty", 30], ["unset", "num_stops"], b, a])
    # the limits of an earlier call do not stay
    caps = [["set", "load_capacity", 3], ["set", "load_capacity", 2], ["set", "load_capacity", 5]]
    loose = [[["unset", "load_capacity"]], [["set", "load_capacity", 20]], [["node", v, {"demand": 0}] for v in (1, 2, 3)],
             [["set", "distribution_collection", True], ["unset", "load_capacity"], ["set", "load_capacity", 9]]]
    for a in solves[:8] if T else (solves[0], solves[5], solves[7]):
        for c in caps:
            for l in loose:
                for b in solves if T else (solves[0],):
                    out.append([c, a] + l + [b])
                    out.append([c, ["set", "num_stops", 3], a] + l + [b])
                    out.append([["set", "duration", 9], c, a, ["unset", "duration"]] + l + [b, a])
    # locked routes and the order of calls when the plan to start from is not good
    locks = [["solve", {"preassignments": [[SRC, 2, SNK]]}], ["solve", {"preassignments": [[SRC, 3, SNK]], "cspy": False}],
             ["solve", {"preassignments": [[SRC, 1, SNK]], "initial_routes": [[SRC, 2, SNK], [SRC, 3, SNK]]}],
             ["solve", {"initial_routes": [[SRC, 1, SNK], [SRC, 2, SNK], [SRC, 3, SNK]]}]]
    for st in (tw + [["set", "time_windows", True]], tw + [["set", "time_windows", True], ["set", "load_capacity", 4]]):
        for a, b in product(locks + solves[:4], repeat=2):
            if a in locks or b in locks:
                out.append(st + [a, b, a])
    # failures in between
    for a in solves:
        for bad in (["set", "load_capacity", 1], ["set", "duration", 1], ["set", "num_vehicles", 1]):
            undo = ["unset", bad[1]]
            out.append([["set", "num_stops", 2], a, bad, solves[0], undo, a])
    if not T:
        out = [h for i, h in enumerate(out) if every(i, 2, 4) or i > len(out) - 40]
    for inst in (base, asym) if T else (base,):
        for i in range(0, len(out), 4):
            yield dict(kind="hist", inst=inst, histories=out[i:i + 4])
    if not T:
        for i in range(0, len(out), 40):
            yield dict(kind="hist", inst=asym, histories=out[i:i + 4])
    # enough customers for the number of stops to be deduced from the capacity
    for lay in FORWARD[:1]:
        for n, q in ((5, 2), (6, 2), (6, 3)):
            inst = make(n, lay, {v: {"demand": q} for v in range(1, n + 1)}, {"load_capacity": q})
            hs = [[a] + l + [b] for a in (solves[0], solves[1], solves[3], solves[5], solves[7])
                  for l in ([["unset", "load_capacity"]], [["set", "load_capacity", 30]], [["node", v, {"demand": 0}] for v in range(1, n + 1)], [["unset", "load_capacity"], ["set", "num_stops", n - 1]])
                  for b in (solves[0], solves[2], solves[5])]
            for k in range(0, len(hs), 4):
                yield dict(kind="hist", inst=inst, histories=hs[k:k + 4])
    # mixed fleet, pickup and delivery, distribution and collection: solve again after changes
    for f in (("cap", "mixed", "fix"), ("cap", "sdc"), ("cap", "pd"), ("cap", "per", "nveh"), ("cap", "tw", "dur"), ("cap", "mixed", "nveh", "drop"), ("nveh", "useall", "fix")):
        for lay in ("grid", "asym"):
            inst = tag(combo(f, 4 if "pd" in f else 3, lay, 0), lay)
            sv = [["solve", {"cspy": False}]] if "pd" in f else [["solve", {}], ["solve", {"cspy": False}], ["solve", {"dive": True}], ["solve", {"greedy": True}]]
            ops = [["node", 1, {"service_time": 2}], ["edge", SRC, 1, {"cost": [15, 3] if "mixed" in f else 15}], ["set", "num_stops", 2], ["unset", "num_stops"], ["set", "drop_penalty", 9] if "per" not in f else ["set", "periodic", 3],
                   ["set", "fixed_cost", [9, 1] if "mixed" in f else 9], ["edge", 2, SNK, {"time": 3}]]
            hs = [[a, d, b, c] for a in sv for d in ops for b in sv for c in sv[:2]]
            hs += [[a, b, c] for a in sv for b in sv for c in sv]
            if not T:
                hs = hs[::4]
            for i in range(0, len(hs), 4):
                yield dict(kind="hist", inst=inst, histories=hs[i:i + 4])


# --- C14 input --------------------------------------------------------------------------
def inputs(tier):
    i = 0
    for job in grid(tier, per=1):
        i += 1
        yield dict(kind="keep", inst=job["inst"], variants=job["variants"])
    nd = {v: {"demand": 1 + v % 2} for v in range(1, 4)}
    for lay in LAYOUTS:
        for o in ({"load_capacity": 4}, {"num_stops": 2}, {"load_capacity": 4, "num_vehicles": 3, "fixed_cost": 3}, {"load_capacity": 4, "drop_penalty": 5}):
            inst = make(3, lay, nd, o)
            vs = [{"preassignments": [[SRC, 1], [SRC, 2, SNK]]}, {"preassignments": [[SRC, 3, SNK], [1, SNK], [SRC, 2, SNK]]},
                  {"preassignments": [[SRC, 3, SNK], [SRC, 1, SNK], [SRC, 2, SNK]]}, {"preassignments": [[SRC, 3, SNK], [SRC, 1, SNK]], "cspy": False},
                  {"preassignments": [[SRC, 2, SNK], [SRC, 1, SNK]], "heuristic_only": True},
                  {"preassignments": [[SRC, 2, SNK]], "initial_routes": [[SRC, 3, SNK], [SRC, 1, SNK]]},
                  {"initial_routes": [[SRC, v, SNK] for v in (3, 1, 2)], "dive": True}, {"initial_routes": [[SRC, v, SNK] for v in (2, 1, 3)] + [[SRC, 1, SNK]]},
                  {"preassignments": [[SRC, 1, SNK]]}, {"preassignments": [[SRC, 1, SNK], [SRC, 2, SNK]]}, {"preassignments": [[SRC, 2]]},
                  {"initial_routes": [[SRC, v, SNK] for v in (1, 2, 3)]}, {"initial_routes": [[SRC, v, SNK] for v in (1, 2, 3)], "cspy": False},
                  {"heuristic_only": True}, {"max_iter": 1}, {"time_limit": 100}]
            E = {(e[0], e[1]) for e in inst["edges"]}
            for plan in ([[SRC, 1, 2, SNK], [SRC, 3, SNK]], [[SRC, 3, 1, SNK], [SRC, 2, SNK]], [[SRC, 2, 3, SNK], [SRC, 1, SNK]], [[SRC, 1, 2, 3, SNK]], [[SRC, 3, 2, 1, SNK], [SRC, 1, SNK]]):
                if all(e in E for r in plan for e in zip(r, r[1:])):
                    vs += [{"initial_routes": plan}, {"initial_routes": plan, "max_iter": 1, "pricing_strategy": "Exact"}]
            yield dict(kind="keep", inst=inst, variants=vs)
    # failing calls leave the input alone as well
    for lay in ("grid", "asym"):
        for o in ({"load_capacity": 1}, {"duration": 1}, {"num_vehicles": 1, "num_stops": 2}, {"load_capacity": 2.5}):
            yield dict(kind="keep", inst=make(3, lay, nd, o), variants=[{}, {"cspy": False}, {"pricing_strategy": "none"}, {"heuristic_only": True}])


# --- C15 limits ---------------------------------------------------------------------------
def limits(tier):
    T = tier == "thorough"
    feats = [(), ("cap",), ("stops",), ("dur",), ("cap", "tw"), ("cap", "sdc"), ("cap", "drop"), ("cap", "mixed"), ("cap", "per"), ("cap", "fix"), ("cap", "nveh"), ("stops", "nveh", "useall"), ("cap", "mixed", "nveh", "fix"), ("cap", "span"), ("cap", "pd")]
    base = [{}, {"dive": True}, {"greedy": True}, {"pricing_strategy": "BestEdges2"}, {"pricing_strategy": "BestPaths"}, {"cspy": False}, {"pricing_strategy": "Hyper"}, {"elementary": True}, {"cspy": False, "dive": True}]
    i = 0
    for f in feats:
        for lay in LAYOUTS if T else ("grid", "asym"):
            i += 1
            inst = tag(combo(f, 4, lay, i % 4), lay)
            b = [v for v in base if v.get("cspy") is False] if "pd" in f else base
            if "span" in f:
                b = [b[0]]
            if not T:
                b = [b[i % len(b)], b[(i + 4) % len(b)]]
            for v in b:
                yield dict(kind="clock", inst=inst, variants=[v], jumps=[1000.0, 99.7, 99.9999, 100.3] if T else [[1000.0], [99.9999], [1000.0], [100.3], [99.7]][mix(i, 3) % 5], step=1 if (T or "span" not in f) else 7)
    i = 0
    for f in feats:
        if "span" in f:
            continue
        for lay in LAYOUTS if T else ("two", "asym2", "detour"):
            i += 1
            n = 4
            inst = tag(combo(f, n, lay, i % 4), lay)
            b = [v for v in base if v.get("cspy") is False] if "pd" in f else base
            yield dict(kind="iters", inst=inst, variants=b if T else [b[i % len(b)], b[(i + 1) % len(b)], b[(i + 2) % len(b)]], iters=list(range(1, 13)) if T else [1, 2, 3, 4, 6, 9])


    # the limits are effective
    i = 0
    for f in ((), ("cap",), ("stops",), ("dur",), ("cap", "tw"), ("cap", "mixed"), ("cap", "per"), ("cap", "nveh"), ("cap", "drop"), ("cap", "sdc")):
        for v in ({}, {"dive": True}, {"pricing_strategy": "Exact"}, {"pricing_strategy": "BestPaths"}, {"pricing_strategy": "Hyper"}, {"pricing_strategy": "BestEdges2"}, {"greedy": True}, {"elementary": True}):
            i += 1
            if T or every(i, 2):
                inst = big_combo(f, 8 + 2 * (i % 2), ("grid", "clus", "asym")[i % 3], i % 4)
                yield dict(kind="stop", inst=inst, variants=[v], iters=[1, 2, 3, 5] if T else [1, 3], reads=list(range(2, 20)) if T else [2, 4, 7, 12])


# --- C16 preassigned routes -----------------------------------------------------------------
def sub_routes(n, maxlen=3):
    for m in range(1, maxlen + 1):
        for p in permutations(range(1, n + 1), m):
            yield [SRC, *p, SNK]


def preassigned(tier):
    from .ref import Model

    T = tier == "thorough"
    i = 0
    for f, lay in product(((), ("cap",), ("stops",), ("dur",), ("cap", "fix"), ("cap", "drop"), ("cap", "tw"), ("cap", "mixed", "fix"), ("cap", "nveh"), ("cap", "dur"), ("cap", "sdc"), ("tw",), ("mixed", "fix")), LAYOUTS if T else ("grid", "asym", "two")):
        i += 1
        n = 4
        inst = tag(combo(f, n, lay, i % 4), lay)
        if "nveh" in f:
            inst["opts"]["num_vehicles"] = n
        M = Model(inst)
        ok = [r for r in sub_routes(n) if any(M.route_ok(r, k) for k in range(M.K))]
        locks = [[r] for r in ok]
        locks += [[a, b] for a, b in combinations(ok, 2) if not set(a[1:-1]) & set(b[1:-1])]
        locks += [[a, b, c] for a, b, c in combinations(ok[:8], 3) if len(set(a[1:-1]) | set(b[1:-1]) | set(c[1:-1])) == len(a) + len(b) + len(c) - 6]
        if not T:
            locks = locks[:: max(1, len(locks) // 14)] + locks[-2:]
        cw = not set(f) & {"tw", "mixed", "sdc"}
        vs = [v for v in CSPY_VARIANTS if True] + LPV[:4]
        for k in range(0, len(locks), 4):
            v = rot(vs, i + k, 1)
            if cw and k % 12 == 0:
                v = v + [{"heuristic_only": True}]
            yield dict(kind="pre", inst=inst, locks=locks[k:k + 4], variants=v)
    # three types of vehicles, each of them the cheapest one for some route
    for lay in ("grid", "asym", "two"):
        for caps, fx in (([3, 5, 7], [1, 2, 3]), ([7, 5, 3], [5, 3, 0]), (None, [4, 3, 0]), ([4, 4, 4], None), ([2, 6, 4], [0, 0, 0])):
            i += 1
            o = {"mixed_fleet": True}
            if caps:
                o["load_capacity"] = caps
            if fx:
                o["fixed_cost"] = fx
            cost = (lambda a, b, c, k: c + (a + 2 * b + k) % 3 * 2, lambda a, b, c, k: c + 2 - k, lambda a, b, c, k: c + (k + a) % 3)[i % 3]
            inst = make(4, lay, {v: {"demand": 1 + v % 3} for v in (1, 2, 3, 4)}, o, 3, cost=cost)
            M = Model(inst)
            ok = [r for r in sub_routes(4) if any(M.route_ok(r, k) for k in range(M.K))]
            locks = [[r] for r in ok] + [[a, b] for a, b in combinations(ok, 2) if not set(a[1:-1]) & set(b[1:-1])]
            if not T:
                locks = locks[:: max(1, len(locks) // 12)]
            for k in range(0, len(locks), 4):
                yield dict(kind="pre", inst=inst, locks=locks[k:k + 4], variants=rot(CSPY_VARIANTS + LPV[:2], i + k, 1))
    # the load of a locked route that delivers and collects, or picks up and delivers
    for lay in ("grid", "asym", "two"):
        for caps in ([3, 6], [6, 3], [4, 4], [5, 3, 8]):
            for sel in (0, 1, 2):
                i += 1
                cost = (lambda a, b, c, k: c + k, lambda a, b, c, k: c + (a + b + k) % 3, lambda a, b, c, k: c + 2 * (2 - k))[sel]
                o = {"mixed_fleet": True, "load_capacity": caps}
                dem, col = ((1, 2, 1), (2, 3, 0)), ((3, 1, 2), (0, 2, 3))
                nd = {v: {"demand": (dem, col)[sel % 2][0][v - 1], "collect": (dem, col)[sel % 2][1][v - 1]} for v in (1, 2, 3)}
                a = make(3, lay, nd, dict(o, distribution_collection=True), len(caps), cost=cost)
                w = ((1, 4), (3, 2), (2, 3))[sel]
                nd = {1: {"request": 3, "demand": w[0]}, 3: {"demand": -w[0]}, 4: {"request": 2, "demand": w[1]}, 2: {"demand": -w[1]}}
                b = tag(make(4, lay, nd, dict(o, pickup_delivery=True), len(caps), cost=cost), lay)
                for inst, n, vs in ((a, 3, CSPY_VARIANTS + LPV[:2]), (b, 4, PDV)):
                    M = Model(inst)
                    ok = [r for r in sub_routes(n, 4) if any(M.route_ok(r, k) for k in range(M.K))]
                    locks = [[r] for r in ok] + [[a, b] for a, b in combinations(ok, 2) if not set(a[1:-1]) & set(b[1:-1])]
                    if not T:
                        locks = locks[:: max(1, len(locks) // 4)]
                    for k in range(0, len(locks), 3):
                        yield dict(kind="pre", inst=inst, locks=locks[k:k + 3], variants=rot(vs, i + k, 1))
    # locked routes beyond the limits: the others keep them
    for f, lay in product((("stops",), ("dur",), ("tw",), ("stops", "cap"), ("dur", "cap"), ("stops", "tw"), ("dur", "drop")), LAYOUTS if T else ("grid", "asym", "two")):
        for n in (5, 6) if T else (5,):
            i += 1
            inst = tag(combo(f, n, lay, i % 4), lay)
            M = Model(inst)
            locks = [[r] for r in sub_routes(n, 4) if M.is_path(r) and not any(M.route_ok(r, k) for k in range(M.K)) and M.cap_ok(r, 0)]
            if not T:
                locks = locks[:: max(1, len(locks) // 8)]
            for k in range(0, len(locks), 4):
                yield dict(kind="pre", inst=inst, locks=locks[k:k + 4], variants=rot(CSPY_VARIANTS + LPV[:2], i + k, 1) + ([{"heuristic_only": True}] if "tw" not in f and k % 8 == 0 else []))
    # everything is locked
    for lay in ("grid", "asym"):
        inst = make(3, lay, {v: {"demand": 1} for v in (1, 2, 3)}, {"load_capacity": 3})
        for locks in ([[SRC, 1, 2, 3, SNK]], [[SRC, 3, 1, SNK], [SRC, 2, SNK]], [[SRC, 1, SNK], [SRC, 2, SNK], [SRC, 3, SNK]]):
            yield dict(kind="pre", inst=inst, locks=[locks], variants=[{}, {"cspy": False}, {"dive": True}, {"greedy": True}, {"pricing_strategy": "Hyper"}, {"heuristic_only": True}])

    # partial routes, alone or with a complete one
    for f, lay in product(((), ("cap",), ("stops",), ("dur",), ("tw",), ("cap", "fix"), ("cap", "mixed"), ("cap", "mixed", "fix"), ("cap", "drop"), ("cap", "nveh"), ("cap", "sdc"), ("cap", "tw"), ("dur", "fix")), LAYOUTS if T else ("grid", "asym", "detour")):
        i += 1
        inst = tag(combo(f, 4, lay, i % 4), lay)
        if "nveh" in f:
            inst["opts"]["num_vehicles"] = 4
        M = Model(inst)
        E = {(e[0], e[1]) for e in inst["edges"]}
        seqs = [list(p) for m in (2, 3) for p in permutations((1, 2, 3, 4), m)]
        seqs += [[SRC, a] for a in (1, 2, 3, 4)] + [[a, SNK] for a in (1, 2, 3, 4)]
        seqs += [[SRC, a, b] for a, b in permutations((1, 2, 3, 4), 2)] + [[a, b, SNK] for a, b in permutations((1, 2, 3, 4), 2)]
        seqs = [s for s in seqs if all((a, b) in E for a, b in zip(s, s[1:]))]
        locks = [[s] for s in seqs] + [[a, b] for a, b in combinations(seqs, 2) if not set(a) & set(b)]
        ok = [r for r in sub_routes(4, 2) if any(M.route_ok(r, k) for k in range(M.K))]
        locks += [[r, s] if len(r) == 3 else [s, r] for r in ok for s in seqs if not set(r[1:-1]) & set(s)]
        if not T:
            locks = locks[i % 5:: max(1, len(locks) // 12)]
        for k in range(0, len(locks), 4):
            yield dict(kind="part", inst=inst, locks=locks[k:k + 4], variants=rot(CSPY_VARIANTS + LPV[:4], i + k, 1))


# --- C17 initial routes ------------------------------------------------------------------------
def partitions(items):
    if not items:
        yield []
        return
    first, rest = items[0], items[1:]
    for m in range(len(rest) + 1):
        for c in combinations(rest, m):
            left = [x for x in rest if x not in c]
            for p in partitions(left):
                yield [[first, *c]] + p


def initial(tier):
    T = tier == "thorough"
    i = 0
    for f, lay in product(((), ("cap",), ("stops",), ("dur",), ("cap", "fix"), ("cap", "nveh"), ("cap", "drop"), ("cap", "tw"), ("cap", "mixed", "fix"), ("cap", "sdc"), ("cap", "mixed", "nveh"), ("tw", "late"), ("tw", "stops", "late"), ("tw", "dur", "late"), ("stops", "fix"), ("dur", "drop"), ("cap", "nveh", "useall")), LAYOUTS if T else ("grid", "asym", "detour")):
        i += 1
        inst = tag(combo(f, 3, lay, i % 4), lay)
        E = {(str(u), str(v)) for u, v, _ in inst["edges"]}
        plans = []
        for p in partitions([1, 2, 3]):
            for orders in product(*[list(permutations(b)) for b in p]):
                r = [[SRC, *o, SNK] for o in orders]
                if all((str(a), str(b)) in E for x in r for a, b in zip(x, x[1:])):
                    plans.append(r)
        if "tw" in f and "late" in f:
            inst["nodes"][0][1].update(lower=4, upper=60)
            for v in (1, 2, 3):
                inst["nodes"][v][1]["upper"] += 4
        vs = ALL_VARIANTS if every(i, 3, 1) else CSPY_VARIANTS
        for k in range(0, len(plans), 4):
            if T:
                yield dict(kind="init", inst=inst, plans=plans[k:k + 4], variants=rot(vs, i + k, 3) + [{"max_iter": 1}])
            else:
                yield dict(kind="init", inst=inst, plans=plans[k:k + 4], variants=rot(vs, i + k, 1) + [{"max_iter": 1 + k % 3}])

    # initial routes that are no plan: customers twice on a route, on two routes, on none; empty routes
    for f, lay in product(((), ("cap",), ("stops",), ("dur",), ("cap", "fix"), ("cap", "nveh"), ("cap", "drop"), ("tw",), ("cap", "mixed"), ("cap", "sdc")), LAYOUTS if T else ("grid", "asym", "sparse")):
        i += 1
        inst = tag(combo(f, 3, lay, i % 4), lay)
        hub = 1 + i % 3
        for u, v, a in inst["edges"]:
            # customers that are best served by way of another one
            if (u == SRC and v not in (hub, SNK)) or (v == SNK and u not in (hub, SRC)):
                a["cost"] = [x + 40 for x in a["cost"]] if isinstance(a["cost"], list) else a["cost"] + 40
        inst.pop("metric", None)
        E = {(u, v) for u, v, _ in inst["edges"]}
        one = [list(p) for m in (1, 2, 3) for p in permutations((1, 2, 3), m)]
        one += [[a, b, a] for a, b in permutations((1, 2, 3), 2)] + [[a, b, a, c] for a, b, c in permutations((1, 2, 3), 3)]
        one += [[a, b, c, a] for a, b, c in permutations((1, 2, 3), 3)]
        one = [[SRC, *r, SNK] for r in one]
        plans = [[r] for r in one if len(r) > 3] + [[r, [SRC, v, SNK]] for r in one for v in (1, 2, 3) if len(r) > 3]
        plans += [[[SRC, v, SNK] for v in (1, 2, 3)] + [r] for r in one] + [[[SRC, 1, SNK]], [[SRC, 2, SNK], [SRC, 2, SNK]]]
        plans += [[[SRC, SNK]], [[SRC, 1, SNK], [SRC, SNK]]] if (SRC, SNK) in E else []
        plans = [p for p in plans if all((a, b) in E for r in p for a, b in zip(r, r[1:])) and not (set(len(r) for r in p) == {5} and len(set(p[0])) == 5)]
        if not T:
            plans = plans[i % 4:: max(1, len(plans) // 16)]
        for k in range(0, len(plans), 4):
            yield dict(kind="init", inst=inst, plans=plans[k:k + 4], variants=rot(CSPY_VARIANTS + LPV[:4], i + k, 2))


# --- C18 periodic ----------------------------------------------------------------------------------
def periodic(tier):
    T = tier == "thorough"
    i = 0
    for lay in ("grid", "two", "asym", "detour", "chain", "asym2", "sparse"):
        for fr in product((1, 2, 3), repeat=3):
            for span in (2, 3, 4):
                for c in ({}, {"load_capacity": 4}, {"num_stops": 2}, {"num_stops": 1}, {"load_capacity": 4, "num_vehicles": 1}, {"num_vehicles": 2, "num_stops": 1}, {"fixed_cost": 4}, {"duration": 0}):
                    i += 1
                    if not T and not every(i, 5):
                        continue
                    nd = {v + 1: {"frequency": fr[v], "demand": (1, 2, 0)[(v + i) % 3]} for v in range(3)}
                    o = dict(c, periodic=span)
                    if c.get("duration") == 0:
                        ds = durations(3, lay)
                        o["duration"] = ds[len(ds) // 2]
                    yield S(make(3, lay, nd, o), rot(ALL_VARIANTS if every(i, 4, 1) else CSPY_VARIANTS, i, 1))
    for lay in ("grid", "asym"):
        for fr in product((1, 2), repeat=4):
            for nv in ([1, 1], [2, 1]):
                i += 1
                nd = {v + 1: {"frequency": fr[v], "demand": 1 + v % 2} for v in range(4)}
                cost = lambda a, b, c, k: c + k  # noqa: E731
                yield S(make(4, lay, nd, {"periodic": 3, "mixed_fleet": True, "load_capacity": [3, 5], "num_vehicles": nv}, 2, cost=cost), rot(CSPY_VARIANTS, i, 1))
    yield from grid(tier, need=("per",), per=1)
    # long routes
    for lay in ("grid", "chain", "two"):
        for n in (6, 7, 8):
            for span in (2, 3):
                i += 1
                nd = {v: {"frequency": 2 if (v + i) % 4 else 1, "demand": 1} for v in range(1, n + 1)}
                yield S(make(n, lay, nd, dict(({}, {"load_capacity": n}, {"num_vehicles": 2})[i % 3], periodic=span)), rot(CSPY_VARIANTS, i, 1), big=True)
    # locked routes take part in the schedule
    for lay in ("grid", "asym", "two"):
        for fr in product((1, 2, 3), (1, 2), (1, 2), (1, 2)):
            for c in ({}, {"num_stops": 2}, {"num_vehicles": 2}, {"load_capacity": 4, "num_vehicles": 3}):
                i += 1
                if not T and not every(i, 3):
                    continue
                nd = {v + 1: {"frequency": fr[v], "demand": 1 + v % 2} for v in range(4)}
                inst = make(4, lay, nd, dict(c, periodic=3 if max(fr) == 3 else 2))
                locks = [[[SRC, v, SNK]] * fr[v - 1] for v in (1, 2, 3, 4)]
                locks += [[[SRC, a, b, SNK]] * fr[a - 1] for a, b in permutations((1, 2, 3, 4), 2) if fr[a - 1] == fr[b - 1]]
                locks += [[[SRC, a, b, SNK]] + [[SRC, b, SNK]] * (fr[b - 1] - 1) for a, b in permutations((1, 2, 3, 4), 2) if fr[a - 1] == 1]
                locks += [[[SRC, a, SNK]] * fr[a - 1] + [[SRC, b, SNK]] * fr[b - 1] for a, b in combinations((1, 2, 3, 4), 2)]
                locks = [x for x in locks if inst["opts"].get("num_stops", 9) >= 2 or all(len(r) == 3 for r in x)]
                if not T:
                    locks = locks[i % 3:: 4]
                for k in range(0, len(locks), 4):
                    yield dict(kind="pre", inst=inst, locks=locks[k:k + 4], variants=rot(CSPY_VARIANTS + LPV[:2], i + k, 1))


# --- C19 Clarke & Wright -----------------------------------------------------------------------------
def clarke(tier):
    T = tier == "thorough"
    i = 0
    for n in (1, 2, 3, 4, 5):
        for lay in LAYOUTS:
            for sel in range(4):
                for c in ({}, {"cap": 3}, {"cap": 4}, {"cap": 6}, {"st": 1}, {"st": 2}, {"st": 3}, {"du": 0}, {"du": 1}, {"du": 2}, {"du": 3}, {"cap": 4, "st": 2}, {"cap": 4, "du": 2}, {"st": 2, "du": 1}, {"cap": 4, "st": 2, "du": 3}):
                    for x in ({}, {"fixed_cost": 3}, {"num_vehicles": 2}, {"num_vehicles": 2, "use_all_vehicles": True}):
                        i += 1
                        if x and not T and not every(i, 4):
                            continue
                        nd = {v: {"demand": 1 + (v + sel) % 3, "service_time": (v * sel) % 3} for v in range(1, n + 1)}
                        o = dict(x)
                        if "cap" in c:
                            o["load_capacity"] = c["cap"]
                        if "st" in c:
                            o["num_stops"] = c["st"]
                        if "du" in c:
                            ds = durations(n, lay, {v: (v * sel) % 3 for v in range(1, n + 1)})
                            o["duration"] = ds[min(len(ds) - 1, (len(ds) * c["du"]) // 4)]
                        yield dict(kind="heur", inst=tag(make(n, lay, nd, o), lay))
    for n in (7, 9, 12):
        for lay in ("grid", "clus", "asym", "asym2", "sparse", "line", "two"):
            for sel in range(4):
                for o in ({}, {"load_capacity": 6}, {"num_stops": 3}, {"load_capacity": 7, "num_stops": 3}, {"duration": 30}, {"load_capacity": 9, "fixed_cost": 5}):
                    nd = {v: {"demand": 1 + (v + sel) % 3} for v in range(1, n + 1)}
                    if lay in METRIC or "duration" not in o:
                        yield dict(kind="heur", inst=tag(make(n, lay, nd, dict(o)), lay), big=True)
    # demands, times and costs that are not whole numbers
    for lay in LAYOUTS:
        for n in (3, 4, 5):
            for sel in range(4):
                for o in ({"load_capacity": 2}, {"load_capacity": 3}, {"load_capacity": 3, "num_stops": 3}, {"duration": 0}, {"load_capacity": 3, "duration": 0}):
                    i += 1
                    nd = {v: {"demand": (0.7, 0.5, 1.4, 0.9, 1.1)[(v * (sel + 1)) % 5], "service_time": (0.5, 0.25, 0)[(v + sel) % 3]} for v in range(1, n + 1)}
                    inst = make(n, lay, nd, dict(o))
                    if "duration" in o:
                        ds = durations(n, lay, {v: nd[v]["service_time"] for v in nd})
                        inst["opts"]["duration"] = max(1, int(ds[(len(ds) * (1 + sel)) // 6]))
                    yield dict(kind="heur", inst=tag(inst, lay))


# --- C20 random choices -----------------------------------------------------------------------------
def choices(tier):
    T = tier == "thorough"
    i = 0
    for f in ((), ("cap",), ("stops",), ("dur",), ("cap", "stops"), ("cap", "dur"), ("stops", "dur"), ("cap", "mixed"), ("cap", "nveh"), ("cap", "drop"), ("cap", "mixed", "fix", "nveh"), ("cap", "per"), ("stops", "nveh", "useall"), ("dur", "mixed")):
        for lay in LAYOUTS if T else ("grid", "asym", "sparse"):
            i += 1
            inst = tag(combo(f, 3 if i % 2 else 4, lay, i % 4), lay)
            sv = [{"greedy": True}, {"greedy": True, "dive": True}, {"greedy": True, "pricing_strategy": "BestEdges2"}, {"greedy": True, "elementary": True}][i % 4]
            yield dict(kind="rand", inst=inst, solve=sv, bound=1, stride=1 if T else 5, cap=3000 if T else 70)
            sv = [{"pricing_strategy": "Hyper"}, {"pricing_strategy": "Hyper", "dive": True}, {"pricing_strategy": "Hyper", "run_exact": 3}][i % 3]
            yield dict(kind="rand", inst=inst, solve=sv, bound=3 if T else 2, cap=2000 if T else 60)
    for f in (("tw",), ("cap", "tw"), ("cap", "sdc")):
        for lay in ("grid", "asym"):
            i += 1
            inst = tag(combo(f, 3, lay, i % 4), lay)
            yield dict(kind="rand", inst=inst, solve={"pricing_strategy": "Hyper"}, bound=3 if T else 2, cap=2000 if T else 60)


# --- C21 malformed input -----------------------------------------------------------------------------
def malformed_input(tier):
    from .malformed import cases

    cs = list(cases())
    for i in range(0, len(cs), 6):
        yield dict(kind="reject", cases=cs[i:i + 6])


# --- C22 global span ------------------------------------------------------------------------------------
def span(tier):
    T = tier == "thorough"
    i = 0
    vs = [v for v in CSPY_VARIANTS if not v.get("greedy")]
    lp = [{"cspy": False}, {"cspy": False, "pricing_strategy": "Exact"}, {"cspy": False, "dive": True}]
    for lay in LAYOUTS:
        for c in ({}, {"load_capacity": 4}, {"num_stops": 2}, {"num_vehicles": 2}, {"num_vehicles": 2, "use_all_vehicles": True}, {"fixed_cost": 4}, {"drop_penalty": 5}, {"duration": 0}, {"load_capacity": 5, "num_vehicles": 2}):
            for sel in range(3):
                i += 1
                nd = {v: {"demand": 1 + (v + sel) % 3} for v in range(1, 4)}
                o = dict(c, minimize_global_span=True)
                if "duration" in c:
                    ds = durations(3, lay)
                    o["duration"] = ds[len(ds) // 2]
                yield S(make(3, lay, nd, o), rot(lp, i, 1) if every(i, 5, 1) else rot(vs, i, 1))
    # any plan to start from is a bound on the span
    from .ref import Model

    for lay in ("grid", "two", "asym", "detour"):
        for c in ({}, {"load_capacity": 5}, {"num_stops": 2}, {"num_vehicles": 3}, {"num_vehicles": 2, "use_all_vehicles": True}, {"fixed_cost": 3}, {"drop_penalty": 9}):
            i += 1
            nd = {v: {"demand": 1 + (v + i) % 3} for v in range(1, 5)}
            inst = make(4, lay, nd, dict(c, minimize_global_span=True))
            M = Model(inst)
            plans = [[[SRC, *r, SNK] for r in p] for p in partitions([1, 2, 3, 4])]
            plans = [p for p in plans if all(M.route_ok(r, 0) for r in p)]
            plans += [[[SRC, *r[1:-1][::-1], SNK] for r in p] for p in plans if all(M.route_ok([SRC, *r[1:-1][::-1], SNK], 0) for r in p)]
            if not T:
                plans = [p for k, p in enumerate(plans) if every(k + 7 * i, 3, 2)]
            for k in range(0, len(plans), 3):
                yield dict(kind="init", inst=inst, plans=plans[k:k + 3], variants=rot(vs, i + k, 1) + [{"max_iter": 1}])
    yield from grid(tier, need=("span",), per=1, vs=vs + lp[:1])


# --- C23 naming ----------------------------------------------------------------------------------------------
NAMES = {
    "int": lambda i: i,
    "zero": lambda i: i - 1,
    "neg": lambda i: -i,
    "letters": lambda i: "abcdefgh"[i - 1],
    "spaces": lambda i: "stop no %d" % i,
    "dash": lambda i: "n-%d" % i,
    "digits": lambda i: str(i * 11),
    "tuple": lambda i: ["t", i],
    "mixed": lambda i: [i, "x%d" % i, ["p", i]][i % 3],
    "long": lambda i: "customer_with_a_very_long_name_%s" % ("x" * 60 + str(i)),
    "accents": lambda i: "n\u0153ud \u00e9%d" % i,
    "depotlike": lambda i: ["Source1", "Sinks", "source", "sink", "non", "Sourc", "elem", "y1"][i - 1],
    "operators": lambda i: ["a+b", "c*d", "[e]", "x>=1", "f/g", "h,i", "(j)", "k:l"][i - 1],
}


def naming(tier):
    T = tier == "thorough"
    i = 0
    for key, fn in NAMES.items():
        for f in ((), ("cap",), ("stops",), ("dur",), ("cap", "tw"), ("cap", "drop"), ("cap", "nveh"), ("cap", "mixed"), ("cap", "per"), ("cap", "sdc"), ("cap", "span")):
            for lay in LAYOUTS if T else (LAYOUTS[i % len(LAYOUTS)], "grid"):
                i += 1
                nm = lambda n: [SRC] + [fn(v) for v in range(1, n + 1)] + [SNK]  # noqa: E731,B023
                inst = tag(combo(f, 3, lay, i % 4, names=nm), lay)
                # the order in which the graph was built does not matter either
                if i % 3 == 1:
                    inst["nodes"] = inst["nodes"][::-1]
                    inst["edges"] = inst["edges"][::-1]
                elif i % 3 == 2:
                    inst["edges"] = sorted(inst["edges"], key=lambda e: (str(e[1]), str(e[0])))
                    inst["nodes"] = inst["nodes"][2:] + inst["nodes"][:2]
                lp = key in ("int", "zero", "letters", "digits", "depotlike", "long")
                yield S(inst, rot(ALL_VARIANTS if lp and every(i, 3, 1) else CSPY_VARIANTS, i, 1), names=key)
    # every order of the nodes
    for f, lay in product(((), ("cap",), ("cap", "tw"), ("cap", "mixed"), ("cap", "nveh")), ("grid", "asym")):
        inst = combo(f, 3, lay, 1)
        for p in permutations(range(5)):
            i += 1
            if T or every(i, 3):
                x = dict(inst, nodes=[inst["nodes"][k] for k in p])
                yield S(x, rot(ALL_VARIANTS if every(i, 4, 1) else CSPY_VARIANTS, i, 1))


# --- C24 mixed fleet ----------------------------------------------------------------------------------------------
def pd_types(tier):
    """Pickups and deliveries by vehicles of several types."""
    T = tier == "thorough"
    i = 0
    for lay in ("grid", "asym", "two", "detour"):
        for caps in ([2, 5], [5, 2], [3, 6, 4], [6, 3, 4]):
            for w in ((2, 2), (1, 4), (4, 1), (2, 3)):
                for cf in range(4):
                    i += 1
                    if not T and not every(i, 3):
                        continue
                    cost = (lambda a, b, c, k: c + k, lambda a, b, c, k: c + 2 * (2 - k), lambda a, b, c, k: c + 9 * k * (a == 0), lambda a, b, c, k: c + 9 * (2 - k) * (a == 0))[cf]
                    nd = {1: {"request": 3, "demand": w[0]}, 3: {"demand": -w[0]}, 4: {"request": 2, "demand": w[1]}, 2: {"demand": -w[1]}}
                    o = {"mixed_fleet": True, "load_capacity": list(caps), "pickup_delivery": True}
                    if i % 4 == 0:
                        o["fixed_cost"] = [1, 4, 2][: len(caps)]
                    yield S(tag(make(4, lay, nd, o, len(caps), cost=cost), lay), rot(PDV, i, 1))


def mixed(tier):
    T = tier == "thorough"
    i = 0
    for lay in LAYOUTS:
        for K in (1, 2, 3):
            for caps in ([3, 5, 7], [6, 4, 3], [4, 4, 4], None):
                for fx in ([0, 3, 5], [8, 2, 4], None):
                    for cf in range(3):
                        i += 1
                        if (not caps and not fx) or (not T and not every(i, 2)):
                            continue
                        nd = {v: {"demand": 1 + v % 3} for v in range(1, 4)}
                        o = {"mixed_fleet": True}
                        if caps:
                            o["load_capacity"] = caps[:K]
                        if fx:
                            o["fixed_cost"] = fx[:K]
                        cost = (lambda a, b, c, k: c + k, lambda a, b, c, k: c + 2 * (2 - k), lambda a, b, c, k: c + (a * 3 + b + k * 5) % 4)[cf]
                        if caps and max(caps[:K]) < 3:
                            continue
                        inst = make(3, lay, nd, o, K, cost=cost)
                        if K == 1:
                            for e in inst["edges"]:
                                e[2]["cost"] = [e[2]["cost"]]
                        yield S(inst, rot(ALL_VARIANTS if every(i, 5, 1) else CSPY_VARIANTS, i, 1))
    # customers that need another than the first type, with costs of their own
    for lay in ("grid", "asym", "detour", "two", "clus"):
        for caps in ([2, 6], [1, 3, 7], [3, 8]):
            for q in ((4, 1, 3), (3, 3, 2), (5, 1, 1), (4, 4, 4)):
                for cf in range(4):
                    i += 1
                    if max(q) > max(caps) or (not T and not every(i, 2)):
                        continue
                    cost = (lambda a, b, c, k: c * (1 + 3 * k), lambda a, b, c, k: c + 7 * k * (a == 0), lambda a, b, c, k: c * (4 - k), lambda a, b, c, k: c + 9 * k * (b == 4))[cf]
                    o = {"mixed_fleet": True, "load_capacity": list(caps)}
                    if i % 3 == 0:
                        o["num_vehicles"] = [3] * len(caps)
                    nd = {v + 1: {"demand": x} for v, x in enumerate(q)}
                    yield S(make(3, lay, nd, o, len(caps), cost=cost), rot(ALL_VARIANTS if every(i, 2, 1) else CSPY_VARIANTS, i, 1))
    # deliveries and collections: the smallest vehicle that carries a customer is not the first one
    for lay in ("grid", "asym", "two", "detour"):
        for caps in ([2, 6], [6, 2], [3, 4, 7], [1, 5]):
            for qs in (((4, 1), (1, 3), (2, 2)), ((3, 0), (0, 4), (1, 1)), ((2, 4), (5, 2), (1, 0)), ((1, 1), (1, 2), (4, 4))):
                for cf in range(3):
                    i += 1
                    if max(max(q) for q in qs) > max(caps) or (not T and not every(i, 2)):
                        continue
                    cost = (lambda a, b, c, k: c * (1 + 2 * k), lambda a, b, c, k: c + 3 * k, lambda a, b, c, k: c * (4 - k))[cf]
                    o = {"mixed_fleet": True, "load_capacity": list(caps), "distribution_collection": True}
                    if i % 4 == 0:
                        o["fixed_cost"] = [1, 4, 2][: len(caps)]
                    nd = {v + 1: {"demand": x, "collect": y} for v, (x, y) in enumerate(qs)}
                    yield S(make(3, lay, nd, o, len(caps), cost=cost), rot(ALL_VARIANTS if every(i, 3, 1) else CSPY_VARIANTS, i, 1))
    yield from pd_types(tier)
    yield from thin(no_vehicles(tier), 1 if T else 2)
    # one type is far more expensive than the others, but needed
    for lay in ("grid", "asym", "two"):
        for scale in (30, 1000, 1e5):
            for nv in (None, [1, 1], [2, 1], [1, 2], [3, 1]):
                for caps, q in (([3, 8], (4, 1, 2)), ([8, 3], (2, 4, 1)), ([4, 4], (2, 2, 1)), ([3, 6], (3, 3, 3))):
                    i += 1
                    if not T and not every(i, 2):
                        continue
                    dear = caps.index(max(caps)) if caps[0] != caps[1] else i % 2
                    cost = lambda a, b, c, k: c * scale if k == dear else c  # noqa: E731,B023
                    o = {"mixed_fleet": True, "load_capacity": list(caps)}
                    if nv:
                        o["num_vehicles"] = list(nv)
                    nd = {v + 1: {"demand": x} for v, x in enumerate(q)}
                    yield S(make(3, lay, nd, o, 2, cost=cost), rot(ALL_VARIANTS if every(i, 3, 1) else CSPY_VARIANTS, i, 1))
    # edges to or from the depot are missing
    for f, lay in product((("mixed", "fix"), ("cap", "mixed"), ("cap", "mixed", "fix", "nveh")), ("grid", "asym")):
        for k in range(1, 4):
            inst = combo(f, 3, lay, 1)
            inst["edges"] = [e for e in inst["edges"] if not (e[0] == SRC and e[1] == k)]
            i += 1
            yield S(inst, rot(CSPY_VARIANTS, i, 2), opt=False)
    yield from forward(tier, (("cap", "mixed"), ("cap", "mixed", "fix"), ("mixed", "fix"), ("cap", "mixed", "nveh"), ("cap", "mixed", "tw"), ("cap", "mixed", "drop"), ("cap", "mixed", "sdc"), ("stops", "mixed")))
    yield from grid(tier, need=("mixed",), per=1)
    yield from large(tier, feats=(("cap", "mixed"), ("cap", "mixed", "fix"), ("cap", "mixed", "tw"), ("cap", "mixed", "drop")), sizes=(6, 8))


def cover(tier):
    yield from unused(tier, step=3)
    yield from grid(tier, per=2 if tier == "thorough" else 1)
    yield from elementary_traps(tier, 2)
    yield from forward(tier, ((), ("cap",), ("stops",), ("cap", "tw"), ("cap", "nveh"), ("cap", "drop"), ("cap", "mixed"), ("cap", "per"), ("cap", "sdc")))
    yield from large(tier)


def reports(tier):
    yield from grid(tier, per=1)
    yield from large(tier, sizes=(6, 8))
    yield from _reports_extra(tier)


def _reports_extra(tier):
    i = 0
    # the depot opens late at either end
    for lay in LAYOUTS:
        for lo in (1, 12, 30, 55):
            for kinds in (("open",), ("late", "open"), ("wide", "mid", "open")):
                i += 1
                inst = tw_inst(3, lay, kinds, (2, 1, 0), 2 * (i % 2), ({}, {"duration": 60}, {"num_stops": 2})[i % 3])
                inst["nodes"][-1][1].update(lower=lo, upper=lo + 40)
                yield S(inst, rot(ALL_VARIANTS if every(i, 4, 1) else CSPY_VARIANTS, i, 1))
    for lay in LAYOUTS:
        for src in (0, 2):
            for kinds in product(("open", "late", "wide"), repeat=2):
                for o in ({}, {"duration": 60}, {"load_capacity": 4}, {"drop_penalty": 4}):
                    i += 1
                    inst = tw_inst(3, lay, kinds, (2, 1, 0), src, o)
                    for v in (1, 2, 3):
                        inst["nodes"][v][1]["demand"] = 1 + v % 2
                    yield S(inst, rot(CSPY_VARIANTS, i, 1))
        for o in ({"duration": 60}, {"load_capacity": 6}, {"load_capacity": 5, "fixed_cost": 4}, {"load_capacity": 5, "distribution_collection": True}):
            i += 1
            nd = {v: {"demand": 1 + v % 3, "collect": 2 - v % 2, "service_time": v} for v in (1, 2, 3, 4)}
            nd[0] = {"demand": 3}
            if o.get("distribution_collection"):
                nd[0] = {}
            yield S(make(4, lay, nd, o), rot(CSPY_VARIANTS, i, 1))


FIND = ("OPT", "ERR", "BELOW", "SOLVED", "LOST")
PROPS = {
    "C01": dict(gen=cover, codes=("PATH", "COVER", "FREQ", "LOST")),
    "C02": dict(gen=capacity, codes=("CAP", "LOST", "OPT", "ERR", "BELOW")),
    "C03": dict(gen=stops_duration, codes=("STOPS", "DUR", "LOST", "OPT", "ERR", "BELOW")),
    "C04": dict(gen=time_windows, codes=("TW", "LOST", "OPT", "ERR", "BELOW")),
    "C05": dict(gen=lambda t: _pd(pd_all(t)), codes=("PD", "PDCAP", "LOST", "OPT", "ERR", "BELOW")),
    "C06": dict(gen=dist_coll, codes=("SDC", "LOST", "OPT", "ERR", "BELOW")),
    "C07": dict(gen=fleet, codes=("FLEET", "USEALL", "TYPE", "LOST", "OPT", "ERR", "BELOW", "SOLVED")),
    "C08": dict(gen=drops, codes=("DROP", "COVER", "LOST", "OPT", "ERR", "BELOW")),
    "C09": dict(gen=reports, codes=("VALUE", "DROP", "COST", "LOAD", "NLOAD", "DURREP", "ARR", "DEP", "SELF", "TYPE")),
    "C10": dict(gen=optimal, codes=("OPT", "BELOW", "ERR", "LOST")),
    "C11": dict(gen=verdicts, codes=("SOLVED", "ERR", "LOST", "CAP", "STOPS", "DUR", "TW", "PD", "PDCAP", "SDC", "FLEET", "USEALL", "PATH", "COVER", "FREQ")),
    "C12": dict(gen=options, codes=None),
    "C13": dict(gen=histories, codes=("STALE", "LOST")),
    "C14": dict(gen=inputs, codes=("INPUT", "LOST")),
    "C15": dict(gen=limits, codes=None),
    "C16": dict(gen=preassigned, codes=None),
    "C17": dict(gen=initial, codes=None),
    "C18": dict(gen=periodic, codes=("FREQ", "SCHED", "SCHEDFLEET", "SCHEDBAL", "PATH", "OPT", "BELOW", "ERR", "LOST")),
    "C19": dict(gen=clarke, codes=None),
    "C20": dict(gen=choices, codes=None),
    "C21": dict(gen=malformed_input, codes=("ACCEPT", "LOST")),
    "C22": dict(gen=span, codes=None),
    "C23": dict(gen=naming, codes=None),
    "C24": dict(gen=mixed, codes=("TYPE", "CAP", "SDC", "PDCAP", "COST", "VALUE", "FLEET", "OPT", "BELOW", "ERR", "LOST", "PATH", "COVER")),
}

ASSUMPTIONS = [
    "CBC (through PuLP) and cspy behave as specified",
    "the reference model (mc/ref.py, mc/tight.py) states the documented semantics of each constraint",
    "problems are within the stated bounds; undocumented combinations of features are left out (DESIGN.md)",
    "optimality is required only where any exact column generation must reach the optimum (tight problems)",
]
