"""Malformed problems.  cases() enumerates every kind of mistake at every position of a small problem,
for several variants of the problem; well-formed twins make sure that nothing else is rejected."""
from itertools import permutations

from . import run as R
from .fam import SNK, SRC, combo

nx = R.nx
BASES = {
    "plain": ((), {}),
    "cap": (("cap",), {}),
    "caplp": (("cap",), {"cspy": False}),
    "tw": (("cap", "tw"), {}),
    "mixed": (("cap", "mixed", "fix"), {}),
    "nveh": (("cap", "nveh"), {}),
    "dur": (("dur", "stops"), {}),
    "sdc": (("cap", "sdc"), {}),
    "per": (("cap", "per"), {}),
    "drop": (("cap", "drop"), {}),
    "pd": (("cap", "pd"), {"cspy": False}),
    "heur": (("cap",), {"heuristic_only": True}),
    "mixfix": (("mixed", "fix", "nveh"), {}),
    "mixall": (("cap", "mixed", "fix", "nveh"), {}),
    "mixcap": (("cap", "mixed", "nveh"), {"cspy": False}),
    "mixheur": (("cap", "mixed"), {"pricing_strategy": "Hyper", "dive": True}),
}


# the errors the documentation and the tests of the library promise
EXPECTED = {
    "type": ("TypeError",), "nonode": ("KeyError", "NetworkXError"), "into_source": ("NetworkXError",),
    "outof_sink": ("NetworkXError",), "sink_source": ("NetworkXError",), "nocost": ("KeyError",),
    "strategy": ("ValueError",), "stops": ("TypeError",), "capacity": ("TypeError",), "capacity_item": ("TypeError",),
    "demand": ("ValueError",), "duration": ("TypeError",), "unreachable": ("ValueError",),
    "init_missing_node": ("KeyError",), "init_start": ("ValueError",), "init_end": ("ValueError",),
    "demand_by_one": ("ValueError",), "unreachable_by_one": ("ValueError",), "disconnected": ("NetworkXError",),
    "init_unknown": ("KeyError",), "pre_unknown": ("ValueError",),
    "init_missing_edge": ("KeyError",), "pre_missing_edge": ("ValueError",), "cost_dim": ("ValueError",),
    "cost_scalar": ("TypeError",), "fleet_dim": ("ValueError",), "no_request": ("KeyError",), "late_request": ("ValueError",),
    "cspy": ("NotImplementedError",), "heuristic": ("ValueError",),
}


def base(b):
    f, sv = BASES[b]
    n = 4 if "pd" in f else 3
    inst = combo(f, n, "grid", 0)
    if "per" in f:
        pass
    return inst, dict(sv), n


def cases():
    for b in BASES:
        inst, sv, n = base(b)
        yield [b, "ok"]
        for what in ("graph", "multigraph", "dict"):
            yield [b, "type", what]
        for v in (SRC, SNK):
            yield [b, "nonode", v]
        for i in range(1, n + 1):
            yield [b, "into_source", i]
            yield [b, "outof_sink", i]
        yield [b, "sink_source"]
        for k in range(len(inst["edges"])):
            yield [b, "nocost", k]
        for s in ("exact", "BestEdges3", "", None, 1):
            yield [b, "strategy", s]
        for x in (2.5, "3", [3], -1):
            yield [b, "stops", x]
        if inst["opts"].get("load_capacity"):
            for x in (2.5, "3", -4):
                yield [b, "capacity", x]
            if b not in ("pd",):
                for i in range(1, n + 1):
                    yield [b, "demand", i]
                    yield [b, "demand_by_one", i]
        for x in (2.5, -3, "7"):
            yield [b, "duration", x]
        for i in range(1, n + 1):
            yield [b, "unreachable", i]
            yield [b, "unreachable_by_one", i, 0]
            yield [b, "unreachable_by_one", i, 1]
        yield [b, "disconnected"]
        if b not in ("heur",):
            for i in range(1, n + 1):
                yield [b, "init_missing_node", i]
                yield [b, "init_start", i]
                yield [b, "init_end", i]
            yield [b, "init_missing_edge"]
            for i, j in permutations(range(1, n + 1), 2):
                yield [b, "init_missing_edge", i, j]
            for form in range(3):
                yield [b, "init_unknown", form]
        for form in range(5):
            yield [b, "pre_unknown", form]
        for i in range(1, n + 1):
            yield [b, "pre_missing_edge", i]
            for form in range(1, 7):
                yield [b, "pre_missing_edge", i, form]
        if "mixed" in BASES[b][0]:
            for k in range(len(inst["edges"])):
                yield [b, "cost_dim", k, 1]
                yield [b, "cost_dim", k, 3]
                yield [b, "cost_scalar", k]
            for key in ("fixed_cost", "num_vehicles", "load_capacity"):
                for k in (1, 3):
                    yield [b, "fleet_dim", key, k]
            if "cap" in BASES[b][0]:
                for x in (2.5, 0, -2, "4", None):
                    yield [b, "capacity_item", 0, x]
                    yield [b, "capacity_item", 1, x]
        if b == "pd":
            yield [b, "no_request"]
            for v, a in inst["nodes"]:
                if "request" in a:
                    yield [b, "late_request", v, a["request"]]
            for k in range(len(CSPY)):
                yield [b, "cspy", k]
        if b in ("tw", "mixed", "sdc", "per", "pd"):
            yield [b, "heuristic"]


CSPY = ({}, {"pricing_strategy": "Exact"}, {"pricing_strategy": "BestEdges1"}, {"pricing_strategy": "BestEdges2"}, {"pricing_strategy": "BestPaths"},
        {"pricing_strategy": "Hyper"}, {"elementary": True}, {"dive": True}, {"greedy": True}, {"max_iter": 1}, {"time_limit": 100}, {"run_exact": 3})


def run_case(case):
    """(is it fine?, description)"""
    b, what = case[0], case[1]
    inst, sv, n = base(b)
    o = inst["opts"]
    G = R.build_graph(inst)
    arg = case[2] if len(case) > 2 else None
    want_error = True
    if what == "ok":
        want_error = False
    elif what == "type":
        if arg == "graph":
            G = nx.Graph(G)
        elif arg == "multigraph":
            H = nx.Graph()
            H.add_edges_from(G.edges(data=True))
            G = H
        else:
            G = {SRC: [1], 1: [SNK]}
    elif what == "nonode":
        G.remove_node(arg)
    elif what == "into_source":
        G.add_edge(arg, SRC, cost=[1] * 2 if "mixed" in BASES[b][0] else 1, time=1)
    elif what == "outof_sink":
        G.add_edge(SNK, arg, cost=[1] * 2 if "mixed" in BASES[b][0] else 1, time=1)
    elif what == "sink_source":
        G.add_edge(SNK, SRC, cost=[1] * 2 if "mixed" in BASES[b][0] else 1, time=1)
    elif what == "nocost":
        u, v, _ = inst["edges"][arg]
        del G.edges[u, v]["cost"]
    elif what == "strategy":
        sv["pricing_strategy"] = arg
    elif what == "stops":
        o["num_stops"] = arg
    elif what == "capacity":
        o["load_capacity"] = [arg, arg] if "mixed" in BASES[b][0] else arg
    elif what == "capacity_item":
        o["load_capacity"] = list(o["load_capacity"])
        o["load_capacity"][arg] = case[3]
    elif what == "demand":
        G.nodes[arg]["demand"] = 1000
    elif what == "duration":
        o["duration"] = arg
    elif what == "unreachable":
        o["duration"] = 30
        for u, v in G.edges():
            G.edges[u, v].setdefault("time", 1)
        for u in list(G.predecessors(arg)):
            G.edges[u, arg]["time"] = 100
    elif what == "demand_by_one":
        cap = o["load_capacity"]
        G.nodes[arg]["demand"] = (max(cap) if isinstance(cap, list) else cap) + 1
    elif what == "unreachable_by_one":
        for u, v in G.edges():
            G.edges[u, v].setdefault("time", 1)
        for u, v in list(G.in_edges(arg)) if case[3] else list(G.out_edges(arg)):
            G.edges[u, v]["time"] += 50
        there = nx.shortest_path_length(G, SRC, arg, weight="time")
        back = nx.shortest_path_length(G, arg, SNK, weight="time")
        o["duration"] = there + back - 1
    elif what == "disconnected":
        G.remove_nodes_from(range(1, n + 1))
        if G.has_edge(SRC, SNK):
            G.remove_edge(SRC, SNK)
    elif what == "init_unknown":
        r = ([SRC, 77, SNK], [SRC, 1, "x", SNK], [SRC, None, 1, SNK])[arg]
        sv["initial_routes"] = [[SRC, v, SNK] for v in range(1, n + 1)] + [r]
    elif what == "pre_unknown":
        sv["preassignments"] = [([SRC, 77, SNK], [SRC, 1, "x", SNK], [1, 77], [77, 1], [SRC, 78])[arg]]
    elif what == "init_missing_node":
        sv["initial_routes"] = [[SRC, v, SNK] for v in range(1, n + 1) if v != arg]
    elif what == "init_start":
        sv["initial_routes"] = [[SRC, v, SNK] if v != arg else [v, SNK] for v in range(1, n + 1)]
    elif what == "init_end":
        sv["initial_routes"] = [[SRC, v, SNK] if v != arg else [SRC, v] for v in range(1, n + 1)]
    elif what == "init_missing_edge":
        i, j = case[2:] or (1, 2)
        G.remove_edge(i, j)
        sv["initial_routes"] = [[SRC, v, SNK] for v in range(1, n + 1) if v not in (i, j)] + [[SRC, i, j, SNK]]
    elif what == "pre_missing_edge":
        other = arg % n + 1
        G.remove_edge(arg, other)
        third = other % n + 1
        forms = ([SRC, arg, other, SNK], [arg, other], [SRC, arg, other], [arg, other, SNK], [third, arg, other], [SRC, third, arg, other], [arg, other, third, SNK])
        sv["preassignments"] = [forms[case[3] if len(case) > 3 else 0]]
        if len(case) > 3 and case[3] % 2:
            sv["preassignments"].insert(0, [SRC, third, SNK])
    elif what == "cost_dim":
        u, v, _ = inst["edges"][arg]
        G.edges[u, v]["cost"] = [5] * case[3]
    elif what == "cost_scalar":
        u, v, _ = inst["edges"][arg]
        G.edges[u, v]["cost"] = 5
    elif what == "fleet_dim":
        o[arg] = [{"fixed_cost": 1, "num_vehicles": 3, "load_capacity": 6}[arg]] * case[3]
    elif what == "no_request":
        for v in G.nodes():
            G.nodes[v].pop("request", None)
    elif what == "late_request":
        o["time_windows"] = True
        for u, v in G.edges():
            G.edges[u, v].setdefault("time", 1)
        for v in G.nodes():
            G.nodes[v].update(lower=0, upper=1000)
        G.nodes[arg]["lower"] = 500
        G.nodes[case[3]]["upper"] = 500
    elif what == "cspy":
        sv.update(CSPY[arg], cspy=True)
    elif what == "heuristic":
        sv["heuristic_only"] = True
    else:
        raise AssertionError(what)
    R.fix_random(0)
    try:
        prob = R.VehicleRoutingProblem(G, **o)
        prob.solve(**sv)
        value = prob.best_value
        got = "solved, value %s" % value
        err = False
    except Exception as e:  # noqa: BLE001
        got = "%s: %s" % (type(e).__name__, str(e)[:80])
        err = type(e).__name__ in EXPECTED.get(what, ())
        if not want_error:
            err = True
    return err == want_error, "%s %s" % (what, got)
