"""Runs one instance on the real code under /repo and collects the public observables."""
import logging
import os
import random
import sys
import traceback

REPO = os.environ.get("VRPY_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

logging.disable(logging.CRITICAL)
import networkx as nx  # noqa: E402
import numpy as np  # noqa: E402
import vrpy  # noqa: E402
from vrpy import VehicleRoutingProblem  # noqa: E402

if not os.path.realpath(vrpy.__file__).startswith(os.path.realpath(REPO)):
    raise ImportError("vrpy is not the one of %s: %s" % (REPO, vrpy.__file__))

from .ref import _h  # noqa: E402


def build_graph(inst):
    G = nx.DiGraph()
    for n, a in inst["nodes"]:
        a = {k: (_h(x) if k == "request" else x) for k, x in a.items()}
        G.add_node(_h(n), **a)
    for u, v, a in inst["edges"]:
        G.add_edge(_h(u), _h(v), **{k: (list(x) if isinstance(x, list) else x) for k, x in a.items()})
    return G


def cp(x):
    if isinstance(x, list):
        return [cp(y) for y in x]
    if isinstance(x, dict):
        return {k: cp(y) for k, y in x.items()}
    return x


def solve_args(d):
    d = cp(d or {})
    for k in ("initial_routes", "preassignments"):
        if d.get(k):
            d[k] = [[_h(v) for v in r] for r in d[k]]
    return d


def observe(prob):
    """Everything a user can query after solve()."""
    return {
        "routes": {k: list(v) for k, v in dict(prob.best_routes).items()},
        "value": prob.best_value,
        "types": dict(prob.best_routes_type),
        "costs": prob.best_routes_cost,
        "load": prob.best_routes_load,
        "node_load": prob.node_load,
        "duration": prob.best_routes_duration,
        "arrival": prob.arrival_time,
        "departure": prob.departure_time,
        "schedule": prob.schedule,
        "self_check": self_check(prob),
    }


def self_check(prob):
    """The checks of arrival and departure times the class offers: what they say about the plan."""
    out = []
    for name in ("check_arrival_time", "check_departure_time"):
        try:
            getattr(prob, name)()
        except AssertionError:
            out.append(name)
    return out


def failure(e):
    return {"error": type(e).__name__, "msg": str(e)[:300], "tb": traceback.format_exc()[-2500:]}


SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def fix_random(seed=0):
    seed = seed + SEED
    random.seed(seed)
    np.random.seed(seed)


def new_problem(inst, G=None):
    return VehicleRoutingProblem(build_graph(inst) if G is None else G, **cp(inst.get("opts", {})))


def run(inst, seed=0, solve=None):
    fix_random(seed)
    try:
        prob = new_problem(inst)
        prob.solve(**solve_args(inst.get("solve") if solve is None else solve))
        return observe(prob)
    except Exception as e:  # noqa: BLE001
        return failure(e)


def canon(obs):
    """Canonical form of an outcome (for counting distinct ones)."""
    if "error" in obs:
        return ("error", obs["error"])
    return (round(float(obs["value"]), 4), tuple(sorted(str(r) for r in obs["routes"].values())))
