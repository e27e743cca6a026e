"""Job kinds: each runs part of the explored space on the real code and judges every execution."""
import copy
import json

from . import run as R
from . import tight as T
from .judge import always_solvable, close, judge_error, leq, trivial_value
from .judge import judge as _judge
from .ref import COUNT, SRC, SNK, Model, _h

KINDS = {}


def kind(f):
    KINDS[f.__name__] = f
    return f


def execute(job):
    a, b = COUNT
    out = KINDS[job["kind"]](job)
    out["states"], out["transitions"] = COUNT[0] - a, COUNT[1] - b
    return out


class Res:
    def __init__(self):
        self.bad, self.n, self.validated, self.outcomes, self.extra = [], 0, 0, [], {}
        self.sample = None

    def add(self, code, msg, detail=None):
        self.bad.append([code, msg, detail])

    def count(self, key, k=1):
        self.extra[key] = self.extra.get(key, 0) + k

    def out(self):
        return {
            "bad": self.bad,
            "n": self.n,
            "validated": self.validated,
            "outcomes": self.outcomes,
            "extra": self.extra,
            "sample": self.sample,
        }


def judge(M, obs, *args, **kwargs):
    try:
        return _judge(M, obs, *args, **kwargs)
    except Exception as e:  # noqa: BLE001
        # results that cannot be read as routes and figures
        return [("SHAPE", "results make no sense (%s: %s): %s" % (type(e).__name__, e, str(obs)[:400]))]


def outcome(obs):
    return json.dumps(R.canon(obs), default=str)


def reference(inst, big=False, tight=True):
    """(model, optimum, tight, optimum known?)"""
    M = Model(inst)
    if big or len(M.customers) > (9 if inst.get("forward") else 7):
        return M, None, False, False
    if not tight or M.span:
        return M, M.optimum(), False, True
    o, t = T.analyse(M)
    if t and M.pd and M.tw and not inst.get("metric"):
        t = False  # see DESIGN.md: requests are rejected when the direct trip is not feasible
    return M, o, t, True


@kind
def solve(job):
    """One problem, several sets of solver options: every outcome against the reference."""
    res = Res()
    inst = job["inst"]
    M, opt, tight, known = reference(inst, job.get("big"), job.get("opt", True))
    upper = None
    if job.get("upper") and not M.span and always_solvable(M):
        upper = trivial_value(M)
    res.count("problems")
    res.count("tight", int(tight))
    res.count("infeasible", int(known and opt is None))
    for sv in job["variants"]:
        obs = R.run(inst, solve=sv)
        res.n += 1
        if "error" in obs:
            bad = judge_error(M, obs, opt, tight, known)
            if not known and not always_solvable(M):
                bad = []
        else:
            bad = judge(M, obs, opt, tight, upper=upper, known_opt=known)
        res.validated += 1
        res.outcomes.append(outcome(obs))
        for c, m in bad:
            res.add(c, m, {"solve": sv, "obs": {k: str(v) for k, v in obs.items()}})
    if res.n:
        res.sample = {"opts": inst["opts"], "solve": job["variants"][-1], "outcome": res.outcomes[-1], "optimum": opt}
    return res.out()


# --- limits --------------------------------------------------------------------
def heuristic_value(inst):
    """Value of the Clarke & Wright solution, None if not available for this problem."""
    o = inst["opts"]
    if any(o.get(k) for k in ("time_windows", "pickup_delivery", "distribution_collection", "mixed_fleet", "periodic")):
        return None
    obs = R.run(inst, solve={"heuristic_only": True})
    return None if "error" in obs else obs["value"]


def available_value(M, inst):
    """Value of a plan the column generation starts from (None if there is no such guarantee)."""
    if M.span:
        return None
    if not always_solvable(M):
        return None
    vals = [trivial_value(M), heuristic_value(inst)]
    vals = [v for v in vals if v is not None]
    return min(vals) if vals else None


def _note(res, bad, obs, detail):
    for c, m in bad:
        res.add(c, m, dict(detail, obs={k: str(v) for k, v in obs.items()}))


@kind
def clock(job):
    """time_limit with a controlled clock: time runs out at every single reading of the clock."""
    from . import env

    res = Res()
    inst = job["inst"]
    M, opt, tight, known = reference(inst)
    avail = available_value(M, inst)
    for sv in job["variants"]:
        sv = dict(sv, time_limit=100)
        for jump in job["jumps"]:
            k, reads = 1, None
            while reads is None or k <= reads:
                COUNT[0] += 1
                c = env.Clock(None if reads is None else k, jump)
                obs = env.controlled(lambda: R.run(inst, solve=sv), c)
                COUNT[1] += c.reads
                if reads is None:
                    # undisturbed run: gives the number of readings
                    reads = c.reads
                    res.count("clock_readings", reads)
                    if "error" in obs and not always_solvable(M) and not tight:
                        break
                    k = 2  # the first reading defines the starting time
                else:
                    k += job.get("step", 1)
                res.n += 1
                res.validated += 1
                res.outcomes.append(outcome(obs))
                if "error" in obs:
                    bad = []
                    if always_solvable(M):
                        bad = [("ERR", "%s: %s" % (obs["error"], obs["msg"]))]
                else:
                    bad = judge(M, obs, opt, False, upper=avail, known_opt=known)
                _note(res, bad, obs, {"solve": sv, "jump": jump, "k": c.k})
                if k > 400:
                    res.count("capped")
                    break
    res.sample = {"opts": inst["opts"], "solve": sv, "readings": reads, "outcome": res.outcomes[-1] if res.outcomes else None}
    return res.out()


@kind
def iters(job):
    """max_iter: every number of iterations."""
    res = Res()
    inst = job["inst"]
    M, opt, tight, known = reference(inst)
    avail = available_value(M, inst)
    for sv in job["variants"]:
        for m in job["iters"]:
            s2 = dict(sv, max_iter=m)
            obs = R.run(inst, solve=s2)
            res.n += 1
            res.validated += 1
            res.outcomes.append(outcome(obs))
            if "error" in obs:
                bad = [("ERR", "%s: %s" % (obs["error"], obs["msg"]))] if always_solvable(M) else []
            else:
                bad = judge(M, obs, opt, False, upper=avail, known_opt=known)
            _note(res, bad, obs, {"solve": s2})
    res.sample = {"opts": inst["opts"], "solve": sv, "iters": job["iters"], "outcome": res.outcomes[-1]}
    return res.out()


@kind
def stop(job):
    """The limits are effective: the number of runs of the solvers is bounded by the number of
    iterations, and once time is up no other iteration is started."""
    from . import env

    res = Res()
    inst = job["inst"]
    M = Model(inst)
    upper = trivial_value(M) if always_solvable(M) and not M.span else None
    for sv in job["variants"]:
        per = 3 + 5 * M.K  # runs of the solvers in one iteration
        dive = 1 if sv.get("dive") else 0
        for m in job["iters"]:
            n = env.Calls()
            s2 = dict(sv, max_iter=m)
            obs = env.controlled(lambda: R.run(inst, solve=s2), n)  # noqa: B023
            _stopped(res, M, obs, upper, s2, n.total, (m + dive) * per + 6, n.rounds, m + dive, {})
        for k in job["reads"]:
            c = env.Clock(k, 1000.0)
            n = env.Calls(c)
            s2 = dict(sv, time_limit=100)
            obs = env.controlled(lambda: R.run(inst, solve=s2), c, n)  # noqa: B023
            _stopped(res, M, obs, upper, s2, n.late, (1 + dive) * per + 6, n.late_rounds, 1 + dive, {"k": k})
    res.sample = {"opts": inst["opts"], "solve": s2, "runs": n.late, "outcome": res.outcomes[-1]}
    return res.out()


def _stopped(res, M, obs, upper, sv, runs, bound, rounds, allowed, detail):
    COUNT[0] += 1
    COUNT[1] += 1
    res.n += 1
    res.validated += 1
    res.outcomes.append(outcome(obs))
    if "error" in obs:
        bad = [("ERR", "%s: %s" % (obs["error"], obs["msg"]))] if always_solvable(M) else []
    else:
        bad = judge(M, obs, None, False, upper=upper, known_opt=False)
    if runs > bound:
        bad.append(("LATE", "%d runs of a solver, %d are enough to stop within the limit" % (runs, bound)))
    if rounds > allowed:
        bad.append(("LATE", "%d iterations instead of at most %d" % (rounds, allowed)))
    _note(res, bad, obs, dict(detail, solve=sv))


# --- random choices --------------------------------------------------------------
@kind
def rand(job):
    """Every outcome of the random choices with at most `bound` departures from the default."""
    from . import env

    res = Res()
    inst = job["inst"]
    M, opt, tight, known = reference(inst)
    sv = job["solve"]
    bound = job.get("bound", 1)
    cap = job.get("cap", 100000)

    def one(prefix, policy=0):
        ch = env.Choices(prefix, policy)
        obs = env.controlled(lambda: R.run(inst, solve=sv), ch, env.Clock(tick=0.001))
        res.n += 1
        res.validated += 1
        res.outcomes.append(outcome(obs))
        bad = judge_error(M, obs, opt, tight, known) if "error" in obs else judge(M, obs, opt, tight, known_opt=known)
        _note(res, bad, obs, {"solve": sv, "choices": ch.taken, "policy": str(policy)})
        return ch

    # uniform policies: always the p-th alternative, and alternating ones
    for p in range(1, 5):
        one([], p)
    stack = [([], 0)]
    while stack:
        prefix, dev = stack.pop(0)
        if res.n >= cap:
            res.count("capped")
            break
        if res.bad:
            break
        ch = one(prefix)
        COUNT[0] += len(ch.sizes) - len(prefix) + 1
        COUNT[1] += len(ch.sizes)
        res.count("choice_points", len(ch.sizes) - len(prefix))
        if dev >= bound:
            continue
        stride = job.get("stride", 1)
        for i in range(len(prefix), len(ch.sizes), stride):
            for alt in range(ch.sizes[i]):
                if alt != ch.taken[i]:
                    stack.append((ch.taken[:i] + [alt], dev + 1))
    # the same choices twice: same execution
    a, b = one([]), one([])
    if a.sizes != b.sizes or a.taken != b.taken:
        res.count("uncontrolled_nondeterminism")
    res.sample = {"opts": inst["opts"], "solve": sv, "choices": a.taken[:40], "outcome": res.outcomes[-1]}
    return res.out()


# --- histories ---------------------------------------------------------------------
def edit(inst, op):
    """Applies a data operation to the reference data; returns the new instance."""
    inst = copy.deepcopy(inst)
    what = op[0]
    if what == "set":
        inst["opts"][op[1]] = op[2]
    elif what == "unset":
        inst["opts"].pop(op[1], None)
    elif what == "node":
        for n in inst["nodes"]:
            if _h(n[0]) == _h(op[1]):
                n[1].update(op[2])
    elif what == "edge":
        for e in inst["edges"]:
            if (_h(e[0]), _h(e[1])) == (_h(op[1]), _h(op[2])):
                e[2].update(op[3])
    elif what == "del":
        inst["edges"] = [e for e in inst["edges"] if (_h(e[0]), _h(e[1])) != (_h(op[1]), _h(op[2]))]
    elif what == "add" and all(_h(n[0]) != _h(op[1]) for n in inst["nodes"]):
        inst["nodes"].append([op[1], dict(op[2])])
        inst["edges"] += [[u, v, dict(a)] for u, v, a in op[3]]
    return inst


_DEFAULTS = {"fixed_cost": 0, "time_windows": False, "pickup_delivery": False, "distribution_collection": False,
             "use_all_vehicles": False, "mixed_fleet": False, "minimize_global_span": False}


def apply(prob, G, op):
    """The same operation on the live problem, the way the documentation does it."""
    what = op[0]
    if what == "set":
        setattr(prob, op[1], copy.deepcopy(op[2]))
    elif what == "unset":
        setattr(prob, op[1], [] if op[1] == "num_vehicles" else _DEFAULTS.get(op[1]))
    elif what == "node":
        G.nodes[_h(op[1])].update(op[2])
    elif what == "edge" and G.has_edge(_h(op[1]), _h(op[2])):
        G.edges[_h(op[1]), _h(op[2])].update(op[3])
    elif what == "del" and G.has_edge(_h(op[1]), _h(op[2])):
        G.remove_edge(_h(op[1]), _h(op[2]))
    elif what == "add" and _h(op[1]) not in G:
        G.add_node(_h(op[1]), **op[2])
        for u, v, a in op[3]:
            G.add_edge(_h(u), _h(v), **a)


@kind
def hist(job):
    """A sequence of operations on one problem object; after each solve() the outcome must be the
    one of a problem built from scratch with the current data."""
    res = Res()
    for ops in job["histories"]:
        inst = copy.deepcopy(job["inst"])
        G = R.build_graph(inst)
        prob = R.new_problem(inst, G)
        done = []
        for op in ops:
            done.append(op)
            COUNT[0] += 1
            COUNT[1] += 1
            if op[0] != "solve":
                inst = edit(inst, op)
                apply(prob, G, op)
                continue
            R.fix_random(0)
            try:
                prob.solve(**R.solve_args(op[1]))
                obs = R.observe(prob)
            except Exception as e:  # noqa: BLE001
                obs = R.failure(e)
            fresh = _fresh(inst, op[1])
            res.n += 1
            res.validated += 1
            res.outcomes.append(outcome(obs))
            bad = []
            d = {"history": done}
            if ("error" in obs) != ("error" in fresh):
                bad.append(("STALE", "after %s: %s, from scratch: %s" % (done, _short(obs), _short(fresh))))
            elif "error" not in obs:
                if not close(obs["value"], fresh["value"]):
                    bad.append(("STALE", "after %s: value %s, from scratch: %s" % (done, obs["value"], fresh["value"])))
                M = Model(inst)
                locked = [r for r in (op[1].get("preassignments") or []) if r[0] == SRC and r[-1] == SNK]
                bad += [("STALE", "after %s: %s %s" % (done, c, m)) for c, m in judge(M, obs, known_opt=False, locked=locked)
                        if not locked or c not in ("FLEET", "USEALL")]
                if sorted(map(str, obs["routes"].values())) != sorted(map(str, fresh["routes"].values())):
                    res.count("other_routes_same_value")
            _note(res, bad, obs, d)
    res.sample = {"history": ops, "outcome": res.outcomes[-1] if res.outcomes else None}
    return res.out()


_FRESH = {}


def _fresh(inst, sv):
    key = json.dumps([inst, sv], sort_keys=True, default=str)
    if key not in _FRESH:
        if len(_FRESH) > 20000:
            _FRESH.clear()
        _FRESH[key] = R.run(inst, solve=sv)
    return _FRESH[key]


def _short(obs):
    return "%s: %s" % (obs["error"], obs["msg"]) if "error" in obs else "value %s" % obs["value"]


# --- input data is left alone -----------------------------------------------------
def snapshot(G):
    return (
        sorted(((str(type(v)), str(v)), copy.deepcopy(sorted(a.items(), key=str))) for v, a in G.nodes(data=True)),
        sorted(((str(u), str(v)), copy.deepcopy(sorted(a.items(), key=str))) for u, v, a in G.edges(data=True)),
        list(G.nodes()),
        list(G.edges()),
    )


@kind
def keep(job):
    """solve() leaves the graph, the arguments and the parameters of the user as they are."""
    res = Res()
    inst = job["inst"]
    for sv in job["variants"]:
        G = R.build_graph(inst)
        args = R.solve_args(sv)
        opts = R.cp(inst["opts"])
        R.fix_random(0)
        try:
            prob = R.VehicleRoutingProblem(G, **opts)
        except Exception as e:  # noqa: BLE001
            res.add("ERR", "%s: %s" % (type(e).__name__, e), {"solve": sv})
            continue
        import inspect

        params = [p for p in inspect.signature(R.VehicleRoutingProblem.__init__).parameters if p not in ("self", "G") and hasattr(prob, p)]
        given = {p: copy.deepcopy(getattr(prob, p)) for p in params}
        COUNT[0] += 2  # before and after
        COUNT[1] += 3  # construction, solve(), reading
        before = snapshot(G)
        err = None
        try:
            prob.solve(**args)
        except Exception as e:  # noqa: BLE001
            err = R.failure(e)
        res.n += 1
        res.validated += 1
        after = snapshot(G)
        res.outcomes.append("error" if err else outcome(R.observe(prob)))
        if before != after:
            diff = [x for x, y in zip(before, after) if x != y][:1]
            res.add("INPUT", "solve() changed the input graph: %s -> %s" % (_first_diff(before, after), bool(diff)), {"solve": sv})
        if opts != inst["opts"]:
            res.add("INPUT", "solve() changed the parameters %s to %s" % (inst["opts"], opts), {"solve": sv})
        if args != R.solve_args(sv):
            res.add("INPUT", "solve() changed its arguments %s to %s" % (sv, args), {"solve": sv})
        if prob.G is not G:
            res.add("INPUT", "the graph of the problem was replaced", {"solve": sv})
        for k, v in dict(given, **inst["opts"]).items():
            cur = getattr(prob, k)
            # a single value may be stored as a list of one value
            if cur != v and cur != [v] and not (not cur and not v):
                res.add("INPUT", "parameter %s is %s instead of %s after solve()" % (k, cur, v), {"solve": sv})
        if not err:
            # reading the results changes nothing either
            a = repr(R.observe(prob))
            b = repr(R.observe(prob))
            if a != b or snapshot(G) != before:
                res.add("INPUT", "reading the results twice gives different results", {"solve": sv})
    res.sample = {"opts": inst["opts"], "solve": sv, "outcome": res.outcomes[-1] if res.outcomes else None}
    return res.out()


def _first_diff(a, b):
    for x, y in zip(a, b):
        if x != y:
            for i, j in zip(x, y):
                if i != j:
                    return "%s / %s" % (i, j)
            return "%s / %s" % (len(x), len(y))


# --- preassigned and initial routes ------------------------------------------------
def without(inst, routes):
    """The problem left when complete routes are taken out."""
    gone = {_h(v) for r in routes for v in r[1:-1]}
    out = copy.deepcopy(inst)
    out["nodes"] = [n for n in out["nodes"] if _h(n[0]) not in gone]
    out["edges"] = [e for e in out["edges"] if _h(e[0]) not in gone and _h(e[1]) not in gone]
    return out


@kind
def pre(job):
    """Complete preassigned routes are part of the solution as they are; the rest is solved as if
    the locked customers did not exist."""
    res = Res()
    inst = job["inst"]
    for routes in job["locks"]:
        rest = without(inst, routes)
        M = Model(inst)
        if not rest["nodes"][2:]:
            opt, tight, solvable, Mr = 0, True, True, None
        else:
            Mr, opt, tight, _ = reference(rest)
            solvable = always_solvable(Mr)
        for sv in job["variants"]:
            s2 = dict(sv, preassignments=routes)
            obs = R.run(inst, solve=s2)
            res.n += 1
            res.validated += 1
            res.outcomes.append(outcome(obs))
            res.count("tight", int(tight))
            bad = []
            if "error" in obs:
                if opt is not None and (tight or solvable) and not sv.get("heuristic_only"):
                    bad.append(("ERR", "%s: %s with %s locked" % (obs["error"], obs["msg"], routes)))
            else:
                bad = judge(M, obs, known_opt=False, locked=routes)
                if not bad:
                    locked_cost = 0
                    for r in routes:
                        cs = [M.cost(r, k) for k in range(M.K) if M.cap_ok(r, k)]
                        locked_cost += min(cs)
                    if opt is None:
                        bad.append(("SOLVED", "value %s although the rest of the problem has no solution" % obs["value"]))
                    elif not leq(opt + locked_cost, obs["value"]):
                        bad.append(("BELOW", "value %s below %s + %s" % (obs["value"], opt, locked_cost)))
                    elif tight and not sv.get("heuristic_only") and not leq(obs["value"], opt + locked_cost):
                        bad.append(("OPT", "value %s with %s locked, optimum %s + %s" % (obs["value"], routes, opt, locked_cost)))
            _note(res, bad, obs, {"solve": s2})
    res.sample = {"opts": inst["opts"], "solve": s2, "outcome": res.outcomes[-1]}
    return res.out()


def freed(inst, parts):
    """The problem with the edges of the partial routes free of charge."""
    free = {(_h(a), _h(b)) for p in parts for a, b in zip(p, p[1:])}
    out = copy.deepcopy(inst)
    for e in out["edges"]:
        if (_h(e[0]), _h(e[1])) in free:
            c = e[2]["cost"]
            e[2]["cost"] = [0] * len(c) if isinstance(c, list) else 0
    return out


@kind
def part(job):
    """Partial preassigned routes: the plan is valid with the figures of the original data, and it is
    the best one when the edges of the partial routes are free of charge."""
    res = Res()
    inst = job["inst"]
    M = Model(inst)
    for locks in job["locks"]:
        whole = [r for r in locks if r[0] == SRC and r[-1] == SNK]
        parts = [r for r in locks if r not in whole]
        zero = without(freed(inst, parts), whole)
        Mz, opt, tight, known = reference(zero)
        if M.fixed and any(p[0] == SRC for p in parts):
            tight = False
        for sv in job["variants"]:
            s2 = dict(sv, preassignments=locks)
            obs = R.run(inst, solve=s2)
            res.n += 1
            res.validated += 1
            res.outcomes.append(outcome(obs))
            res.count("tight", int(tight))
            bad = []
            if "error" in obs:
                if opt is not None and (tight or always_solvable(Mz)):
                    bad.append(("ERR", "%s: %s with %s locked" % (obs["error"], obs["msg"], locks)))
            else:
                bad = judge(M, obs, known_opt=False, locked=whole)
                if not bad and opt is None:
                    bad.append(("SOLVED", "value %s for a problem without solution" % obs["value"]))
                elif not bad and tight:
                    rest = [k for k, r in obs["routes"].items() if r not in whole]
                    v = sum(Mz.cost(tuple(_h(x) for x in obs["routes"][k]), obs["types"][k]) for k in rest)
                    v += (M.drop or 0) * (len(Mz.customers) - sum(len(obs["routes"][k]) - 2 for k in rest))
                    if not close(v, opt):
                        bad.append(("OPT", "plan of cost %s when the edges of %s are free, optimum %s" % (v, parts, opt)))
            _note(res, bad, obs, {"solve": s2})
    res.sample = {"opts": inst["opts"], "solve": s2, "outcome": res.outcomes[-1]}
    return res.out()


@kind
def init(job):
    """A supplied initial solution: the result is valid and not worse than it."""
    res = Res()
    inst = job["inst"]
    M, opt, tight, known = reference(inst)
    for routes in job["plans"]:
        value = 0
        types = []
        for r in routes:
            k = next((k for k in range(M.K) if M.route_ok(r, k)), None)
            types.append(k)
            if k is not None:
                value = max(value, M.cost(r, k)) if M.span else value + M.cost(r, k)
        feasible = None not in types
        if not M.periodic and sorted((_h(v) for r in routes for v in r[1:-1]), key=str) != sorted(M.customers, key=str):
            feasible = False
        if feasible and M.nveh and not M.periodic:
            for k in range(M.K):
                if types.count(k) > M.nveh[k] or (M.use_all and types.count(k) != M.nveh[k]):
                    feasible = False
        for sv in job["variants"]:
            s2 = dict(sv, initial_routes=routes)
            obs = R.run(inst, solve=s2)
            sure = tight and "max_iter" not in sv
            res.n += 1
            res.validated += 1
            res.outcomes.append(outcome(obs))
            res.count("tight", int(tight))
            if "error" in obs:
                bad = []
                if feasible or sure:
                    bad = [("ERR", "%s: %s with initial routes %s" % (obs["error"], obs["msg"], routes))]
                if not feasible and obs["error"] in ("ValueError", "KeyError"):
                    bad = []  # an initial solution that is not one may be rejected
            else:
                bad = judge(M, obs, opt, sure, upper=value if feasible else None, known_opt=known)
            _note(res, bad, obs, {"solve": s2})
    res.sample = {"opts": inst["opts"], "solve": s2, "outcome": res.outcomes[-1]}
    return res.out()


# --- Clarke & Wright only ---------------------------------------------------------
@kind
def heur(job):
    """heuristic_only: a valid plan or an exception; never better than the optimum, never worse than
    one vehicle per customer."""
    res = Res()
    inst = job["inst"]
    M, opt, tight, known = reference(inst, big=job.get("big"), tight=False)
    obs = R.run(inst, solve={"heuristic_only": True})
    res.n += 1
    res.validated += 1
    res.outcomes.append(outcome(obs))
    if "error" in obs:
        bad = []
        if job.get("must", True) and always_solvable(M):
            bad = [("ERR", "%s: %s" % (obs["error"], obs["msg"]))]
    else:
        bad = judge(M, obs, opt, False, upper=trivial_value(M) if inst.get("metric") and always_solvable(M) and not M.span and not M.drop else None, known_opt=known)
    _note(res, bad, obs, {"solve": {"heuristic_only": True}})
    res.sample = {"opts": inst["opts"], "outcome": res.outcomes[-1]}
    return res.out()


# --- invalid input ---------------------------------------------------------------
@kind
def reject(job):
    """Malformed input: an exception, never a solution."""
    from . import malformed

    res = Res()
    for case in job["cases"]:
        COUNT[0] += 1
        COUNT[1] += 2  # construction, solve()
        ok, what = malformed.run_case(case)
        res.n += 1
        res.validated += 1
        res.outcomes.append(what)
        if not ok:
            res.add("ACCEPT", "%s: %s" % (case, what), {"case": case})
    res.sample = {"case": case, "outcome": what}
    return res.out()
