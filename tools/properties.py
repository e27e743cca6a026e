"""Writes /verif/properties.jsonl and /verif/MANIFEST.json (run: python3 tools/properties.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CERT = ("where exact column generation certifies the optimum of the problem, the value returned is that "
        "constrained optimum (no feasible route is lost), and never a value below it")
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or ["VehicleRoutingProblem.solve", "best_routes", "best_value"], hook_needed=None),
                  _note=note))


VRP, MP, SP, LP, CS, GR, CW, HH, RM = ("vrpy/vrp.py", "vrpy/master_solve_pulp.py", "vrpy/subproblem.py", "vrpy/subproblem_lp.py",
                                       "vrpy/subproblem_cspy.py", "vrpy/subproblem_greedy.py", "vrpy/clarke_wright.py",
                                       "vrpy/hyper_heuristic.py", "vrpy/restricted_master_heuristics.py")
TOY = "the suite solves a handful of fixed toy graphs and benchmark files with few of the option sets; the property quantifies over all graphs, data and option sets"

prop("C01", "Routes are simple depot-to-depot paths that serve every customer once",
     "Whenever solve() returns, every route is a path of the given graph that starts at Source, ends at Sink and repeats no vertex, and every customer that is neither dropped nor periodic is on exactly one route (exactly once; periodic customers on as many routes as their frequency).",
     ["inputs", "configurations"], "all graphs, customer data, combinations of constraints and solver options", TOY,
     [VRP, MP, CS, LP, GR], [("set covering constraints of the master problem", MP), ("elementary pricing", CS), ("removal of routes that visit a node twice", VRP), ("conversion of routes to lists of nodes", VRP)])
prop("C02", "Vehicle capacity is respected, and only that much is forbidden",
     "The total demand of the customers of a route never exceeds the capacity of the vehicle type the route is assigned to (demand given at the depot is ignored; a route that meets the capacity exactly is allowed). With capacities, " + CERT + ".",
     ["inputs", "configurations"], "all demand vectors, capacities, vehicle types, graphs and solver options", TOY,
     [VRP, CS, LP, GR, CW, "vrpy/greedy.py"], [("load resource", CS), ("max_load constraint", LP), ("removal of arcs that exceed the capacity", VRP), ("load check when routes are merged", CW)])
prop("C03", "Maximum number of stops and maximum duration are respected, and only that",
     "No route visits more customers than num_stops, and no route lasts longer (travel times plus service times of its customers, in the direction it is driven) than duration; limits met exactly are allowed. With these limits, " + CERT + ".",
     ["inputs", "configurations"], "all stop limits, durations, travel and service times, also asymmetric ones, and solver options", TOY,
     [VRP, CS, LP, GR, CW, "vrpy/greedy.py"], [("stop and time resources", CS), ("max_stops and max_duration constraints", LP), ("check of each initial route", VRP), ("time of merged routes", CW)])
prop("C04", "Time windows are respected, waiting is allowed",
     "With time_windows, following a returned route without unnecessary delay (service times included, waiting when early, leaving Source at its opening time) reaches each customer and the Sink no later than its upper bound. With time windows, " + CERT + ".",
     ["inputs", "configurations"], "all windows, opening hours of the depot, travel and service times, and solver options", TOY,
     [VRP, CS, LP], [("time resource extension functions", CS), ("time window constraints", LP), ("removal of arcs and strengthening of windows", VRP)])
prop("C05", "Pickups and deliveries are paired, in order, within capacity",
     "With pickup_delivery, each route that visits a pickup also visits its delivery later on (and the other way round), and the load on board is never negative nor above the capacity. With pickups and deliveries, " + CERT + ".",
     ["inputs", "configurations"], "all pairings, amounts, capacities, with stops, durations, fleets, drop penalties and time windows", TOY,
     [VRP, LP], [("precedence, same-vehicle and load constraints", LP), ("initial request routes", VRP)])
prop("C06", "Simultaneous distribution and collection never overloads a vehicle",
     "With distribution_collection, the load on board (deliveries still to be made plus what was collected so far) never exceeds the capacity anywhere on a route. With simultaneous distribution and collection, " + CERT + ".",
     ["inputs", "configurations"], "all vectors of delivered and collected amounts, all capacities, all orders of customers", TOY,
     [VRP, CS, LP], [("pickup and delivery resource extension functions", CS), ("load tracking constraints", LP)])
prop("C07", "The fleet is never exceeded, and used completely when asked",
     "The number of computed routes of each vehicle type is at most num_vehicles of that type, and equal to it if use_all_vehicles is set. With a bounded fleet, " + CERT + "; a problem that cannot be solved with the fleet is never reported as solved.",
     ["inputs", "configurations"], "all fleet sizes, one or several vehicle types, with capacities, stops and drop penalties", TOY,
     [VRP, MP], [("upper_bound_vehicles constraints", MP), ("initial solution within the fleet", VRP), ("artificial variables", MP)])
prop("C08", "Dropped customers: one penalty each, served at most once",
     "With drop_penalty, each customer is either on exactly one route or dropped, and best_value is the cost of the routes plus one penalty per dropped customer. Dropping is decided by cost alone: with a drop penalty, " + CERT + ".",
     ["inputs", "configurations"], "all penalties, fleets, capacities, stop limits and windows that make customers unreachable", TOY,
     [VRP, MP], [("drop variables", MP), ("penalty in best_value", VRP)])
prop("C09", "Reported figures describe the returned routes",
     "best_value, best_routes_cost, best_routes_type, best_routes_load, node_load, best_routes_duration, arrival_time and departure_time are exactly the figures obtained by driving best_routes on the input data (fixed costs, service times, waiting and depot opening included).",
     ["inputs", "configurations"], "all graphs, data, combinations of constraints and solver options", "tests check single figures of single toy problems; the figures depend on every feature at once (fixed costs, service, waiting, types)",
     [VRP], [("best_routes_cost, best_routes_load, node_load, arrival_time, departure_time, best_routes_duration", VRP), ("get_total_cost_and_routes", MP)],
     ["best_value", "best_routes_cost", "best_routes_load", "node_load", "arrival_time", "departure_time", "best_routes_duration", "best_routes_type"])
prop("C10", "Optimal where exact column generation must be, never below the optimum",
     "best_value is never below the true optimum. On problems whose route-covering relaxation is integral with indispensable columns, exact solving (the default options) returns the true optimum, whatever the scale of the costs, free edges or cheap cycles between customers.",
     ["inputs", "configurations"], "all problems with up to 6 customers within the families explored, all pricing strategies", "a test compares one hand-made instance with one known value; missing columns show only on particular cost structures",
     [VRP, MP, CS, LP, RM], [("exact pricing before stopping", VRP), ("dual values", MP), ("relaxed, then elementary search", CS)])
prop("C11", "A problem is solved if and only if it can be",
     "solve() never returns a solution for an infeasible problem and always returns one if serving each customer (request) by a vehicle of its own is feasible, or if the problem is within reach of exact column generation; otherwise it raises an exception.",
     ["inputs", "configurations"], "all problems around the border of feasibility: capacity, fleet, stops, duration, windows", TOY,
     [VRP, MP], [("artificial variables with prohibitive cost", MP), ("feasibility checks", "vrpy/checks.py"), ("status check of the integer program", MP)])
prop("C12", "Solver options change the way, not the answer",
     "Pricing strategy, cspy or LP pricing, elementary, greedy, dive and run_exact never affect validity of the solution, and where exact column generation certifies the optimum all of them return it.",
     ["configurations", "inputs"], "all combinations of pricing_strategy x cspy x elementary x greedy x dive (x run_exact) on every problem explored", "tests run each toy problem with one or two option sets; the options interact (e.g. greedy columns stop the generation, dive fixes routes)",
     [VRP, CS, LP, GR, HH, RM, SP], [("column generation loop", VRP), ("pricing strategies", VRP), ("diving heuristic", RM), ("hyper heuristic", HH)])
prop("C13", "Solving again is like solving from scratch",
     "After any sequence of solve() calls (with any options, also failing ones), changes of attributes of the problem and changes of the graph, solve() returns a solution that is valid for the current data, with the same value as a newly built problem, and fails if and only if that fails.",
     ["histories"], "all sequences of operations up to the stated depth over an alphabet of solve options and data changes", "the tests solve each problem object once or twice; state left behind by a call (pruned graph, columns, flags) shows only in longer histories",
     [VRP], [("working copy of the graph in solve()", VRP), ("reset of results at each call", VRP)])
prop("C14", "The input of the user is left alone",
     "solve() changes neither the graph (vertices, edges, attributes, their order) nor its arguments nor the parameters of the problem, whether it succeeds or fails; reading results changes nothing.",
     ["inputs", "configurations"], "all combinations of features, solver options, preassignments and initial routes, and failing calls", "no test compares the graph before and after",
     [VRP, "vrpy/preprocessing.py"], [("working copy of the graph", VRP), ("copies of arguments", VRP)], ["the user's networkx graph", "arguments of solve()"])
prop("C15", "Limits on time and iterations still give a valid plan",
     "Whatever the point at which time_limit or max_iter stops the search, solve() returns a valid solution (all other properties of plans hold) that is not worse than the plan it started from, provided serving each customer by a vehicle of its own is feasible. The limits are effective: once time is up or max_iter iterations are done, no further iterations are started (other than one for diving).",
     ["fault_sequences", "inputs", "configurations"], "time running out at every single reading of the clock, every iteration limit, for every option set explored", "a test can only set a wall clock limit, and time then runs out at an arbitrary point",
     [VRP, MP, LP, CS], [("_get_time_remaining", VRP), ("max_iter in the column generation loop", VRP), ("integer program after the limit", VRP)])
prop("C16", "Complete preassigned routes are part of the plan, the rest is optimised",
     "Each complete preassigned route (from Source to Sink) is in the solution exactly as given with its cost in best_value, no customer of it is visited again, and the remaining customers are served by valid routes as if they were the whole problem. A preassigned route is taken as given, also beyond stops, duration or windows. The edges of a partial preassigned route count as free of charge when the plan is chosen; the plan is valid and all figures are those of the original costs.",
     ["inputs", "configurations"], "all disjoint complete feasible routes (one, two or three) over 4 customers, partial routes of any length, with the options and constraints explored", "tests lock one route of one toy graph",
     [VRP], [("locked routes are removed from the graph and added to the results", VRP)])
prop("C17", "Initial routes help and never harm",
     "With feasible initial_routes solve() returns a valid solution that costs at most as much as they do, also if the number of iterations is limited; routes that are infeasible, or visit a customer more than once, never make it into the solution.",
     ["inputs", "configurations"], "all ordered partitions of 3 customers as initial routes, feasible or not, for every combination of constraints explored", "tests give one initial solution of one toy graph",
     [VRP, "vrpy/checks.py"], [("conversion of initial routes to columns", VRP), ("check_initial_routes", "vrpy/checks.py")])
prop("C18", "Periodic problems: frequencies are met and the schedule is one",
     "With periodic, each customer is on as many routes as its frequency (customers of a preassigned route: on that one only); schedule assigns each route to exactly one day of the period such that no customer is visited twice a day and no more vehicles of a type are used on a day than there are, balanced over days as well as possible; there is a schedule whenever the routes allow one.",
     ["inputs", "configurations"], "all frequencies up to 3, periods up to 4 days, fleets, capacities and stop limits", TOY,
     [VRP, "vrpy/schedule.py", MP], [("schedule model", "vrpy/schedule.py"), ("covering constraints with frequencies", MP)], ["best_routes", "schedule", "best_value"])
prop("C19", "The Clarke & Wright heuristic alone gives valid plans",
     "With heuristic_only, solve() returns a plan that respects coverage, capacity, stops, duration (and the fleet, if it succeeds) with correct figures, whose value is not below the optimum and, if costs obey the triangle inequality, not above one vehicle per customer.",
     ["inputs", "configurations"], "all problems explored with up to 5 customers, and larger ones up to 12, over all layouts and limits", TOY,
     [CW, VRP], [("savings and merges", CW), ("best_routes and figures after the heuristic", VRP)])
prop("C20", "No random choice leads to a wrong answer",
     "Whatever the outcomes of the random choices of the greedy column generator and of the hyper heuristic, the solution is valid, and optimal where exact column generation certifies the optimum.",
     ["schedules", "inputs"], "all sequences of random choices with a bounded number of departures from a default policy, plus uniform policies", "a test sees a single random stream, and may fail or pass by luck",
     [GR, HH, VRP], [("randomised greedy search", GR), ("selection of heuristics and move acceptance", HH)])
prop("C21", "Malformed input is rejected",
     "A problem or a call that contradicts the documentation (missing depot, edges into Source or out of Sink, missing costs, wrong types, inconsistent vehicle types, unknown strategies, bad preassignments or initial routes, customers that exceed every capacity or time limit) raises an exception of the expected kind and never yields a solution.",
     ["inputs"], "all single mutations of well-formed problems from a catalogue, on several base problems", "tests try some of the mistakes on one graph each",
     ["vrpy/checks.py", VRP], [("checks before solving", "vrpy/checks.py")], ["exceptions of the constructor and of solve()"])
prop("C22", "Global span: the longest route is what is minimised and reported",
     "With minimize_global_span, the plan is valid, best_value is the largest route cost (plus penalties of dropped customers), and it is never below the smallest value any valid plan can have, nor above that of a valid plan given as initial_routes.",
     ["inputs", "configurations"], "all problems explored with 3 customers, with capacities, fleets, stops, durations, fixed costs and drop penalties", TOY,
     [VRP, MP], [("makespan variables", MP), ("best_value", VRP)])
prop("C23", "Names and order of vertices and edges do not matter",
     "Renaming customers (numbers, strings with spaces or operators, tuples, names that resemble the depot) or building the graph in another order gives a valid solution, and the same optimum where exact column generation certifies it.",
     ["inputs"], "13 naming schemes, all orders of vertices of small graphs, several orders of edges", "tests use integers in increasing order",
     [VRP, MP, LP, CS], [("names of variables and constraints", MP), ("names of routes", VRP), ("relabelling of nodes", CS)])
prop("C24", "Mixed fleets: each route has the cost, capacity and fixed cost of its type",
     "With mixed_fleet, each route is assigned to one vehicle type whose costs, fixed cost, capacity and number apply to it and to the reported figures. With vehicle types, " + CERT + ".",
     ["inputs", "configurations"], "1 to 3 vehicle types with capacities, costs and fixed costs in any order", TOY,
     [VRP, MP, CS, LP], [("cost per vehicle type", VRP), ("one subproblem per vehicle type", VRP), ("initial routes per type", VRP)])

TECH = {
    "C13": "model checking: exhaustive enumeration of operation histories on the real object, fresh-object oracle plus reference model",
    "C14": "model checking: exhaustive enumeration of problems x options on the real code, state comparison before/after",
    "C15": "model checking: every point at which a controlled clock can expire, every iteration limit; reference-model monitors",
    "C20": "model checking: stateless exploration of all random choices with bounded deviations; reference-model monitors",
    "C21": "model checking: exhaustive enumeration of malformed inputs on the real code",
}
DEF = "model checking: exhaustive enumeration of bounded problems x options on the real code, judged by an explicit-state reference model"


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            p = {k: v for k, v in p.items() if not k.startswith("_")}
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    checks = []
    for p in P:
        i = p["id"]
        checks.append(dict(
            property=i,
            quick_cmd="./run.sh %s quick" % i,
            thorough_cmd="VERIF_TIER=thorough ./run.sh %s thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique=TECH.get(i, DEF),
            level="model_checking",
            level_note=p["_note"] or ("Every case of the bounded family in DESIGN.md (%s) is executed on the real code and its public results are compared with the "
                        "reference model, which enumerates all routes and plans of the case. Nothing is claimed outside the bounds; CBC, cspy and the reference model are trusted." % p["quantifier"]["text"]),
        ))
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[],
             notes="Checks import vrpy from /repo's working tree (pure Python, nothing to build). No hooks in /repo: clock and randomness are controlled from outside (mc/env.py).")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
