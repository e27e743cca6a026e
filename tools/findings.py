"""Writes known-findings.txt from the fix: commits of /repo (run after each new fix)."""
import subprocess
MAP = {
 "solving again must not depend": "C13", "account for service and asymmetric": "C03", "never return an initial route": "C03",
 "allow unconstrained routes": "C10", "do not mistake routes": "C24", "search for elementary routes": "C10", "relax dropping variables": "C08",
 "visit periodic customers": "C18", "do not return the routes of a fractional": "C12", "initial routes use the cost": "C24",
 "randomized greedy columns": "C20", "find routes for every vehicle": "C07", "the hyper heuristic stops only": "C12",
 "keep generating columns": "C12", "backtracking from the root": "C12", "node names with characters": "C23",
 "schedule customers without demand": "C18", "the global span accounts": "C22", "dual values do not lose": "C10",
 "routes of the LP subproblem do not include cycles": "C12", "time windows when the direct edge": "C04",
 "maximum duration with time windows": "C03", "Clarke & Wright solution accounts": "C19", "diving heuristic when all nodes": "C16",
 "BestPaths pricing strategy": "C12", "missing depot edges": "C24", "build routes of the LP subproblem": "C15",
 "the LP subproblem does not generate the same": "C22", "pickup and delivery without load": "C05", "pricing strategy is changed": "C05",
 "no empty routes when all": "C07", "requests that miss": "C05", "no columns from the LP subproblem": "C15", "compute the schedule when": "C15",
 "requests that exceed the capacity of some": "C24",  "visit a customer more than once are not": "C17", "at most once a day to customers": "C18",
 "does not miss routes when travel times": "C04", "ignores customers that cannot": "C08", "leave no vertex to drop": "C16", "give a preassigned route a vehicle": "C16",
}
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
lines = ["# Findings on Kuifje02/vrpy. `fixed:` entries are repaired by the commit named and suppress nothing;",
         "# a `known: property=<id> key=<key> ...` entry would be reported as KNOWN-FINDING (there is none).", ""]
for l in out.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        k = [v for m, v in MAP.items() if m in s]
        assert len(k) == 1, (s, k)
        lines.append("fixed: property=%s %s %s" % (k[0], h, s[5:]))
open("/verif/known-findings.txt", "w").write("\n".join(lines) + "\n")
