"""Writes MANIFEST.json (run from /verif)."""
import json
T = {
 "C01": "property-based testing against a row-by-row reference model of the statistics, plus marginalisation and total-time relations",
 "C02": "property-based testing: enumeration model of the joint parent states, reference statistics per combination, model of the selection",
 "C03": "property-based testing against the formula in exact rationals",
 "C04": "property-based testing against the list of consecutive observations, over all import routes and frame indexes",
 "C05": "differential property-based testing of the import routes and import histories; deep comparison of the caller's data",
 "C06": "fault-injecting property-based testing: damaged, missing and inconsistent inputs must be refused, complete ones accepted",
 "C07": "property-based testing: validity predicate, exact edge count, exact binomial tails over repeated generation",
 "C08": "property-based testing with a validity predicate over every generated matrix",
 "C09": "property-based testing with a validity predicate over every row, exponential and Poisson tails for the end time, import of the result",
 "C10": "statistical property-based testing: exponential martingales over predictable groups of waiting times, movers and destinations (false alarm below 2e-11 per group)",
 "C11": "property-based testing of request lists: multiset of limits, validity of each trajectory, pairwise distinct paths over a history of requests",
 "C12": "round-trip property-based testing with an independent reader of the file and its keys",
 "C13": "differential property-based testing: same seed, network in memory against network from a file with shuffled edges and combinations",
 "C14": "property-based testing against the closed form and against the chain of one-step predictive densities",
 "C15": "metamorphic property-based testing of rewritten data and of histories of scores",
 "C16": "property-based testing against a reference implementation of both tests, with levels next to the critical ones (statistics within 1e-7 of a quantile skipped and counted)",
 "C17": "stateful property-based testing: sequences of tests on one estimator against a new estimator per test",
 "C18": "model-based property-based testing against a reference CTPC on reference tests",
 "C19": "property-based testing: inclusion, and metamorphic comparison of runs with more and fewer known edges",
 "C20": "property-based testing with a validity predicate and the parents limit",
 "C21": "property-based testing: reference score of all neighbours, monotonicity along the same random state",
 "C22": "property-based testing of extreme configurations with a time guard (no exception, no hang)",
 "C23": "stateful property-based testing: repeated, fresh and parallel runs and processes with other string hashes compared; deep comparison of inputs before and after",
 "C24": "property-based testing: set comparison of matrix, file, plot and spurious edges with the returned structure",
 "C25": "model-based stateful property-based testing of edit sequences, with estimation after removals",
 "C26": "model-based stateful property-based testing against a dictionary of sets",
 "C27": "property-based testing on data simulated by the harness from strongly coupled networks",
 "C28": "metamorphic property-based testing of the learner",
 "C29": "end-to-end statistical property-based testing with martingale bounds (false alarm below 2e-11 per intensity)",
 "C30": "stateful property-based testing with fault injection at the k-th call of numeric, output and internal functions, against an undisturbed twin",
 "C31": "differential stateful property-based testing: data with variables removed against data imported without them",
 "C32": "stateful property-based testing: repeated sequences of operations from the same random state compared, also across processes",
 "C33": "model-based stateful property-based testing of several sample paths, importers and callers at once",
 "C34": "model-based property-based testing of the search: every move, seen through scripted score functions, followed by a model",
 "C35": "property-based testing of schedules: threads switched deterministically at generated lines of the code, against each job alone",
}
props = [json.loads(l) for l in open("properties.jsonl")]
note = ("Explores generated inputs and histories with Hypothesis in 8 processes, against an explicit oracle; a pass means "
        "that no explored case broke the property. Trusts the harness's oracles, Hypothesis, numpy, pandas, scipy and networkx.")
out = {"version": 1, "setup_cmd": "/opt/venv/bin/python run.py C26 --cases 8 --no-evidence",
       "checks": [{"property": p["id"], "quick_cmd": "/opt/venv/bin/python run.py %s --tier quick" % p["id"],
                   "thorough_cmd": "/opt/venv/bin/python run.py %s --tier thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": T[p["id"]], "level": "exploration",
                   "level_note": note} for p in props],
       "not_applicable": [],
       "notes": "No hooks in /repo: every check drives the public interface of the working tree in /repo."}
with open("MANIFEST.json", "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
