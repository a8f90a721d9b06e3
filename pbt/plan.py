"""How much each check explores (no import of the code under test here)."""

_DATA = "Hypothesis draws plain-data cases (networks, data sets, parameters); "

# property: (quick cases, thorough cases, rule)
CASES = {
    "C01": (2400, 60000, "non-trivial: the child has a parent, changes state, and more than one parent combination is visited"),
    "C02": (1200, 30000, "non-trivial: two or more parents with different cardinalities"),
    "C03": (3000, 80000, "non-trivial: at least one transition counted"),
    "C04": (2400, 60000, "non-trivial: two or more trajectories and two or more intervals"),
    "C05": (1200, 30000, "non-trivial: two or more routes compared on at least two intervals"),
    "C06": (2400, 40000, "non-trivial: something is damaged, missing or inconsistent, so a refusal is due"),
    "C07": (1600, 40000, "non-trivial: a density strictly between none and all of the edges, or one to refuse"),
    "C08": (1600, 40000, "non-trivial: some variable has a parent and the range of rates is not a point"),
    "C09": (1200, 30000, "non-trivial: the network has an edge and a trajectory more than three rows"),
    "C10": (400, 8000, "non-trivial: the network has an edge and more than 100 transitions were judged"),
    "C11": (240, 5000, "non-trivial: a request for two or more trajectories"),
    "C12": (1200, 30000, "non-trivial: some variable has a parent"),
    "C13": (1200, 30000, "non-trivial: some variable has a parent"),
    "C14": (2000, 50000, "non-trivial: at least one transition of the child"),
    "C15": (1000, 25000, "non-trivial: the family has a parent and the child changes state"),
    "C16": (2400, 60000, "non-trivial: a test decided by the statistics on more than five departures"),
    "C17": (900, 20000, "non-trivial: three or more tests, of two or more kinds, on one estimator"),
    "C18": (800, 20000, "non-trivial: conditioning sets of size one or more were needed and some but not all edges remain"),
    "C19": (600, 15000, "non-trivial: some known edge is not learned when it is not given"),
    "C20": (900, 20000, "non-trivial: the parents limit is reached and binding, or the constraint-based learner finds an edge"),
    "C21": (800, 20000, "non-trivial: three or more variables and the result differs from the known parents"),
    "C22": (1200, 30000, "non-trivial: one variable, a variable that never changes, every edge known, a limit of zero, "
                         "no iterations, or more tabu entries than variables"),
    "C23": (480, 12000, "non-trivial: two or more variables and a non-empty structure"),
    "C24": (800, 20000, "non-trivial: some but not all edges are learned"),
    "C25": (1600, 40000, "non-trivial: five or more edits of which at least one removes a variable"),
    "C26": (2400, 60000, "non-trivial: lookups that hit and lookups that miss, with two or more sets or a clear"),
    "C27": (128, 4000, "non-trivial: the network has an edge and every context enough data"),
    "C28": (640, 16000, "non-trivial: some but not all edges are learned"),
    "C29": (320, 8000, "non-trivial: the network has an edge and four or more contexts with twenty expected events"),
    "C30": (800, 20000, "non-trivial: a learning did fail, and there are prior edges or a non-empty structure"),
    "C31": (640, 16000, "non-trivial: two or more variables remain, one removed comes before one that remains, and some but not all "
                        "edges are learned or three variables remain"),
    "C32": (640, 16000, "non-trivial: something is sampled, twice or from a network with edges"),
    "C33": (1200, 30000, "non-trivial: two or more sample paths and an operation on one of them or on what it came from"),
    "C35": (800, 20000, "non-trivial: the threads took twenty or more turns"),
    "C34": (2400, 60000, "non-trivial: three or more moves were tried"),
}
# seconds after which a case counts as endless
GUARDS = {"C22": 60, "C27": 240}
ASSUME = ["labels are strings, cardinalities at least 2, the time column comes first (documented header)",
          "numpy, pandas, networkx, scipy and Hypothesis are trusted"]


def plan(prop, tier):
    quick, thorough, rule = CASES[prop]
    return {"shards": 8, "cases": quick if tier == "quick" else thorough,
            "budget": 300 if tier == "quick" else 3000, "shrink": 45 if tier == "quick" else 300,
            "guard": GUARDS.get(prop, 120), "rule": _DATA + rule, "assumptions": ASSUME}
