"""Learns the same structures (or generates the same networks) in another process, with its own string hashes."""
import json
import os
import subprocess
import sys


def learn_all(case):
    from . import gen, learn, sutkit
    out = []
    for c in case["jobs"]:
        d = gen.expand(c["d"])
        s = sutkit.sample_path(d, c["prior"] or None)
        est = learn.estimator(s, c["cfg"], learn.edges_arg(d, c["known"]))
        out.append(sorted(learn.pairs(learn.estimate(est, c["cfg"], c["seed"]))))
    return out


def ask(case, hash_seed):
    """The edges of every job, or an error message."""
    env = dict(os.environ, PYTHONHASHSEED=str(hash_seed))
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", "import sys; sys.path.insert(0, %r); from pbt import other; other.main()" % root],
                       input=json.dumps(case), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
    for line in r.stdout.splitlines():
        if line.startswith("RESULT "):
            return json.loads(line[7:])
        if line.startswith("EDGES "):
            return [[tuple(e) for e in job] for job in json.loads(line[6:])]
    return (r.stdout + r.stderr)[-1500:]


def main():
    from . import boot
    boot.boot()
    case = json.load(sys.stdin)
    if case.get("task") == "c32":
        from .props import c32
        print("RESULT " + json.dumps(c32.elsewhere(case)))
        return
    print("EDGES " + json.dumps(learn_all(case)))
