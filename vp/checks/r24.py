"""R24: a call does not depend on earlier calls, and leaves its arguments alone."""

import os
import pickle
import shutil
import subprocess
import sys

from vp import gen, ops
from vp.core import describe

LEVEL = "history_sampling"
TECHNIQUE = (
    "history monitor: random sequences of library calls in one process, each compared with the "
    "same call alone in a fresh process (value, error, files); all arguments and input files are "
    "compared by content before and after every call; the same calls under other hash seeds"
)
NOTE = (
    "A fresh process is a fork of one that has imported pyMARS and called nothing. All calls use "
    "the same directory and model file name, cleaned in between. Most reductions have virtual "
    "simulations, some sampling is real."
)
RULE = (
    "One case = one call after at least one other one. Non-trivial: the call has a result other "
    "than an error. Distinct by call and the kinds of the calls before it."
)
ASSUMPTIONS = ["numbers may differ by a relative 1e-9", "dates in files are not compared"]
REQUIRED_EVENTS = ("calls", "repeated", "arguments", "after_failure", "real", "main", "sa",
                   "convert", "trim", "sample", "retuned", "other_hash_seed")
MIN_CASES = 60

WEIGHTS = dict(main=5, graph=4, reduce=2, sa=4, errors=2, sample=3, trim=3, write=2, convert=2,
               compare=2, parse=3, cli=2, matrix=2, graphs=2, error=1, real=1, retuned=5)


def tasks(tier, seed):
    n = 48 if tier == "quick" else 1500
    return [dict(seed=seed, i=i) for i in range(n)]


def run_task(task, rec):
    import cantera  # noqa: F401  (a fresh process has everything imported)
    import pymars.pymars  # noqa: F401

    rng = gen.rng_of("r24", task["seed"], task["i"])
    kinds = list(WEIGHTS)
    weights = [WEIGHTS[k] for k in kinds]
    history = []
    for _ in range(int(rng.integers(4, 9))):
        if history and rng.random() < 0.3:
            history.append(history[int(rng.integers(len(history)))])
        else:
            kind = str(rng.choice(kinds, p=[w / sum(weights) for w in weights]))
            for _ in range(2 if kind == "retuned" else 1):
                history.append((kind, int(rng.integers(10**6))))
    together = in_child(history)
    alone = {}
    failed = False
    for k, (op, got) in enumerate(zip(history, together)):
        if isinstance(got, str):
            raise RuntimeError(got)
        if op not in alone:
            alone[op] = in_child([op])[0]
            if isinstance(alone[op], str):
                raise RuntimeError(alone[op])
        want = alone[op]
        kind = op[0]
        rec.count("calls")
        rec.count(kind)
        rec.count("arguments", got["checked"])
        rec.count("raised", got["raised"])
        rec.count("repeated", op in history[:k])
        rec.count("after_failure", failed)
        failed = got["raised"]
        before = [o[0] for o in history[:k]]
        if k:
            rec.case((op, before), not got["raised"])
        for c in dict.fromkeys(got["changed"] + want["changed"]):
            rec.violation(f"{kind} (seed {op[1]}) changes its {c}")
        for what in ("value", "files"):
            d = ops.difference(want[what], got[what])
            if d:
                rec.violation(
                    f"{kind} (seed {op[1]}) after {before}: {what} differ from a fresh process: {d}"
                )
    if task["i"] % 2 == 0:
        elsewhere(rng, alone, rec)
    rec.sample(dict(history=[o[0] for o in history]))


def elsewhere(rng, alone, rec):
    """The same calls in an interpreter of its own, which orders sets and hashes otherwise."""
    with open("calls.pickle", "wb") as fh:
        pickle.dump(list(alone), fh)
    hash_seed = str(int(rng.integers(1, 10**6)))
    subprocess.run(
        [sys.executable, "-m", "vp.checks.r24"],
        env=dict(os.environ, PYTHONHASHSEED=hash_seed),
        stdout=subprocess.DEVNULL,
        timeout=600,
        check=True,
    )
    with open("results.pickle", "rb") as fh:
        results = pickle.load(fh)
    for op, got in zip(alone, results):
        if isinstance(got, str):
            raise RuntimeError(got)
        rec.count("other_hash_seed")
        rec.case((op, "other hash seed"), not got["raised"])
        for what in ("value", "files"):
            d = ops.difference(alone[op][what], got[what])
            if d:
                rec.violation(
                    f"{op[0]} (seed {op[1]}): {what} depend on the hash seed of the process "
                    f"({hash_seed}): {d}"
                )


def perform_all():
    import cantera  # noqa: F401
    import pymars.pymars  # noqa: F401

    with open("calls.pickle", "rb") as fh:
        calls = pickle.load(fh)
    results = [in_child([op])[0] for op in calls]
    with open("results.pickle", "wb") as fh:
        pickle.dump(results, fh)


def in_child(history):
    """Results of the calls, one after another in a fork, each in a cleaned directory."""
    out = os.path.abspath("result.pickle")
    pid = os.fork()
    if pid == 0:
        results = []
        try:
            for op in history:
                os.makedirs("work")
                os.chdir("work")
                try:
                    results.append(ops.perform(op))
                except BaseException as exc:
                    results.append(describe(exc))
                os.chdir("..")
                shutil.rmtree("work")
            with open(out, "wb") as fh:
                pickle.dump(results, fh)
        finally:
            os._exit(0)
    os.waitpid(pid, 0)
    shutil.rmtree("work", ignore_errors=True)
    try:
        with open(out, "rb") as fh:
            results = pickle.load(fh)
    except (FileNotFoundError, EOFError):
        raise RuntimeError("no result of the calls")
    os.remove(out)
    return results


if __name__ == "__main__":
    perform_all()
