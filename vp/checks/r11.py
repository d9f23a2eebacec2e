"""R11: limbo species are the unprotected survivors below the upper threshold."""

import os

from vp import gen
from vp.reductions import Case

LEVEL = "exploration"
TECHNIQUE = (
    "online monitor over sequences of runs: the limbo list of every result is compared with the "
    "definition, and again after later runs in the same process"
)
NOTE = (
    "Real DRG, DRGEP and PFA searches over virtual error landscapes; the species needed at the "
    "upper threshold come from independent coefficients and searches."
)
RULE = (
    "One case = one run with or without an upper threshold, followed by others. Non-trivial: the "
    "limbo list is neither empty nor all unprotected species. Distinct by mechanism and list."
)
ASSUMPTIONS = ["coefficients within 1e-9 of the upper threshold may be decided either way"]
REQUIRED_EVENTS = (
    "limbo_species", "without_upper", "through_driver", "earlier_results_rechecked", "methods_DRG",
    "methods_DRGEP", "methods_PFA",
)
MIN_CASES = 20


def tasks(tier, seed):
    n = 84 if tier == "quick" else 800
    return [dict(seed=seed, i=i) for i in range(n)]


def run_task(task, rec):
    rng = gen.rng_of("r11", task["seed"], task["i"])
    earlier = []
    for k in range(int(rng.integers(2, 4))):
        case = Case(rng, method=str(rng.choice(["DRG", "DRGEP", "PFA"])), sa=False, n_species=(5, 12))
        if rng.random() < 0.8:
            case.tune_limit(rng)
        if case.upper is None and rng.random() < 0.5:
            case.upper = float(rng.choice([0.02, 0.05, 0.2, 0.5, 0.9, 1.0]))
        if case.upper is not None and rng.random() < 0.7:
            # a value around a real coefficient
            points = [p for p in case.breakpoints() if 0 < p <= 1.0]
            for _ in range(10 if points else 0):
                case.upper = float(rng.choice(points)) * float(rng.choice([0.999, 1.001]))
                first, later = case.kept_at(0.01), case.kept_at(case.upper)
                if later < first and later != case.protected():
                    break
        # saved samples of another model with as many species would be reused
        os.makedirs(f"run{k}")
        os.chdir(f"run{k}")
        case.prepare()
        driver = rng.random() < 0.5
        if driver:
            case.sa = False
            case.untyped = rng.random() < 0.5
            model, _ = case.run()
        else:
            model, _ = case.run_graph()
        rec.count("through_driver", driver)
        os.chdir("..")
        for old, copy in earlier:
            rec.count("earlier_results_rechecked")
            if list(old.limbo_species or []) != copy:
                rec.violation(
                    f"a later run changed the limbo species {copy} of an earlier result to "
                    f"{old.limbo_species}"
                )
        if model is None:
            rec.count("no_model")
            continue
        rec.count("methods_" + case.method)
        earlier.append((model, list(model.limbo_species or [])))
        judge(case, model, rec)


def judge(case, model, rec):
    rec.sample(case.describe())
    kept = list(model.model.species_names)
    got = list(model.limbo_species or [])
    free = set(kept) - case.protected()
    rec.count("limbo_species", len(got))
    rec.count("without_upper", not case.upper)
    rec.case((case.method, sorted(case.species), kept, got), 0 < len(got) < len(free))
    what = f"{case.method}: {case.describe()}: final model {kept}, limbo species {got}"
    if len(set(got)) != len(got):
        rec.violation(f"{what}: named more than once")
    if not case.upper:
        if got:
            rec.violation(f"{what}: there is no upper threshold")
        return
    wants = [case.limbo_at(kept, case.upper, s) for s in (0.0, -1e-9, 1e-9)]
    if set(got) not in wants:
        rec.violation(f"{what}, expected {sorted(wants[0])}")
