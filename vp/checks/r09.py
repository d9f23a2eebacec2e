"""R09: the threshold search ends, and returns the last candidate before failure."""

from vp import gen
from vp.reductions import METHODS, Case

LEVEL = "exploration"
TECHNIQUE = (
    "trace monitor with reference model: real threshold searches over virtual error landscapes; "
    "result and every simulated candidate are compared with an independent search"
)
NOTE = (
    "The real search runs end to end (sampling, graph, trimming, files); only the simulations "
    "are replaced by deterministic functions of the species in the file, so landscapes of any "
    "shape occur. Non-termination is a CPU budget of 4 minutes against a normal 1 second."
)
RULE = (
    "One case = one run of DRG, DRGEP or PFA on a random sub-mechanism, landscape, limit, target "
    "and protected sets. Non-trivial: a species was removed, or the search restarted or gave up. "
    "Distinct by mechanism, landscape and outcome."
)
ASSUMPTIONS = ["thresholds equal to a coefficient within 1e-9 may be decided either way"]
REQUIRED_EVENTS = ("returned", "gave_up", "never_exceeded", "restarted", "ladders")
MIN_CASES = 30


def tasks(tier, seed):
    n = 72 if tier == "quick" else 1200
    return [dict(seed=seed, i=i, method=METHODS[i % 3]) for i in range(n)]


def make(task):
    rng = gen.rng_of("r09", task["seed"], task["i"])
    if task["i"] % 12 >= 6:
        for _ in range(20):
            case = Case(rng, method=task["method"], sa=False, n_species=(8, 16))
            if ladder(case, rng):
                return case
    case = Case(rng, method=task["method"], sa=False, n_species=(5, 13))
    if rng.random() < 0.75:
        case.tune_limit(rng)
    return case


def ladder(case, rng):
    """Make the search restart, and fail after several different candidates.

    The species without which the simulations fail is one that goes at a step of the
    restarted search that comes after other species have gone.
    """
    case.limit = 10.0
    case.landscape.mode = "free"
    case.landscape.fatal = frozenset()
    choices = []
    for start in (1e-3, 1e-4) + ((1e-5,) if case.method == "DRGEP" else ()):
        kept = [case.kept_at(start * k) for k in range(1, 11)]
        for k in range(2, 11):
            gone = kept[k - 2] - kept[k - 1]
            if gone and kept[k - 2] != kept[0]:
                choices += [(s,) for s in gone]
    if not choices:
        return False
    case.landscape.vital = frozenset(choices[int(rng.integers(len(choices)))])
    case.ladder = True
    return True


def run_task(task, rec):
    case = make(task)
    rec.count("ladders", hasattr(case, "ladder"))
    case.prepare()
    references = case.references_graph()
    model, v = case.run_graph("events.log")
    events = v.events()
    judge(case, model, references, events, rec)


def judge(case, model, references, events, rec):
    rec.sample(case.describe())
    candidates = []
    for e in events:
        if e["ev"] == "metric":
            kept = frozenset(e["species"])
            if not candidates or candidates[-1] != kept:
                candidates.append(kept)
    rec.count("simulated_cases", len(events))
    rec.count("candidates", len(candidates))
    first_fails = case.error(case.kept_at(1e-2)) > case.limit
    rec.count("restarted", first_fails)
    kept = None if model is None else frozenset(model.model.species_names)
    outcome = (sorted(kept) if kept else None)
    rec.case(
        (sorted(case.species), case.landscape.seed, outcome),
        model is None or len(kept) < len(case.species) or first_fails,
    )
    if model is None:
        rec.count("gave_up")
        if all(r is not None for r in references):
            rec.violation(
                f"{case.method} gave up although a start threshold above "
                f"the minimum gives an acceptable model: {case.describe()}"
            )
        return
    rec.count("returned")
    error_beyond = case.error(case.kept_at(case.largest() * 2 + 1))
    rec.count("never_exceeded", error_beyond <= case.limit)
    allowed = [r for r in references if r is not None]
    if not allowed:
        rec.violation(
            f"{case.method} returned a model of {len(kept)} species although no start threshold "
            f"gives an acceptable candidate: {case.describe()}"
        )
        return
    if all(kept != r[0] for r in allowed):
        rec.violation(
            f"{case.method} returned {sorted(kept)}, the last candidate before the first failure "
            f"is {sorted(allowed[0][0])}: {case.describe()}"
        )
    elif min(abs(model.error - r[1]) for r in allowed) > 1e-6 * max(1.0, model.error):
        rec.violation(
            f"{case.method} reports {model.error} %, the returned candidate has "
            f"{allowed[0][1]} %: {case.describe()}"
        )
