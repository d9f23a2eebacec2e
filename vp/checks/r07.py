"""R07: DRG and PFA keep exactly the species reachable from the targets."""

import numpy as np

from vp import gen, matrices, oracle, virtual
from vp.reductions import Case

LEVEL = "exploration"
TECHNIQUE = (
    "differential and metamorphic monitor: every graph search observed is compared with an "
    "independent breadth-first search, and with itself under permutations and other thresholds"
)
NOTE = (
    "The search is driven directly with random coefficient matrices of 13 structures, and "
    "through the reduction step with real files and virtual simulations, so the union over "
    "states and the retained species are observed in the model that comes out."
)
RULE = (
    "One case = one (matrices, targets, threshold) for one method. Non-trivial: some but not all "
    "species are kept. Distinct by matrix and kept set."
)
ASSUMPTIONS = ["an entry of zero is no edge at any threshold"]
REQUIRED_EVENTS = (
    "searches", "ties", "unions", "permutations", "reductions", "runs", "run_candidates",
    "run_states",
)
MIN_CASES = 500


def tasks(tier, seed):
    n = 64 if tier == "quick" else 1500
    whole = 30 if tier == "quick" else 600
    return [dict(seed=seed, i=i) for i in range(n)] + [
        dict(seed=seed, i=i, whole=True) for i in range(whole)
    ]


def trim_functions():
    from pymars.drg import trim_drg
    from pymars.pfa import trim_pfa

    return (("DRG", trim_drg, 1.0), ("PFA", trim_pfa, 1.8))


def threshold_of(rng, m):
    values = m[m > 0]
    if len(values) and rng.random() < 0.6:
        t = float(rng.choice(values))
        return t, True
    return float(rng.choice([rng.random(), 10 ** rng.uniform(-9, 0), 0.5, 0.01])), False


def run_task(task, rec):
    if task.get("whole"):
        return whole_run(gen.rng_of("r07 run", task["seed"], task["i"]), rec)
    rng = gen.rng_of("r07", task["seed"], task["i"])
    for _ in range(12):
        for method, trim, top in trim_functions():
            search(rng, method, trim, top, rec)
    for method in ("DRG", "PFA"):
        reduction(rng, method, rec)


def whole_run(rng, rec):
    """Every candidate of a reduction follows from all sampled states at some threshold."""
    case = Case(rng, method=str(rng.choice(["DRG", "PFA"])), sa=False, n_species=(4, 9))
    case.tune_limit(rng)
    case.prepare()
    model, v = case.run_graph("events.log")
    rec.count("runs")
    rec.count("run_states", len(case.matrices()))
    points = [0.0, *sorted(case.breakpoints())]
    candidates = {tuple(e["species"]) for e in v.events() if e["ev"] == "metric"}
    if model is not None:
        candidates.add(tuple(sorted(model.model.species_names)))
    for species in sorted(candidates):
        rec.count("run_candidates")
        found, nearest = fits(case, points, frozenset(species))
        rec.case((case.landscape.seed, species), len(species) < len(case.species))
        if not found:
            rec.violation(
                f"{case.method}: candidate {list(species)}, no threshold gives it; the one of as "
                f"many or fewer is {sorted(nearest)}: {case.describe()}"
            )
            return


def fits(case, points, species):
    """Whether some threshold keeps exactly these species."""
    nearest = None
    for slack in (0.0, -1e-9, 1e-9):
        # the kept sets shrink with the threshold, and only change at the coefficients
        low, high = 0, len(points)
        while low < high:
            middle = (low + high) // 2
            if len(case.kept_at(points[middle], slack)) <= len(species):
                high = middle
            else:
                low = middle + 1
        # beyond the largest coefficient, only the protected species are left
        kept = case.kept_at(points[low], slack) if low < len(points) else case.protected()
        nearest = nearest or kept
        if kept == species:
            return True, kept
    return False, nearest


def search(rng, method, trim, top, rec):
    n = int(rng.choice([1, 2, 3, 5, 8, 15, 30, 60]))
    kind = str(rng.choice(matrices.KINDS))
    m = matrices.matrix(rng, n, kind, top)
    names = matrices.names(rng, n)
    targets = [int(t) for t in rng.permutation(n)[: int(rng.integers(1, 1 + min(n, 4)))]]
    threshold, tie = threshold_of(rng, m)
    rec.count("ties", tie)
    before = m.copy()
    target_names = [names[t] for t in targets]
    got = trim(m, list(names), list(target_names), threshold)
    rec.count("searches")
    want = {names[i] for i in oracle.reachable(m, targets, threshold)}
    what = f"{method} {kind} n={n} targets={target_names} threshold={threshold!r}"
    rec.case((method, m.tobytes(), sorted(got)), 0 < len(set(got)) < n)
    if set(got) != want:
        rec.violation(
            f"{what}: keeps {sorted(got)}, reachable are {sorted(want)}; matrix {m.tolist()}"
        )
        return
    if not np.array_equal(m, before):
        rec.violation(f"{what}: the search changed the coefficients")
    # permuted species and targets
    order = rng.permutation(n)
    again = trim(
        m[np.ix_(order, order)],
        [names[i] for i in order],
        [str(t) for t in rng.permutation(target_names)] + target_names[:1],
        threshold,
    )
    rec.count("permutations")
    if set(again) != want:
        rec.violation(f"{what}: other order of species or targets gives {sorted(again)}")
    higher = threshold * float(rng.choice([1.0 + 1e-12, 1.5, 10.0]))
    kept = set(trim(m, list(names), list(target_names), higher))
    if not kept <= want:
        rec.violation(f"{what}: raising the threshold to {higher!r} adds {kept - want}")


def reduction(rng, method, rec):
    """One reduction step, with real files: union over states, retained species."""
    import pymars.drg
    import pymars.pfa
    from pymars.sampling import InputIgnition

    reduce = pymars.drg.reduce_drg if method == "DRG" else pymars.pfa.reduce_pfa
    data = gen.submechanism(rng, "gri30", 4, 14)
    gas = gen.solution(data)
    names = list(gas.species_names)
    n = len(names)
    gen.write(data, "m.yaml")
    states = [
        matrices.matrix(rng, n, str(rng.choice(matrices.KINDS)), 1.0 if method == "DRG" else 1.7)
        for _ in range(int(rng.integers(1, 6)))
    ]
    targets = [str(s) for s in rng.permutation(names)[: int(rng.integers(1, 3))]]
    safe = [str(s) for s in rng.permutation(names)[: int(rng.integers(0, 3))]]
    land = virtual.Landscape(int(rng.integers(2**31)), names, "additive")
    conditions = [InputIgnition("constant volume", 1000.0, 1.0, reactants={names[0]: 1.0})]
    thresholds = sorted(threshold_of(rng, np.array(states))[0] for _ in range(4))
    previous = None
    with virtual.Virtual(land):
        original = np.array(land.metrics(dict(ignition=1), frozenset(names)))
        last = None
        for threshold in thresholds:
            kwargs = {}
            if previous is not None and rng.random() < 0.7:
                kwargs["previous_model"] = previous
            model = reduce(
                "m.yaml",
                list(targets),
                list(safe),
                threshold,
                [states[i] for i in rng.permutation(len(states))],
                conditions,
                original,
                **kwargs,
            )
            previous = model
            rec.count("reductions")
            rec.count("unions", len(states) > 1)
            want = set(safe)
            for m in states:
                want |= {
                    names[i]
                    for i in oracle.reachable(m, [names.index(t) for t in targets], threshold)
                }
            got = list(model.model.species_names)
            what = f"{method} reduction targets={targets} safe={safe} threshold={threshold!r}"
            rec.case((method, [m.tobytes() for m in states], got), len(want) < n)
            if got != [s for s in names if s in want]:
                rec.violation(f"{what}: model has {got}, expected {sorted(want)}")
                return
            expected = land.error(dict(ignition=1), frozenset(want))
            if abs(model.error - expected) > 1e-6 * max(1.0, expected):
                rec.violation(f"{what}: error {model.error}, expected {expected}")
            if last is not None and not set(got) <= last:
                rec.violation(f"{what}: a higher threshold adds {set(got) - last}")
            last = set(got)
