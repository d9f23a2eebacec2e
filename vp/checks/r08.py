"""R08: DRGEP importance is the best path product over targets and states."""

import numpy as np

from vp import gen, matrices, oracle, virtual

LEVEL = "exploration"
TECHNIQUE = (
    "differential and metamorphic monitor: every importance observed is compared with a "
    "fixed-point oracle (and full path enumeration on small graphs), and with itself under "
    "permutations of species, targets and states"
)
NOTE = (
    "The search is driven directly with random coefficient matrices of 13 structures, including "
    "entries equal to one, ties and ladders on which greedy searches fail; the removal rule is "
    "observed in the models written by the reduction step."
)
RULE = (
    "One case = one (matrices, targets) search or one reduction step. Non-trivial: some species "
    "has an importance strictly between 0 and 1, or species are removed. Distinct by matrices."
)
ASSUMPTIONS = ["products of up to 60 factors are compared to 1e-12 relative"]
REQUIRED_EVENTS = ("searches", "enumerated", "permutations", "reductions", "exact_ties")
MIN_CASES = 400


def tasks(tier, seed):
    n = 64 if tier == "quick" else 1500
    return [dict(seed=seed, i=i) for i in range(n)]


def run_task(task, rec):
    rng = gen.rng_of("r08", task["seed"], task["i"])
    for _ in range(14):
        search(rng, rec)
    for _ in range(2):
        reduction(rng, rec)


def reference(states, targets):
    return np.max([oracle.importance(m, targets) for m in states], axis=0)


def compare(got, names, want):
    if set(got) != set(names):
        return f"importances are given for {sorted(got)}, species are {sorted(names)}"
    for i, s in enumerate(names):
        if not abs(got[s] - want[i]) <= 1e-12 * want[i]:
            return f"importance of {s} is {got[s]!r}, best path product is {float(want[i])!r}"
    return None


def search(rng, rec):
    from pymars.drgep import get_importance_coeffs

    n = int(rng.choice([1, 2, 3, 4, 5, 6, 6, 12, 25, 60]))
    n_states = int(rng.choice([1, 1, 2, 4]))
    kinds = [str(rng.choice(matrices.KINDS)) for _ in range(n_states)]
    states = [matrices.matrix(rng, n, k) for k in kinds]
    names = matrices.names(rng, n)
    targets = [int(t) for t in rng.permutation(n)[: int(rng.integers(1, 1 + min(n, 4)))]]
    target_names = [names[t] for t in targets]
    copies = [m.copy() for m in states]
    got = get_importance_coeffs(list(names), list(target_names), states)
    rec.count("searches")
    want = reference(states, targets)
    if n <= 6:
        rec.count("enumerated")
        by_paths = np.max([oracle.importance_enumerated(m, targets) for m in states], axis=0)
        assert np.allclose(by_paths, want, rtol=1e-12), "the oracles disagree"
    what = f"{kinds} n={n} targets={target_names}"
    rec.case([m.tobytes() for m in states], bool(((want > 0) & (want < 1)).any()))
    problem = compare(got, names, want)
    if problem:
        rec.violation(f"{what}: {problem}; matrices {[m.tolist() for m in states]}"[:1800])
        return
    if any(not np.array_equal(a, b) for a, b in zip(states, copies)):
        rec.violation(f"{what}: the search changed the coefficients")
    order = rng.permutation(n)
    again = get_importance_coeffs(
        [names[i] for i in order],
        [str(t) for t in rng.permutation(target_names)] + target_names[:1],
        [states[k][np.ix_(order, order)] for k in rng.permutation(n_states)],
    )
    rec.count("permutations")
    problem = compare(again, names, want)
    if problem:
        rec.violation(f"{what}: in another order of species, targets and states, {problem}")


def reduction(rng, rec):
    from pymars.drgep import get_importance_coeffs, reduce_drgep
    from pymars.sampling import InputIgnition

    data = gen.submechanism(rng, "gri30", 4, 14)
    gas = gen.solution(data)
    names = list(gas.species_names)
    n = len(names)
    gen.write(data, "m.yaml")
    states = [
        matrices.matrix(rng, n, str(rng.choice(matrices.KINDS)))
        for _ in range(int(rng.integers(1, 4)))
    ]
    index = [int(i) for i in rng.permutation(n)[: int(rng.integers(1, 3))]]
    targets = [names[i] for i in index]
    safe = [str(s) for s in rng.permutation(names)[: int(rng.integers(0, 3))]]
    importance = get_importance_coeffs(list(names), list(targets), states)
    want_importance = reference(states, index)
    problem = compare(importance, names, want_importance)
    if problem:
        rec.violation(problem)
        return
    land = virtual.Landscape(int(rng.integers(2**31)), names, "additive")
    conditions = [InputIgnition("constant volume", 1000.0, 1.0, reactants={names[0]: 1.0})]
    thresholds = []
    for _ in range(4):
        if rng.random() < 0.5:
            thresholds.append(float(rng.choice(list(importance.values()))))
        else:
            thresholds.append(float(rng.random()))
    previous = None
    with virtual.Virtual(land):
        original = np.array(land.metrics(dict(ignition=1), frozenset(names)))
        for threshold in sorted(thresholds):
            if threshold > 1.0:
                continue
            tie = threshold in importance.values()
            rec.count("exact_ties", tie)
            want = [s for s in names if importance[s] >= threshold or s in safe]
            kwargs = {}
            if previous is not None and rng.random() < 0.7:
                kwargs["previous_model"] = previous
            model = reduce_drgep(
                "m.yaml", list(safe), threshold, dict(importance), conditions, original, **kwargs
            )
            previous = model
            rec.count("reductions")
            got = list(model.model.species_names)
            what = f"DRGEP reduction safe={safe} threshold={threshold!r} importance={importance}"
            rec.case(([m.tobytes() for m in states], got), len(want) < n)
            if got != want:
                rec.violation(f"{what}: model has {got}, expected {want}")
                return
            expected = land.error(dict(ignition=1), frozenset(want))
            if abs(model.error - expected) > 1e-6 * max(1.0, expected):
                rec.violation(f"{what}: error {model.error}, expected {expected}")
