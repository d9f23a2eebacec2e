"""R01: a reduced model meets the error limit and its reported error is real."""

import os

import cantera as ct
import numpy as np

from vp import gen, reactors, reductions
from vp.reductions import Case

LEVEL = "exploration"
TECHNIQUE = (
    "outcome monitor over real reductions: the returned model is re-evaluated from its file by "
    "an independent error computation (virtual error landscapes, and real chemistry with another "
    "integration); error function against its definition on random metric vectors"
)
NOTE = (
    "Whole reductions with every method and combination through the driver, the real files and "
    "the real search; the error of the final model is recomputed from the species in its file. "
    "A few reductions with real chemistry are re-evaluated with independent simulations."
)
RULE = (
    "One case = one completed reduction (non-trivial: something was removed), or one pair of "
    "metric vectors. Distinct by landscape, method and result, or by the vectors."
)
ASSUMPTIONS = [
    "errors are compared to 1e-6 relative (virtual landscapes) and to 1.5 percentage points "
    "(real chemistry, integrated independently to tighter tolerances)",
]
REQUIRED_EVENTS = (
    "completed", "method_DRG", "method_DRGEP", "method_PFA", "method_alone_sa", "with_sa",
    "vectors", "vectors_with_zero", "vectors_equal", "real_reductions", "close_to_limit",
)
MIN_CASES = 80


def tasks(tier, seed):
    n, v, r = (128, 8, 5) if tier == "quick" else (4000, 80, 60)
    out = [dict(kind="real", seed=seed, i=i) for i in range(r)]
    out += [dict(kind="virtual", seed=seed, i=i) for i in range(n)]
    out += [dict(kind="vectors", seed=seed, i=i) for i in range(v)]
    return out


def run_task(task, rec):
    rng = gen.rng_of("r01", task["kind"], task["seed"], task["i"])
    dict(virtual=virtual_run, vectors=vectors, real=real_run)[task["kind"]](task, rng, rec)


def virtual_run(task, rng, rec):
    case = Case(rng, method=("DRG", "DRGEP", "PFA", "")[task["i"] % 4], n_species=(4, 9))
    if rng.random() < 0.7:
        case.tune_limit(rng)
    case.threads = int(rng.choice([1, 1, 1, 1, 2]))
    case.prepare()
    model, _ = case.run()
    rec.sample(case.describe())
    if model is None:
        rec.count("ended_without_model")
        return
    rec.count("completed")
    rec.count("method_" + (case.method or "alone_sa"))
    rec.count("with_sa", case.sa)
    file = model.filename if os.path.isfile(model.filename) else None
    if file is None:
        rec.violation(f"the file {model.filename} does not exist: {case.describe()}")
        return
    kept = ct.Solution(file, case.phase).species_names
    rec.case(
        (case.landscape.seed, case.method, case.sa and case.algorithm, sorted(kept)),
        len(kept) < len(case.species),
    )
    if list(model.model.species_names) != list(kept):
        rec.violation(
            f"the model has {model.model.species_names}, its file {kept}: {case.describe()}"
        )
        return
    error = case.error(kept)
    rec.count("close_to_limit", error > 0.5 * case.limit)
    if error > case.limit * (1 + 1e-9) + 1e-9:
        rec.violation(
            f"the returned model has an error of {error} %, the limit is {case.limit} % "
            f"(reported {model.error}): species {kept} of {case.describe()}"
        )
    elif abs(error - model.error) > 1e-6 * max(1.0, error):
        rec.violation(
            f"reported error {model.error} %, the error of the model is {error} %: "
            f"species {kept} of {case.describe()}"
        )


def definition(original, test):
    """Largest relative deviation in percent; 100 if a metric is lost."""
    worst = 0.0
    for o, t in zip(original, test):
        if t == 0:
            return 100.0
        worst = max(worst, abs(o - t) / abs(o) * 100.0)
    return worst


def vectors(task, rng, rec):
    from pymars.sampling import calculate_error

    for _ in range(400):
        n = int(rng.choice([1, 1, 2, 3, 5, 12, 40]))
        original = 10.0 ** rng.uniform(-8, 4, n)
        test = original.copy()
        how = int(rng.integers(6))
        if how == 0:
            test = test * (1 + 10.0 ** rng.uniform(-14, -1, n) * rng.choice([-1, 1], n))
        elif how == 1:
            test = 10.0 ** rng.uniform(-8, 4, n)
        elif how == 2:
            k = int(rng.integers(n))
            test[k] = test[k] * 10.0 ** rng.uniform(-3, 3)
        elif how == 3:
            test[rng.random(n) < 0.3] = 0.0
        elif how == 4:
            test = test * rng.uniform(0.9, 1.1, n)
            test[int(rng.integers(n))] = 0.0
        rec.count("vectors")
        rec.count("vectors_with_zero", not test.all())
        rec.count("vectors_equal", np.array_equal(test, original))
        rec.case((tuple(original), tuple(test)))
        if rng.random() < 0.3:
            a, b = list(map(float, original)), list(map(float, test))
        else:
            a, b = original.copy(), test.copy()
        got = calculate_error(np.array(a), np.array(b))
        want = definition(original, test)
        text = f"original {original.tolist()}, reduced {test.tolist()}"
        if not abs(got - want) <= 1e-9 * max(1e-3, want):
            rec.violation(f"{text}: error {got}, by definition {want}")
            return
        if (got == 0.0) != np.array_equal(original, test):
            rec.violation(f"{text}: error {got}")
            return
        order = rng.permutation(n)
        again = calculate_error(original[order], test[order])
        if abs(again - got) > 1e-12 * max(got, 1e-3):
            rec.violation(f"{text}: error {got}, but {again} for cases in order {order.tolist()}")
            return


SETTINGS = [
    dict(method="DRG", sa=False),
    dict(method="DRGEP", sa=True, algorithm="greedy"),
    dict(method="PFA", sa=False),
    dict(method="DRG", sa=True, algorithm="initial"),
    dict(method="", sa=True, algorithm="initial"),
]


def real_run(task, rng, rec):
    from pymars.pymars import main
    from pymars.sampling import InputIgnition, InputPSR

    setting = SETTINGS[task["i"] % len(SETTINGS)]
    file = reactors.model_file("h2o2")
    ign = [
        InputIgnition(
            str(rng.choice(["constant volume", "constant pressure"])),
            float(rng.uniform(1000, 1500)),
            float(rng.choice([1.0, 5.0, 20.0])),
            equivalence_ratio=float(rng.choice([0.5, 1.0, 2.0])),
            fuel={"H2": 1.0},
            oxidizer={"O2": 1.0, "N2": 3.76},
        )
        for _ in range(int(rng.integers(1, 4)))
    ]
    psr = []
    if task["i"] % 2 == 1:
        psr = [
            InputPSR(float(rng.uniform(298, 500)), 1.0, equivalence_ratio=1.0, fuel={"H2": 1.0},
                     oxidizer={"O2": 1.0, "N2": 3.76})
        ]
    limit = float(rng.choice([2.0, 10.0, 40.0]))
    what = f"{setting}, limit {limit}, {ign} {psr}"
    try:
        model = main(
            file, limit, ign, psr_conditions=psr, method=setting["method"],
            target_species=["H2", "O2"], safe_species=["N2", "H2O"],
            run_sensitivity_analysis=setting["sa"], upper_threshold=0.3,
            sensitivity_type=setting.get("algorithm", "greedy"),
        )
    except SystemExit:
        rec.count("ended_without_model")
        return
    rec.count("real_reductions")
    errors = []
    for case in ign:
        a = reactors.independent_delay(file, case)
        b = reactors.independent_delay(model.filename, case)
        if a is None:
            raise RuntimeError(f"{what}: the original model does not ignite")
        if b is None:
            errors.append(100.0)
            continue
        errors.append(100.0 * abs(np.mean(a) - np.mean(b)) / np.mean(a))
        rec.maximum("bracket_percent", 100 * (a[1] - a[0]) / a[0])
    rec.case((what, tuple(model.model.species_names)), model.model.n_species < 10)
    rec.count("real_species_removed", 10 - model.model.n_species)
    worst = max(errors)
    rec.maximum("real_error_difference", abs(worst - model.error) if not psr else 0.0)
    if worst > limit + 1.5:
        rec.violation(f"{what}: ignition delays of the result deviate by {errors} %")
    if worst > model.error + 1.5 or (not psr and abs(worst - model.error) > 1.5):
        rec.violation(f"{what}: reported error {model.error} %, independent: {errors} %")
    if model.error > limit:
        rec.violation(f"{what}: reported error {model.error} % is beyond the limit")
    # the same simulations once more, on the returned file
    again = resimulate(file, model.filename, ign, psr)
    if abs(again - model.error) > 1e-6 * max(1.0, again):
        rec.violation(f"{what}: reported error {model.error} %, evaluated again: {again} %")


def resimulate(original, reduced, ign, psr):
    from pymars.simulation import IgnitionSimulation, PSRSimulation

    worst = 0.0
    for cls, cases in ((IgnitionSimulation, ign), (PSRSimulation, psr)):
        for k, case in enumerate(cases):
            values = []
            for file in (original, reduced):
                sim = cls(1000 + k, case, file)
                sim.setup_case()
                values.append(np.atleast_1d(sim.calculate()))
            worst = max(worst, definition(*values))
    return worst
