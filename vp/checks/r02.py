"""R02: targets, retained species and mixture species are never removed."""

import collections
import os

import cantera as ct

from vp import gen, virtual
from vp.reductions import Case

LEVEL = "exploration"
TECHNIQUE = (
    "outcome monitor over real reductions driven from input dictionaries: every model file that "
    "is left behind is read back and compared with the protected species and the original model"
)
NOTE = (
    "Inputs with mixtures given per case in all ways go through the input parser and the driver; "
    "error landscapes and states are virtual, files and search are real."
)
RULE = (
    "One case = one reduction from an input dictionary. Non-trivial: at least one species was "
    "removed. Distinct by input and result."
)
ASSUMPTIONS = ["reactions are identified by their equation and type here (R03 compares them fully)"]
REQUIRED_EVENTS = (
    "models", "files", "mixture_only_species", "removed", "kept_although_unimportant", "with_sa",
    "fuel_oxidizer", "reactants", "simulated_models",
)
MIN_CASES = 40


def tasks(tier, seed):
    n = 96 if tier == "quick" else 4000
    return [dict(seed=seed, i=i) for i in range(n)]


def mixtures(rng, names, conditions, rec):
    """Give every case a mixture of its own; returns the species named."""
    named = set()
    for c in conditions:
        c.pop("reactants", None)
        some = [str(s) for s in rng.permutation(names)[: int(rng.integers(1, 4))]]
        amounts = [float(rng.choice([1.0, 3.76, 1e-6, 1e-3, 2])) for _ in some]
        if rng.random() < 0.5 and len(names) > 1:
            rec.count("fuel_oxidizer")
            k = max(1, len(some) // 2)
            fuel, ox = some[:k], some[k:] or [str(rng.choice(names))]
            c["fuel"] = {s: a for s, a in zip(fuel, amounts)}
            c["oxidizer"] = {s: 1.0 for s in ox}
            c["equivalence-ratio"] = float(rng.choice([0.5, 1.0, 2.0]))
            named |= set(fuel) | set(ox)
        else:
            rec.count("reactants")
            c["reactants"] = {s: a for s, a in zip(some, amounts)}
            if rng.random() < 0.4:
                c["composition-type"] = str(rng.choice(["mole", "mass"]))
            named |= set(some)
    return named


def reactions_of(gas):
    return collections.Counter((r.reaction_type, r.equation) for r in gas.reactions())


def loosely(gas):
    """Equations without collision partners: removing one may rename (+M) to a species."""
    return collections.Counter(
        (tuple(sorted(r.reactants.items())), tuple(sorted(r.products.items())))
        for r in gas.reactions()
    )


def run_task(task, rec):
    from pymars.pymars import main, parse_inputs

    rng = gen.rng_of("r02", task["seed"], task["i"])
    case = Case(rng, method=("DRG", "DRGEP", "PFA", None)[task["i"] % 4], n_species=(5, 11))
    if task["i"] % 4 == 3 and rng.random() < 0.5:
        case.method, case.sa = "", True
    if rng.random() < 0.5:
        # almost everything may go
        case.limit = 97.0
        case.landscape.mode = str(rng.choice(["free", "cliff"]))
    case.targets, case.safe = case.targets[:2], case.safe[:1]
    inputs = case.input_dict()
    named = set()
    for key in ("autoignition-conditions", "psr-conditions", "laminar-flame-conditions"):
        named |= mixtures(rng, case.species, inputs.get(key, []), rec)
    protected = named | set(case.targets) | set(case.safe)
    if rng.random() < 0.2:
        inputs.pop("retained-species")
        protected = named | set(case.targets)
    if not case.method and rng.random() < 0.3:
        inputs.pop("targets")
        protected -= set(case.targets) - named - set(inputs.get("retained-species", []))
    case.prepare()
    parsed = parse_inputs(inputs)
    with virtual.Virtual(case.landscape, "events.log") as v:
        try:
            model = main(
                parsed.model, parsed.error, parsed.ignition_conditions, parsed.psr_conditions,
                parsed.flame_conditions, method=parsed.method,
                target_species=parsed.target_species, safe_species=parsed.safe_species,
                phase_name=parsed.phase_name,
                run_sensitivity_analysis=parsed.sensitivity_analysis,
                upper_threshold=parsed.upper_threshold,
                sensitivity_type=parsed.sensitivity_type, path=case.path,
            )
        except SystemExit:
            model = None
    original = ct.Solution(case.mechanism_name, case.phase)
    found = []
    for folder in {"", case.path}:
        for name in sorted(os.listdir(folder or ".")):
            full = os.path.join(folder, name)
            if name.endswith((".yaml", ".yml")) and full != case.mechanism_name:
                found.append((full, ct.Solution(full, case.phase)))
    rec.count("files", len(found))
    if model is not None:
        rec.count("models")
        found.append(("the returned model", model.model))
    rec.sample(inputs)
    rec.count("with_sa", case.sa)
    kept = set(model.model.species_names) if model else set(case.species)
    removed = set(case.species) - kept
    rec.case((str(inputs), sorted(kept)), bool(removed))
    rec.count("removed", len(removed))
    rec.count("mixture_only_species", len(named - set(case.targets) - set(case.safe)))
    if case.method and model is not None:
        free = Case.__dict__["kept_at"]
        saved, case.safe = case.safe, []
        rec.count("kept_although_unimportant", len(protected - free(case, 1.0)))
        case.safe = saved
    for name, gas in found:
        lost = protected - set(gas.species_names)
        if lost:
            rec.violation(f"{name} lacks protected species {sorted(lost)}: {inputs}")
            return
        added = set(gas.species_names) - set(case.species)
        extra = loosely(gas) - loosely(original)
        if added or extra or len(set(gas.species_names)) != gas.n_species:
            rec.violation(f"{name} has additional species {added} or reactions {extra}: {inputs}")
            return
    for event in v.events():
        rec.count("simulated_models")
        if set(event["species"]) - set(case.species):
            rec.violation(f"a model with added species {event['species']} was simulated: {inputs}")
            return
