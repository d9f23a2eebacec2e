"""R03: removing species leaves exactly the surviving sub-mechanism."""

import copy

import cantera as ct
import numpy as np

from vp import gen, modelcmp, oracle

LEVEL = "exploration"
TECHNIQUE = (
    "differential monitor: every model that comes out of a removal, in memory and after a round "
    "trip through the file it is written to, is compared with an independent account of what "
    "must survive and with the original model's rates at states without the removed species"
)
NOTE = (
    "Mechanisms with every gas rate type, collider form and order; exclusion sets of every size, "
    "biased to colliders. Trusts Cantera's loading and rate evaluation."
)
RULE = (
    "One case = one removal. Non-trivial: some but not all reactions survive, or a surviving "
    "reaction lost collision partners. Distinct by mechanism and exclusion set."
)
ASSUMPTIONS = ["rates of surviving reactions are compared to 1e-9 relative at 4 states"]
REQUIRED_EVENTS = (
    "removals", "rates_compared", "round_trips", "colliders_lost", "second_phase", "isotopes"
)
MIN_CASES = 150


def tasks(tier, seed):
    n = 160 if tier == "quick" else 1200
    out = [dict(seed=seed, i=i) for i in range(n)]
    out += [dict(seed=seed, i=-1, real=r) for r in ("h2o2", "ohn", "gri30", "air", "nh3")]
    out.append(dict(isotopes=True))
    return out


def isotopes(rec):
    """Elements with weights of their own keep them."""
    from pymars.reduce_model import trim

    ct.Solution(gen.REAL["h2o2"]).write_yaml("isotopes.yaml")
    with open("isotopes.yaml") as fh:
        data = fh.read()
    with open("isotopes.yaml", "w") as fh:
        fh.write("elements:\n- {symbol: O, atomic-weight: 17.999}\n" + data)
    gas = ct.Solution("isotopes.yaml")
    reduced = trim("isotopes.yaml", ["N2"], "reduced.yaml")
    rec.count("isotopes")
    if reduced.n_species != gas.n_species - 1:
        rec.violation(f"removing one species leaves {reduced.species_names}")
    if abs(reduced.atomic_weight("O") - gas.atomic_weight("O")) > 1e-9:
        rec.violation(
            f"the weight of O changes from {gas.atomic_weight('O')} to "
            f"{reduced.atomic_weight('O')}",
            key="custom-element-weights",
        )


def run_task(task, rec):
    if task.get("isotopes"):
        isotopes(rec)
        return
    rng = gen.rng_of("r03", task["seed"], task["i"], task.get("real", ""))
    phase = ""
    if task.get("real"):
        ct.Solution(gen.REAL[task["real"]]).write_yaml("mech.yaml")
        data = None
    else:
        data = gen.any_mechanism(rng, n_species=(2, 12), twins=0.25)
        if rng.random() < 0.2:
            other = gen.with_other_case(rng, data)
            rec.count("other_case", other is not data)
            data = other
        data = gen.with_transport(gen.rng_of("transport", str(task)), data)
    if data is not None and rng.random() < 0.3:
        # another phase in the same file, with fewer species
        names = data["phases"][0]["species"]
        other = copy.deepcopy(data["phases"][0])
        other["name"] = "other"
        other["species"] = [str(s) for s in names if rng.random() < 0.7] or names[:1]
        other["reactions"] = "declared-species"
        other["skip-undeclared-third-bodies"] = True
        trial = copy.deepcopy(data)
        trial["phases"].append(other)
        try:
            loaded = gen.solution(trial, "other")
        except ct.CanteraError:
            loaded = None
        # Cantera finds species regardless of case if there is only one of the twins
        twins = {s for s in names if [n.lower() for n in names].count(s.lower()) > 1}
        if loaded is not None and all(
            (set(r.reactants) | set(r.products) | set(r.orders) | colliders(r)) & twins
            <= set(loaded.species_names)
            for r in loaded.reactions()
        ):
            data = trial
            phase = str(rng.choice(["other", data["phases"][0]["name"]]))
            rec.count("second_phase")
    elif data is not None and rng.random() < 0.3:
        phase = data["phases"][0]["name"]
    if data is not None:
        gen.write(data, "mech.yaml")
    with open("mech.yaml", "rb") as fh:
        source = fh.read()
    gas = ct.Solution("mech.yaml", phase)
    for _ in range(8):
        removal(rng, gas, phase, rec)
    with open("mech.yaml", "rb") as fh:
        if fh.read() != source:
            rec.violation("the removal changed the source file")


def colliders(reaction):
    tb = reaction.third_body
    return set() if tb is None else set(tb.efficiencies)


def exclusion(rng, gas):
    names = list(gas.species_names)
    name = oracle.spelling(gas)
    third = {name(s) for r in gas.reactions() for s in colliders(r)}
    kind = rng.choice(["any", "few", "colliders", "most", "none"], p=[0.35, 0.3, 0.25, 0.08, 0.02])
    if kind == "colliders" and third:
        p = float(rng.choice([0.5, 0.9, 1.0]))
        out = [s for s in names if s in third and rng.random() < p]
    elif kind == "few":
        out = [str(s) for s in rng.permutation(names)[: int(rng.integers(1, 3))]]
    elif kind == "most":
        out = [str(s) for s in rng.permutation(names)[1:]]
    elif kind == "none":
        out = []
    else:
        p = float(rng.random())
        out = [s for s in names if rng.random() < p]
    out = out[: len(names) - 1]
    rng.shuffle(out)
    return out


def removal(rng, gas, phase, rec):
    from pymars import soln2yaml
    from pymars.reduce_model import trim

    removed = exclusion(rng, gas)
    argument = list(removed)
    what = f"removing {sorted(removed)} of {gas.species_names} ({gas.reaction_equations()[:40]})"
    species, kept = oracle.survivors(gas, removed)
    originals = [gas.reaction(i) for i in kept]
    lost = sum(
        1
        for r in originals
        if colliders(r) & set(removed)
    )
    rec.count("colliders_lost", lost)
    model = trim("mech.yaml", argument, "new.yaml", phase)
    rec.count("removals")
    rec.case(
        (gas.species_names, gas.reaction_equations(), sorted(removed)),
        0 < len(kept) < gas.n_reactions or lost,
    )
    if argument != removed:
        rec.violation(f"{what}: the list of excluded species was changed")
    problem = compare(rng, gas, model, species, kept, rec)
    if problem:
        rec.violation(f"{what}: {problem}")
        return
    # the file of the reduced model holds the same
    name = soln2yaml.write(model, "reduced.yaml")
    again = ct.Solution(name, phase if phase else "")
    rec.count("round_trips")
    problem = compare(rng, gas, again, species, kept, rec)
    if problem:
        rec.violation(f"{what}: after writing and reading, {problem}")


def compare(rng, gas, model, species, kept, rec):
    if list(model.species_names) != species:
        return f"species are {model.species_names}, expected {species}"
    if model.n_reactions != len(kept):
        extra = set(model.reaction_equations()) ^ {gas.reaction(i).equation for i in kept}
        return f"{model.n_reactions} reactions survive, expected {len(kept)}; differing: {extra}"
    if model.transport_model != gas.transport_model:
        return f"transport model {gas.transport_model} has become {model.transport_model}"
    for s in species:
        a, b = gas.species(s), model.species(s)
        problem = modelcmp.thermo_difference(a, b, 1e-10)
        problem = problem or modelcmp.transport_difference(a, b, {})
        if problem:
            return problem
        if a.composition != b.composition or a.charge != b.charge:
            return f"composition of {s} has changed"
    for k, i in enumerate(kept):
        a, b = gas.reaction(i), model.reaction(k)
        # a duplicate whose partners are gone is no duplicate any more
        b.duplicate = a.duplicate
        problem = modelcmp.reaction_difference(gas, model, a, b, types=False)
        if problem:
            return problem
    for _ in range(4):
        _, (t, p, y) = gen.random_state(rng, model, str(rng.choice(["dense", "sparse", "trace"])))
        full = np.zeros(gas.n_species)
        for s, v in zip(species, y):
            full[gas.species_index(s)] = v
        gas.TPY = t, p, full
        model.TPY = t, p, y
        rec.count("rates_compared", len(kept))
        for direction in ("forward_rates_of_progress", "reverse_rates_of_progress"):
            x, z = getattr(gas, direction)[kept], getattr(model, direction)
            for k in range(len(kept)):
                if not np.isfinite(x[k]) and not np.isfinite(z[k]):
                    continue
                if abs(x[k] - z[k]) > 1e-9 * max(abs(x[k]), abs(z[k])) + 1e-280:
                    return (
                        f"{direction} of '{model.reaction(k).equation}' at {t:.1f} K, {p:.4g} Pa "
                        f"is {z[k]!r}, was {x[k]!r}"
                    )
    return None
