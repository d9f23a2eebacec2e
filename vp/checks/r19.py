"""R19: a model written to YAML and read back is the same model."""

import json
import os

import cantera as ct
import numpy as np

from vp import gen, modelcmp

LEVEL = "exploration"
TECHNIQUE = (
    "differential monitor: every model written is read back from the file and compared in all its "
    "data and in its rates, thermodynamics and transport at states; the directories are listed "
    "before and after every call"
)
NOTE = (
    "Generated mechanisms with every gas rate type, complete published mechanisms, trimmed "
    "models and odd species names. Trusts Cantera's reader and rate evaluation."
)
RULE = (
    "One case = one written model. Non-trivial: the model has reactions. Distinct by mechanism "
    "and target."
)
ASSUMPTIONS = [
    "data and rates are compared to 1e-9 relative",
    "no species is called True or False (Cantera writes those names unquoted)",
]
REQUIRED_EVENTS = (
    "written", "rates_compared", "transport_compared", "replaced", "default_name", "relative_path",
    "absolute_path", "trimmed", "odd_names", "written_twice",
    "numbers_compared",
)
MIN_CASES = 150

COMPLETE = (
    "h2o2.yaml", "ohn.yaml", "gri30.yaml", "air.yaml", "airNASA9.yaml", "gri30_highT.yaml",
    "gri30_ion.yaml", "nDodecane_Reitz.yaml", "SiF4_NH3_mec.yaml",
    "example_data/ammonia-CO-H2-Alzueta-2023.yaml", "example_data/n-hexane-NUIG-2015.yaml",
    "silicon.yaml",
)
def tasks(tier, seed):
    n = 160 if tier == "quick" else 1600
    out = [dict(seed=seed, i=i) for i in range(n)]
    out += [dict(seed=seed, i=-1, complete=c) for c in COMPLETE]
    return out


def source(task, rng, rec):
    """The model to be written."""
    if task.get("complete"):
        return ct.Solution(task["complete"])
    from pymars.reduce_model import trim

    data = gen.any_mechanism(rng, n_species=(1, 12), twins=0.15)
    data = gen.with_transport(gen.rng_of("transport", str(task)), data)
    if rng.random() < 0.3:
        odd = gen.with_odd_names(rng, data)
        if odd is not data:
            data = odd
            rec.count("odd_names")
    name = str(rng.choice(["gas", "a model", "v1.2", "reduced_5"]))
    data["phases"][0]["name"] = name
    if rng.random() < 0.3:
        gen.write(data, "source.yaml")
        names = data["phases"][0]["species"]
        out = [s for s in names if rng.random() < 0.3][: len(names) - 1]
        rec.count("trimmed")
        gas = trim("source.yaml", out, "source.yaml", name)
        os.remove("source.yaml")
        return gas
    return gen.solution(data)


def listing():
    found = {}
    for base, _, files in os.walk("."):
        for name in files:
            path = os.path.join(base, name)
            with open(path, "rb") as fh:
                found[os.path.relpath(path)] = fh.read()
    return found


def target(rng, gas, rec):
    """File name, path, and the file expected."""
    path = ""
    how = int(rng.integers(4))
    if how == 1:
        rec.count("relative_path")
        path = str(rng.choice(["out", "out/", "./out", "out/deeper dir", "o.ut"]))
    elif how == 2:
        rec.count("absolute_path")
        path = os.path.abspath(str(rng.choice(["there", "there/and further"])))
    if path:
        os.makedirs(path, exist_ok=True)
    name = ""
    if rng.random() < 0.75:
        name = str(rng.choice([
            "model.yaml", "copy of it.yaml", "reduced_12.yaml", "a.b.yaml", "modèle.yaml",
            "MODEL.YAML", "model.yml",
        ]))
    else:
        rec.count("default_name")
    return name, path, os.path.join(path, name or f"{gas.name}.yaml")


def run_task(task, rec):
    from pymars import soln2yaml

    rng = gen.rng_of("r19", task["seed"], task["i"], task.get("complete", ""))
    gas = source(task, rng, rec)
    state = gas.state.copy()
    with open("bystander.yaml", "w") as fh:
        fh.write("not to be touched")
    for k in range(3 if not task.get("complete") else 1):
        name, path, want = target(rng, gas, rec)
        want_full = os.path.abspath(want)
        if os.path.isfile(want) or rng.random() < 0.5:
            rec.count("replaced")
            with open(want, "w") as fh:
                fh.write("older: file\n" * int(rng.choice([1, 100000])))
        before = listing()
        what = f"{gas.name} ({gas.n_species} species), name {name!r}, path {path!r}"
        rec.count("written")
        rec.case((gas.species_names, gas.reaction_equations(), want), gas.n_reactions > 0)
        if k == 0:
            rec.sample(what)
        if not name and not path and rng.random() < 0.5:
            got = soln2yaml.write(gas)
        elif rng.random() < 0.5:
            got = soln2yaml.write(gas, name, path)
        else:
            got = soln2yaml.write(gas, output_filename=name, path=path)
        after = listing()
        if not isinstance(got, (str, os.PathLike)) or os.path.abspath(got) != want_full:
            rec.violation(f"{what}: returned {got!r}, requested {want!r}")
            return
        touched = {f for f in set(before) | set(after) if before.get(f) != after.get(f)}
        if touched != {os.path.relpath(want_full)}:
            rec.violation(f"{what}: changed the files {sorted(touched)}, requested {want!r}")
            return
        if gas.state.tolist() != state.tolist():
            rec.violation(f"{what}: the state of the model was changed")
            return
        bad = compare(rng, gas, want, rec)
        if bad:
            rec.violation(f"{what}: {bad}")
            return
        gas.state = state
    # a file written from what was read back still has the same content
    back = ct.Solution(want)
    soln2yaml.write(back, "again.yaml")
    rec.count("written_twice")
    bad = compare(rng, gas, "again.yaml", rec)
    if bad:
        rec.violation(f"{what}, written a second time: {bad}")


def numbers(obj, prefix="", depth=0):
    """Every number among the public properties of an object of Cantera, by name."""
    out = {}
    for name in dir(type(obj)):
        if name.startswith("_") or name in ("input_data", "conversion_units"):
            continue
        if not isinstance(
            getattr(type(obj), name, None), (property, type(ct.Arrhenius.temperature_exponent))
        ):
            continue
        try:
            value = getattr(obj, name)
        except Exception:
            continue
        collect(value, f"{prefix}{name}", depth, out)
    return out


def collect(value, name, depth, out):
    if isinstance(value, (bool, str)) or value is None or depth > 3:
        return
    if isinstance(value, (int, float, np.number)):
        out[name] = float(value)
    elif isinstance(value, np.ndarray):
        for k, v in enumerate(value.ravel()):
            out[f"{name}[{k}]"] = float(v)
    elif isinstance(value, dict):
        for k, v in value.items():
            collect(v, f"{name}.{k}", depth + 1, out)
    elif isinstance(value, (list, tuple)):
        for k, v in enumerate(value):
            collect(v, f"{name}[{k}]", depth + 1, out)
    elif type(value).__module__.startswith("cantera"):
        out.update(numbers(value, name + ".", depth + 1))


def same_numbers(a, b, rec):
    x, y = numbers(a), numbers(b)
    rec.count("numbers_compared", len(x))
    for name in x.keys() | y.keys():
        u, v = x.get(name, np.nan), y.get(name, np.nan)
        if not (u == v or abs(u - v) <= 1e-13 * abs(u) or (u != u and v != v)):
            return f"{name} of {a} has become {v!r}, was {u!r}"
    return None


def compare(rng, gas, file, rec):
    try:
        new = ct.Solution(file)
    except ct.CanteraError as exc:
        return f"the file cannot be read: {str(exc)[-600:]}"
    if new.species_names != gas.species_names:
        return f"species {gas.species_names} have become {new.species_names}"
    if sorted(new.element_names) != sorted(gas.element_names):
        return f"elements {gas.element_names} have become {new.element_names}"
    if new.name != gas.name:
        return f"the name {gas.name!r} has become {new.name!r}"
    if new.thermo_model != gas.thermo_model or new.kinetics_model != gas.kinetics_model:
        return "the phase models differ"
    if new.transport_model != gas.transport_model:
        return f"transport model {gas.transport_model} has become {new.transport_model}"
    for a, b in zip(gas.species(), new.species()):
        if a.composition != b.composition or a.charge != b.charge:
            return f"composition of {a.name}: {a.composition} vs {b.composition}"
        bad = modelcmp.thermo_difference(a, b, 1e-9)
        if bad:
            return bad
        if a.transport is not None or b.transport is not None:
            rec.count("transport_compared")
        bad = modelcmp.transport_difference(a, b, {})
        if bad:
            return bad
    if new.n_reactions != gas.n_reactions:
        return f"{gas.n_reactions} reactions have become {new.n_reactions}"
    for a, b in zip(gas.reactions(), new.reactions()):
        bad = modelcmp.reaction_difference(gas, new, a, b)
        if bad:
            return bad
        if a.allow_negative_orders != b.allow_negative_orders:
            return f"reaction '{a.equation}': orders are treated differently"
        bad = same_numbers(a.rate, b.rate, rec)
        if bad:
            return f"reaction '{a.equation}': {bad}"
    for a, b in zip(gas.species(), new.species()):
        for x, y in ((a.thermo, b.thermo), (a.transport, b.transport)):
            if x is not None and y is not None:
                bad = same_numbers(x, y, rec)
                if bad:
                    return f"species {a.name}: {bad}"
    for _ in range(4):
        _, state = gen.random_state(rng, gas)
        if gas.n_reactions:
            rec.count("rates_compared")
            bad = modelcmp.rate_difference(gas, new, state, 1e-9)
            if bad:
                return bad[1]
        if gas.transport_model not in ("none", None) and gas.n_species <= 60:
            values = []
            for model in (gas, new):
                model.TPY = state
                try:
                    conductivity = model.thermal_conductivity
                except ct.CanteraError:
                    # the multicomponent equations are singular for some mixtures
                    conductivity = np.nan
                values.append((model.viscosity, conductivity))
            if not np.allclose(values[0], values[1], rtol=1e-8, atol=0, equal_nan=True):
                return f"viscosity and conductivity {values[0]} have become {values[1]}"
    return None
