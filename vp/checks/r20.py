"""R20: conversion to and from Chemkin format preserves the chemistry."""

import contextlib
import logging
import os
import re

import cantera as ct
import numpy as np

from vp import gen, modelcmp
from vp.core import from_repo

LEVEL = "exploration"
TECHNIQUE = (
    "differential monitor: models written by the converter are read back and compared, "
    "reaction by reaction and by rates at many states, with the model they came from"
)
NOTE = (
    "Round trips of generated models over every rate type, naming style, order and third-body "
    "form. Trusts Cantera's ck2yaml as the reader of Chemkin files and Cantera's rate evaluation."
)
RULE = (
    "One case = one model converted to Chemkin and back, compared reaction by reaction and by "
    "forward/reverse rates at 12 states. Non-trivial: at least 3 reactions of at least 2 types, "
    "or a model with a feature that has to be refused. Distinct by species, equations, rates."
)
ASSUMPTIONS = [
    "ck2yaml reads Chemkin files as Chemkin defines them",
    "printed precision: 5 digits of A, 3 decimals of b, 0.01 cal/mol of Ea, 7 digits of Chebyshev "
    "coefficients, 3 decimals of transport parameters",
]
REQUIRED_EVENTS = (
    "round_trips", "rates_compared", "refused", "other_temperature_ranges",
    "other_reference_pressures", "other_elements",
)
MIN_CASES = 60

SUPPORTED = (
    "arr",
    "irrev",
    "3b",
    "3b-collider",
    "lind",
    "troe3",
    "troe4",
    "sri3",
    "sri5",
    "ca-lind",
    "ca-troe",
    "plog",
    "cheb",
    "dup",
    "dup-negative",
    "frac",
    "catalyst",
    "falloff-collider",
)
#: written faithfully or refused, but never changed silently
DELICATE = ("orders", "3b-default0", "bm", "tsang", "dup-collider", "burke", "plog-3b", "cheb-3b")
STYLES = (
    *["plain"] * 10,
    *["long"] * 3,
    "very-long",
    "parens",
    "other-case",
    "other-case",
    "parens",
    "elements5",
    "nasa9",
    "constant-cp",
    "one-range",
    "no-transport",
    "fraction-composition",
    "odd",
    "odd",
)
#: names that collide with the syntax of the format, or begin with what may be a number
NOT_CHEMKIN = re.compile(r"[/=!]|^\d")


def tasks(tier, seed):
    n = 144 if tier == "quick" else 1200
    out = [dict(seed=seed, i=i) for i in range(n)]
    out += [dict(seed=seed, i=-1, real=r) for r in ("h2o2", "ohn", "gri30", "air", "nh3", "ion")]
    return out


def long_names(rng, data, length):
    mapping = {}
    for k, sp in enumerate(data["species"]):
        base = sp["name"].replace("(", "-").replace(")", "") + f"_N{k}-"
        n = int(rng.integers(length[0], length[1] + 1))
        mapping[sp["name"]] = (base + "abcdefghijklmnopqrstuvwxyz" * 2)[:n].rstrip("-")
        if mapping[sp["name"]] in list(mapping.values())[:-1]:
            return data
    return gen.renamed(data, mapping)


def styled(rng, data, style):
    """A variation of the model; returns (data, may_be_refused)."""
    if style == "long":
        return long_names(rng, data, (12, 18)), False
    if style == "odd":
        data = gen.with_odd_names(rng, data)
        names = data["phases"][0]["species"]
        if any(NOT_CHEMKIN.search(n) for n in names):
            return data, True
        return data, any(len(n) > 18 for n in names)
    if style == "other-case":
        return gen.with_other_case(rng, data), False
    if style == "very-long":
        return long_names(rng, data, (19, 34)), True
    if style == "parens":
        mapping = {
            sp["name"]: f"{sp['name']}({k})" for k, sp in enumerate(data["species"])
            if "(" not in sp["name"]
        }
        return gen.renamed(data, mapping), False
    sp = data["species"][int(rng.integers(len(data["species"])))]
    if style == "elements5":
        # an inert with five elements
        new = dict(sp, name="MANY", composition=dict(C=2, H=5, N=1, O=2, Ar=1))
        data["species"].append(new)
        data["phases"][0]["species"].append("MANY")
        data["phases"][0]["elements"] = gen.elements_of(data["species"])
        return data, True
    if style == "fraction-composition":
        new = dict(sp, name="FRAC", composition=dict(C=1.5, H=2.25))
        data["species"].append(new)
        data["phases"][0]["species"].append("FRAC")
        data["phases"][0]["elements"] = gen.elements_of(data["species"])
        return data, True
    if style == "nasa9":
        th = sp["thermo"]
        sp["thermo"] = {
            "model": "NASA9",
            "temperature-ranges": [200.0, 1000.0, 6000.0],
            "data": [[0.0, 0.0] + row[:5] + row[5:7] for row in th["data"]],
        }
        return data, True
    if style == "constant-cp":
        sp["thermo"] = dict(model="constant-cp", T0=1000.0, h0=9.22e6, s0=3.0e5, cp0=3.1e4)
        return data, True
    if style == "one-range":
        th = sp["thermo"]
        sp["thermo"] = {
            "model": "NASA7",
            "temperature-ranges": [200.0, 3000.0],
            "data": [th["data"][0]],
        }
        return data, False
    if style == "no-transport":
        for s in data["species"]:
            s.pop("transport", None)
        data["phases"][0].pop("transport", None)
        return data, False
    return data, False


def other_ranges(rng, data, rec):
    """Polynomials of some species change at, and end at, other temperatures."""
    for sp in data["species"]:
        ranges = sp["thermo"].get("temperature-ranges", [])
        if len(ranges) == 3 and rng.random() < 0.5:
            digits = int(rng.integers(0, 3))
            sp["thermo"]["temperature-ranges"] = [
                round(float(rng.uniform(150, 340)), digits),
                round(float(rng.uniform(600, 1900)), digits),
                round(float(rng.uniform(2900, 6500)), digits),
            ]
            rec.count("other_temperature_ranges")
    if rng.random() < 0.4 and all(sp["thermo"]["model"] == "NASA7" for sp in data["species"]):
        # entropies refer to another pressure, the same for all species
        pressure = float(rng.choice([1e5, 2e5, 5e4]))
        for sp in data["species"]:
            sp["thermo"]["reference-pressure"] = pressure
        rec.count("other_reference_pressures")


def other_elements(rng, data, rec):
    """Elements with other weights (isotopes), or with symbols of their own.

    Returns whether a symbol does not fit the format.
    """
    used = [e for e in data["phases"][0]["elements"] if e != "E"]
    if not used or "elements" in data:
        return False
    element = str(rng.choice(used))
    symbol = str(rng.choice([element, element, "Zz", "X", "Xyz", "Ab1"]))
    for phase in data["phases"]:
        phase["elements"] = [symbol if e == element else e for e in phase["elements"]]
    for sp in data["species"]:
        sp["composition"] = {
            symbol if e == element else e: n for e, n in sp["composition"].items()
        }
    weight = round(float(rng.uniform(1, 60)), int(rng.integers(0, 11)))
    data["elements"] = [{"symbol": symbol, "atomic-weight": weight}]
    rec.count("other_elements")
    return len(symbol) > 2


def run_task(task, rec):
    if "real" in task:
        gas = ct.Solution(gen.REAL[task["real"]])
        file = gen.REAL[task["real"]]
        round_trip(gas, file, False, "real " + task["real"], rec)
        return
    rng = gen.rng_of("r20", task["seed"], task["i"])
    for m in range(4):
        features = SUPPORTED
        delicate = ""
        if rng.random() < 0.35:
            delicate = str(rng.choice(DELICATE))
            features = SUPPORTED + (delicate,) * 8
        style = str(rng.choice(STYLES))
        data = None
        for _ in range(5):
            data = gen.any_mechanism(
                rng, features=features, n_species=(3, 9), real_share=0.15
            )
            data = gen.json.loads(gen.json.dumps(data))
            if rng.random() < 0.3:
                other_ranges(rng, data, rec)
            data, may_refuse = styled(rng, data, style)
            if rng.random() < 0.15 and style != "elements5":
                may_refuse = other_elements(rng, data, rec) or may_refuse
            try:
                gas = gen.solution(data)
                break
            except ct.CanteraError:
                data = None
        if data is None:
            continue
        file = gen.write(data, f"model{m}.yaml")
        before = open(file, "rb").read()
        round_trip(gas, file, may_refuse, f"{style} {delicate}", rec)
        if open(file, "rb").read() != before:
            rec.violation("the converted model file was changed")


def beyond_chemkin(gas):
    """Whether the model has reaction features that may be refused."""
    for r in gas.reactions():
        t = r.reaction_type
        if t.startswith("Blowers") or "Tsang" in t:
            return True
        if t.startswith("three-body") and t != "three-body-Arrhenius":
            return True
        tb = r.third_body
        if r.orders or (tb is not None and tb.name == "M" and tb.default_efficiency != 1.0):
            return True
    return False


@contextlib.contextmanager
def reported(active):
    """Log as a user's session does, so that the reader of Chemkin files sees its own errors."""
    before = logging.root.manager.disable
    if active:
        logging.disable(logging.INFO)
    try:
        yield
    finally:
        logging.disable(before)


def round_trip(gas, file, may_refuse, label, rec):
    from pymars.tools import convert

    os.makedirs("ck", exist_ok=True)
    os.makedirs("back", exist_ok=True)
    for d in ("ck", "back"):
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
    key = [r.equation + r.reaction_type for r in gas.reactions()] + list(gas.species_names)
    types = {r.reaction_type for r in gas.reactions()}
    may_refuse = may_refuse or beyond_chemkin(gas)
    rec.sample(dict(model=label, types=sorted(types), equations=key[:3]))
    try:
        files = convert(file, path="ck")
    except Exception as exc:
        if may_refuse and from_repo(exc):
            rec.count("refused")
            rec.case(("refused", *key))
            return
        rec.violation(f"{label}: conversion to Chemkin fails: {type(exc).__name__}: {exc}")
        return
    for name in files:
        if not os.path.isfile(name) or os.path.dirname(name) != "ck":
            rec.violation(f"{label}: returned file {name} is not in the requested directory")
            return
    extra = [f for f in os.listdir("ck") if os.path.join("ck", f) not in files]
    if extra:
        rec.violation(f"{label}: unexpected files {extra}")
    thermo = [f for f in files if "thermo" in os.path.basename(f)]
    transport = [f for f in files if "transport" in os.path.basename(f)]
    has_transport = all(sp.transport for sp in gas.species())
    if len(thermo) != 1 or len(transport) != int(has_transport):
        rec.violation(f"{label}: files written: {files}")
        return
    try:
        # the reader of Chemkin files counts its errors by what it logs; it takes reactions of
        # less than one reactant in total for ones without reactants
        with reported(all(sum(r.reactants.values()) >= 1 for r in gas.reactions())):
            back_file = convert(
                files[0], thermo[0], transport[0] if transport else None, path="back"
            )
        back = ct.Solution(back_file)
    except BaseException as exc:
        if isinstance(exc, (KeyboardInterrupt, MemoryError)):
            raise
        if any(NOT_CHEMKIN.search(n) for n in gas.species_names):
            rec.count("unreadable_names")
            return
        rec.violation(f"{label}: the written files cannot be read: {type(exc).__name__}: {exc}")
        return
    rec.count("round_trips")
    for t in types:
        rec.count(f"type {t}", sum(1 for r in gas.reactions() if r.reaction_type == t))
    rec.case((*key, gas.forward_rate_constants.tobytes() if gas.n_reactions else b""),
             gas.n_reactions >= 3 and len(types) >= 2)
    message = difference(gas, back, rec)
    if message:
        rec.violation(f"{label}: {message}", file_text=open(files[0]).read()[:3000])


def difference(gas, back, rec):
    if list(gas.species_names) != list(back.species_names):
        return f"species {gas.species_names} have become {back.species_names}"
    if set(gas.element_names) != set(back.element_names):
        return f"elements {gas.element_names} have become {back.element_names}"
    for e in gas.element_names:
        if not np.isclose(gas.atomic_weight(e), back.atomic_weight(e), rtol=1e-9):
            return f"weight of {e}: {gas.atomic_weight(e)} vs {back.atomic_weight(e)}"
    for a, b in zip(gas.species(), back.species()):
        if dict(a.composition) != dict(b.composition):
            return f"composition of {a.name}: {a.composition} vs {b.composition}"
        d = modelcmp.thermo_difference(a, b, 1e-6)
        if d:
            return d
        d = modelcmp.transport_difference(
            a,
            b,
            dict(
                diameter=0.6e-3 * 1e-10,
                well_depth=0.6e-3 * ct.boltzmann,
                dipole=0.6e-3 * 3.33564e-30,
                polarizability=0.6e-3 * 1e-30,
                rotational_relaxation=0.6e-3,
            ),
        )
        if d and all(sp.transport for sp in gas.species()):
            return d
    if gas.n_reactions != back.n_reactions:
        return f"{gas.n_reactions} reactions have become {back.n_reactions}"
    for a, b in zip(gas.reactions(), back.reactions()):
        same_kind = third_body_equivalent(gas, back, a, b)
        d = modelcmp.reaction_difference(gas, back, a, b, types=not same_kind)
        if d:
            return d
    if gas.n_reactions == 0:
        return None
    rng = gen.rng_of("r20 states", gas.n_reactions, gas.n_species)
    for k in range(12):
        y = rng.dirichlet(np.ones(gas.n_species))
        state = (float(rng.uniform(350, 2800)), 10 ** rng.uniform(3.5, 6.8), y)
        fall = rate_mismatch(gas, back, state)
        rec.count("rates_compared", 2 * gas.n_reactions)
        if fall:
            return fall
    return None


def third_body_equivalent(gas, back, a, b):
    """Explicit colliders may be read back as a plain or as a third-body reaction."""
    kinds = {a.reaction_type, b.reaction_type}
    return kinds == {"Arrhenius", "three-body-Arrhenius"}


def rate_mismatch(gas, back, state):
    """Compare with a tolerance from the printed digits of each reaction's parameters."""

    def rtol(r, t):
        # decimals of b beyond three are lost in print
        exps = []
        rate = r.rate
        if hasattr(rate, "temperature_exponent"):
            exps = [rate.temperature_exponent]
        elif hasattr(rate, "low_rate"):
            exps = [rate.low_rate.temperature_exponent, rate.high_rate.temperature_exponent]
        elif hasattr(rate, "rates"):
            exps = [x.temperature_exponent for _, x in rate.rates]
        lost = sum(abs(b - round(b, 3)) for b in exps) * np.log(t)
        return 3e-4 + lost + 0.05 / (1.987 * t)

    d = modelcmp.rate_difference(gas, back, state, rtol)
    return d[1] if d else None
