"""Workloads and independent references for the real simulations."""

import cantera as ct
import numpy as np

FUELS = {
    "h2o2": [{"H2": 1.0}, {"H2": 3.0, "H2O": 0.5}],
    "gri30": [{"CH4": 1.0}, {"H2": 1.0, "CO": 2.0}, {"CH4": 9.0, "C2H6": 1.0}, {"C2H4": 1.0}],
    "syngas": [{"H2": 1.0}, {"H2": 1.0, "CO": 1.0}, {"H2": 0.2, "CO": 1.0}],
}
OXIDIZERS = [
    {"O2": 1.0, "N2": 3.76},
    {"O2": 1.0, "AR": 4.0},
    {"O2": 0.21, "N2": 0.79, "H2O": 0.05},
    {"O2": 1.0},
]
SYNGAS = ["H2", "H", "O", "O2", "OH", "H2O", "HO2", "H2O2", "CO", "CO2", "HCO", "N2", "AR"]


def model_file(name):
    """Writes the mechanism into the working directory; returns the file name."""
    gas = ct.Solution("h2o2.yaml" if name == "h2o2" else "gri30.yaml")
    if name == "syngas":
        keep = [gas.species(s) for s in SYNGAS]
        rs = []
        for r in gas.reactions():
            if set(r.reactants) | set(r.products) <= set(SYNGAS):
                if r.third_body is not None:
                    eff = {k: v for k, v in r.third_body.efficiencies.items() if k in SYNGAS}
                    if not eff and r.third_body.default_efficiency == 0:
                        continue
                    r.third_body.efficiencies = eff
                rs.append(r)
        gas = ct.Solution(
            thermo="ideal-gas", kinetics="bulk", species=keep, reactions=rs,
            transport_model=gas.transport_model, name="gas",
        )
    file = f"{name}_model.yaml"
    gas.write_yaml(file)
    return file


def mixture(rng, name):
    """Keyword arguments for the composition of a case, in every way of giving it."""
    fuel = dict(FUELS[name][int(rng.integers(len(FUELS[name])))])
    ox = dict(OXIDIZERS[int(rng.integers(len(OXIDIZERS)))])
    how = str(rng.choice(["phi", "mole", "mass"]))
    phi = float(rng.choice([0.5, 0.8, 1.0, 1.0, 1.4, 2.0]))
    scale = float(rng.choice([1.0, 0.25, 7.0]))
    if how == "phi":
        return dict(
            equivalence_ratio=phi,
            fuel={k: v * scale for k, v in fuel.items()},
            oxidizer=ox,
        )
    gas = ct.Solution("gri30.yaml")
    x = mixed(gas, phi, fuel, ox)
    names = gas.species_names
    if how == "mole":
        values = {names[i]: float(x[i] * scale) for i in np.nonzero(x)[0]}
        return dict(reactants=values, composition_type="mole")
    y = x * gas.molecular_weights
    y /= y.sum()
    values = {names[i]: float(y[i] * scale) for i in np.nonzero(y)[0]}
    return dict(reactants=values, composition_type="mass")


def vector(gas, composition):
    x = np.zeros(gas.n_species)
    for k, v in composition.items():
        x[gas.species_index(k)] = v
    return x / x.sum()


def demand(gas, x):
    """Moles of O needed to burn one mole of the mixture to CO2 and H2O (N, AR inert)."""
    out = 0.0
    for e, weight in (("C", 2.0), ("H", 0.5), ("O", -1.0)):
        if e in gas.element_names:
            out += weight * sum(
                x[i] * gas.species(i).composition.get(e, 0.0) for i in range(gas.n_species)
            )
    return out


def mixed(gas, phi, fuel, ox):
    f, o = vector(gas, fuel), vector(gas, ox)
    ratio = phi * -demand(gas, o) / demand(gas, f)
    x = ratio * f + o
    return x / x.sum()


def mass_fractions(gas, case):
    """Initial mass fractions of a case, from its definition."""
    w = gas.molecular_weights
    if case.equivalence_ratio:
        x = mixed(gas, case.equivalence_ratio, case.fuel, case.oxidizer)
        y = x * w
    elif case.composition_type == "mole":
        y = vector(gas, case.reactants) * w
    else:
        y = vector(gas, case.reactants)
    return y / y.sum()


def elements(gas, y):
    """Moles of every element per kg."""
    w = gas.molecular_weights
    return np.array(
        [
            sum(y[i] / w[i] * gas.n_atoms(i, e) for i in range(gas.n_species))
            for e in range(gas.n_elements)
        ]
    )


def atoms_matrix(gas):
    return np.array(
        [[gas.n_atoms(i, e) for e in range(gas.n_elements)] for i in range(gas.n_species)]
    ) / gas.molecular_weights[:, None]


def independent_delay(file, case, phase="", rise=400.0, t_max=50.0, atol=1e-18):
    """(earliest, latest) time of the temperature rise by a different integrator setup."""
    gas = ct.Solution(file, phase)
    gas.TPY = case.temperature, case.pressure * 101325.0, mass_fractions(gas, case)
    if case.kind == "constant pressure":
        reactor = ct.IdealGasConstPressureReactor(gas, clone=False)
    else:
        reactor = ct.IdealGasReactor(gas, clone=False)
    net = ct.ReactorNet([reactor])
    net.rtol, net.atol = 1e-9, atol
    target = case.temperature + rise
    before = 0.0
    try:
        while net.time < t_max:
            before = net.time
            net.step()
            if reactor.T >= target:
                return before, net.time
    except ct.CanteraError:
        return None
    return None
