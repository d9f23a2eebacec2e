"""Independent comparison of two Cantera models, by data and by rates at states."""

import cantera as ct
import numpy as np

from vp.oracle import spelling


def thermo_difference(a, b, rtol):
    """First difference in species thermodynamics (None if equal)."""
    lo = max(a.thermo.min_temp, b.thermo.min_temp)
    hi = min(a.thermo.max_temp, b.thermo.max_temp)
    if not (
        np.isclose(a.thermo.min_temp, b.thermo.min_temp, rtol=1e-6)
        and np.isclose(a.thermo.max_temp, b.thermo.max_temp, rtol=1e-6)
    ):
        return f"temperature range of {a.name}"
    points = [*np.linspace(lo, hi, 13)]
    for sp in (a, b):
        middle = sp.thermo.coeffs[0] if "Poly2" in type(sp.thermo).__name__ else 1000.0
        points = [t + 0.5 if abs(t - middle) < 0.1 else t for t in points]
        points += [t for t in (middle - 0.2, middle + 0.2) if lo < t < hi]
    for t in points:
        for name, scale in (("cp", 8314.0), ("h", 8314.0 * t), ("s", 8314.0)):
            x, y = getattr(a.thermo, name)(t), getattr(b.thermo, name)(t)
            if name == "s":
                # at one atmosphere
                x, y = x - pressure_shift(a.thermo), y - pressure_shift(b.thermo)
            if abs(x - y) > rtol * max(abs(x), scale):
                return f"{name} of {a.name} at {t:.1f} K: {x!r} vs {y!r}"
    return None


def pressure_shift(thermo):
    return ct.gas_constant * np.log(ct.one_atm / thermo.reference_pressure)


TRANSPORT = (
    "geometry",
    "diameter",
    "well_depth",
    "dipole",
    "polarizability",
    "rotational_relaxation",
)


def transport_difference(a, b, atol):
    """``atol`` maps a parameter to its absolute tolerance."""
    ta, tb = a.transport, b.transport
    if (ta is None) != (tb is None):
        return f"{a.name} has transport data in one model only"
    if ta is None:
        return None
    for name in TRANSPORT:
        x, y = getattr(ta, name), getattr(tb, name)
        if name == "geometry":
            if x != y:
                return f"geometry of {a.name}: {x} vs {y}"
        elif abs(x - y) > atol.get(name, 0.0) + 1e-9 * abs(x):
            return f"{name} of {a.name}: {x!r} vs {y!r}"
    return None


def efficiencies(gas, reaction):
    """Effective collision efficiency of every species, or None without third body."""
    tb = reaction.third_body
    if tb is None:
        return None
    given = named(gas, tb.efficiencies)
    return {sp: given.get(sp, tb.default_efficiency) for sp in gas.species_names}


def named(gas, values):
    """The same values for the names as the list of species spells them."""
    name = spelling(gas)
    out = {}
    for sp, v in values.items():
        out[name(sp)] = out.get(name(sp), 0.0) + v
    return out


def orders(gas, reaction):
    """Effective forward order per species (third bodies excluded)."""
    out = named(gas, reaction.reactants)
    out.update(named(gas, reaction.orders))
    return {k: v for k, v in out.items() if v != 0}


def same_map(a, b, tol=1e-6):
    return set(a) == set(b) and all(abs(a[k] - b[k]) <= tol for k in a)


def reaction_difference(gas_a, gas_b, a, b, types=True):
    what = f"reaction '{a.equation}'"
    if not all(
        same_map(named(gas_a, x), named(gas_b, y))
        for x, y in ((a.reactants, b.reactants), (a.products, b.products))
    ):
        return f"{what} has become '{b.equation}'"
    if a.reversible != b.reversible:
        return f"{what}: reversibility differs"
    if a.duplicate != b.duplicate:
        return f"{what}: duplicate flag differs"
    if types and a.reaction_type != b.reaction_type:
        return f"{what}: type {a.reaction_type} has become {b.reaction_type}"
    oa, ob = orders(gas_a, a), orders(gas_b, b)
    if not same_map(oa, ob):
        return f"{what}: orders {oa} have become {ob}"
    ea, eb = efficiencies(gas_a, a), efficiencies(gas_b, b)
    # species that have been removed from one of the models do not matter
    if ea is not None and eb is not None and not all(
        abs(ea[sp] - eb[sp]) <= 1e-4 for sp in set(ea) & set(eb)
    ):
        return f"{what}: collision efficiencies differ"
    return None


def rate_difference(gas_a, gas_b, state, rtol, index=None):
    """First reaction whose forward or reverse rate differs (same species order).

    ``rtol`` is a number or a function of (reaction, temperature).
    """
    t, p, y = state
    values = []
    for gas in (gas_a, gas_b):
        gas.TPY = t, p, y
        values.append(
            (gas.forward_rates_of_progress.copy(), gas.reverse_rates_of_progress.copy())
        )
    for kind in (0, 1):
        x, z = values[0][kind], values[1][kind]
        for i in range(len(x)):
            tol = rtol(gas_a.reaction(i), t) if callable(rtol) else rtol
            if not np.isfinite(x[i]) and not np.isfinite(z[i]):
                continue
            if abs(x[i] - z[i]) > tol * max(abs(x[i]), abs(z[i])) + 1e-280:
                return (
                    i,
                    f"{('forward', 'reverse')[kind]} rate of '{gas_a.reaction(i).equation}' "
                    f"at {t:.1f} K, {p:.4g} Pa: {x[i]!r} vs {z[i]!r}",
                )
    return None
