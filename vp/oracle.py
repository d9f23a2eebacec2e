"""Reference definitions, written from the published formulas and not from the code.

They read reactions one by one (reactants/products dictionaries) instead of using
stoichiometric matrices, and evaluate sums with plain loops.
"""

import itertools
import math

import cantera as ct
import numpy as np


def participants(reaction):
    return set(reaction.reactants) | set(reaction.products)


class StateRates:
    """Net rates at a state, with the roundoff level of every rate."""

    def __init__(self, gas, state):
        temperature, pressure, y = state
        gas.TPY = temperature, pressure, y
        self.names = list(gas.species_names)
        fwd = gas.forward_rates_of_progress
        rev = gas.reverse_rates_of_progress
        self.net = [float(v) for v in gas.net_rates_of_progress]
        self.noise = [2e-15 * (abs(a) + abs(b)) for a, b in zip(fwd, rev)]
        self.reactions = gas.reactions()
        self.nu = []
        self.members = []
        name = spelling(gas)
        for r in self.reactions:
            nu = {}
            for sp, v in r.products.items():
                nu[name(sp)] = nu.get(name(sp), 0.0) + v
            for sp, v in r.reactants.items():
                nu[name(sp)] = nu.get(name(sp), 0.0) - v
            self.nu.append(nu)
            self.members.append({name(sp) for sp in participants(r)})
        index = {sp: k for k, sp in enumerate(self.names)}
        n = len(self.names)
        self.prod = np.zeros(n)
        self.cons = np.zeros(n)
        self.uncertainty = np.zeros(n)
        for q, e, nu in zip(self.net, self.noise, self.nu):
            for sp, v in nu.items():
                k = index[sp]
                self.prod[k] += max(v * q, 0.0)
                self.cons[k] += max(-v * q, 0.0)
                self.uncertainty[k] += abs(v) * e
        self.index = index
        self.n = n

    def condition(self, kind):
        """Relative roundoff of each row's denominator (inf where it is all noise)."""
        den = self.prod + self.cons if kind == "drg" else np.maximum(self.prod, self.cons)
        with np.errstate(divide="ignore", invalid="ignore"):
            out = np.where(den > 0, self.uncertainty / den, 0.0)
        return out


def drg(rates):
    m = np.zeros((rates.n, rates.n))
    den = rates.prod + rates.cons
    for q, nu, members in zip(rates.net, rates.nu, rates.members):
        if q == 0:
            continue
        for a, v in nu.items():
            i = rates.index[a]
            if v == 0 or den[i] == 0:
                continue
            for b in members:
                m[i, rates.index[b]] += abs(v * q)
    for i in range(rates.n):
        for j in range(rates.n):
            m[i, j] = m[i, j] / den[i] if den[i] != 0 and i != j else 0.0
    return m


def drgep(rates):
    m = np.zeros((rates.n, rates.n))
    den = np.maximum(rates.prod, rates.cons)
    for q, nu, members in zip(rates.net, rates.nu, rates.members):
        for a, v in nu.items():
            for b in members:
                m[rates.index[a], rates.index[b]] += v * q
    for i in range(rates.n):
        for j in range(rates.n):
            m[i, j] = abs(m[i, j]) / den[i] if den[i] != 0 and i != j else 0.0
    return m


def pfa(rates):
    n = rates.n
    p1 = np.zeros((n, n))
    c1 = np.zeros((n, n))
    den = np.maximum(rates.prod, rates.cons)
    for q, nu, members in zip(rates.net, rates.nu, rates.members):
        for a, v in nu.items():
            i = rates.index[a]
            if den[i] == 0:
                continue
            for b in members:
                j = rates.index[b]
                p1[i, j] += max(v * q, 0.0) / den[i]
                c1[i, j] += max(-v * q, 0.0) / den[i]
    m = np.zeros((n, n))
    for a in range(n):
        for b in range(n):
            if a == b:
                continue
            total = p1[a, b] + c1[a, b]
            for k in range(n):
                if k in (a, b):
                    continue
                total += p1[a, k] * p1[k, b] + c1[a, k] * c1[k, b]
            m[a, b] = total
    return m


COEFFICIENTS = {"drg": drg, "drgep": drgep, "pfa": pfa}


def reachable(matrix, targets, threshold, slack=0.0):
    """Indices reachable from targets along entries >= threshold (and > 0)."""
    limit = threshold * (1.0 + slack)
    seen = set(targets)
    stack = list(targets)
    n = len(matrix)
    while stack:
        i = stack.pop()
        for j in range(n):
            if j not in seen and matrix[i][j] > 0 and matrix[i][j] >= limit:
                seen.add(j)
                stack.append(j)
    return seen


def importance(matrix, targets):
    """Best path product from any target, by Bellman-Ford iteration to the fixed point."""
    n = len(matrix)
    best = np.zeros(n)
    for t in targets:
        r = np.zeros(n)
        r[t] = 1.0
        for _ in range(n):
            step = (r[:, None] * np.asarray(matrix)).max(axis=0)
            new = np.maximum(r, step)
            new[t] = 1.0
            if np.array_equal(new, r):
                break
            r = new
        best = np.maximum(best, r)
    return best


def importance_enumerated(matrix, targets):
    """The same by enumerating all simple paths (tiny graphs only)."""
    n = len(matrix)
    best = [0.0] * n

    def walk(i, product, visited):
        if product > best[i]:
            best[i] = product
        for j in range(n):
            if j not in visited and matrix[i][j] > 0:
                walk(j, product * matrix[i][j], visited | {j})

    for t in targets:
        walk(t, 1.0, {t})
    return np.array(best)


def error_percent(original, test):
    """Reported error of a metric vector against the original's."""
    if any(v == 0.0 for v in test):
        return 100.0
    return 100.0 * max(abs(o - t) / o for o, t in zip(original, test))


def close(a, b, rtol=1e-9, atol=0.0):
    return math.isclose(a, b, rel_tol=rtol, abs_tol=atol)


def subsets(items):
    for r in range(len(items) + 1):
        yield from itertools.combinations(items, r)


def spelling(gas):
    """Function that gives names as the list of species has them; Cantera ignores their case."""
    lower = {}
    for sp in gas.species_names:
        lower.setdefault(sp.lower(), []).append(sp)

    def name(sp):
        found = lower.get(sp.lower(), [])
        return found[0] if sp not in found and len(found) == 1 else sp

    return name


def survivors(gas, removed):
    """Species and reaction indices that must survive the removal."""
    removed = set(removed)
    name = spelling(gas)
    species = [sp for sp in gas.species_names if sp not in removed]
    keep = []
    for i, r in enumerate(gas.reactions()):
        members = {name(sp) for sp in participants(r) | set(r.orders)}
        if members & removed:
            continue
        tb = r.third_body
        if tb is not None and not tb.default_efficiency:
            if tb.efficiencies and {name(sp) for sp in tb.efficiencies} <= removed:
                continue
        keep.append(i)
    return species, keep


def normalise(gas, y):
    y = np.clip(np.asarray(y, float), 0, None)
    return y / y.sum()


def ct_error(exc):
    return isinstance(exc, ct.CanteraError)
