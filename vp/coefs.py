"""Shared by the three coefficient checks (R04 DRG, R05 DRGEP, R06 PFA)."""

import importlib

import numpy as np

from vp import gen, oracle

LEVEL = "exploration"
TECHNIQUE = (
    "online monitor: every coefficient matrix the code returns on generated mechanisms and "
    "states is compared with an independent evaluation of the definition"
)
NOTE = (
    "Shows agreement with the published definition on every generated (mechanism, state) pair, "
    "including degenerate states and repeated and reordered evaluation. Trusts Cantera's rates "
    "of progress; rows that are floating-point noise are only bound-checked."
)
RULE = (
    "One case = one (mechanism, state). Mechanisms: random sub-mechanisms of five published "
    "mechanisms and synthetic ones of 20 reaction kinds; states: dense, sparse, trace, pure, "
    "equilibrium, visited in random order on one shared and on fresh gas objects. "
    "Non-trivial: at least two species have flux and some off-diagonal coefficient lies "
    "strictly between 0 and 1. Distinct by the coefficient matrix."
)
ASSUMPTIONS = [
    "Cantera's net rates of progress are the reaction rates of the definition",
    "rows whose flux is dominated by floating-point cancellation (equilibrium) are only "
    "checked for bounds, not for values",
]


def tasks(tier, seed, kind):
    n = 48 if tier == "quick" else 480
    out = [dict(kind=kind, seed=seed, i=i, mech="any") for i in range(n)]
    big = ["gri30", "nh3", "h2o2", "ohn", "ion"]
    out += [dict(kind=kind, seed=seed, i=i, mech=m) for i, m in enumerate(big)]
    if tier == "thorough":
        out += [dict(kind=kind, seed=seed, i=100 + j, mech=m) for j in range(6) for m in big]
    return out


def evaluate(kind):
    module = importlib.import_module(f"pymars.{kind}")
    return getattr(module, f"create_{kind}_matrix")


def run_task(task, rec):
    rng = gen.rng_of("coef", task["seed"], task["i"], task["mech"])
    kind = task["kind"]
    create = evaluate(kind)
    n_mech, n_states = (6, 10) if task["mech"] == "any" else (1, 4)
    for m in range(n_mech):
        if task["mech"] == "any":
            data = gen.any_mechanism(rng, n_species=(3, 10), twins=0.1)
            if rng.random() < 0.1:
                data = gen.with_other_case(rng, data)
            make = lambda: gen.solution(data)  # noqa: E731
        else:
            import cantera as ct

            make = lambda: ct.Solution(gen.REAL[task["mech"]])  # noqa: E731
        reference = make()
        shared = make()
        if reference.n_reactions == 0:
            continue
        states = [gen.random_state(rng, reference) for _ in range(n_states)]
        results = []
        for label, state in states:
            rates = oracle.StateRates(reference, state)
            expected = oracle.COEFFICIENTS[kind](rates)
            y_before = np.array(state[2], copy=True)
            got = create((state[0], state[1], state[2]), shared)
            got = np.array(got, dtype=float, copy=True)
            judge(kind, rates, expected, got, rec, label, dict(state=state, mech=m))
            if not np.array_equal(y_before, state[2]):
                rec.violation("the caller's mass fractions were changed", mech=m)
            results.append((state, got, label))
        # history independence: revisit in another order, and on a fresh object
        for k in rng.permutation(len(results))[:4]:
            state, first, label = results[int(k)]
            again = np.array(create((state[0], state[1], state[2]), shared))
            fresh = np.array(create((state[0], state[1], list(state[2])), make()))
            rec.count("repeated_states", 2)
            for name, other in (("repeated", again), ("fresh object", fresh)):
                if not np.array_equal(first, other):
                    rates = oracle.StateRates(reference, state)
                    stable = rates.condition(kind) < 1e-9
                    rows = stable & (np.abs(first - other).max(axis=1) > 1e-9)
                    if rows.any():
                        rec.violation(
                            f"{name} evaluation of a {label} state gives another matrix",
                            mech=m,
                            state=state,
                        )


def judge(kind, rates, expected, got, rec, label, where):
    n = rates.n
    rec.count("matrices")
    rec.count("coefficients", n * n)
    rec.count(f"states_{label}")
    nontrivial = ((expected > 1e-12) & (expected < 1 - 1e-12)).any() and (
        (rates.prod + rates.cons) > 0
    ).sum() >= 2
    rec.case(expected.round(12).tobytes(), nontrivial)
    rec.sample(
        dict(kind=kind, state=label, T=where["state"][0], species=n, reactions=len(rates.net))
    )
    if got.shape != (n, n):
        rec.violation(f"matrix has shape {got.shape} for {n} species", **where)
        return
    if not np.isfinite(got).all():
        i, j = np.argwhere(~np.isfinite(got))[0]
        rec.violation(
            f"coefficient of {rates.names[i]} on {rates.names[j]} is {got[i, j]}", **where
        )
        return
    if np.any(np.diag(got) != 0.0):
        rec.violation("non-zero diagonal", **where)
    if (got < 0).any():
        rec.violation("negative coefficient", **where)
    if kind in ("drg", "drgep") and (got > 1 + 1e-9).any():
        rec.violation(f"coefficient above one: {got.max()}", **where)
    idle = (rates.prod + rates.cons) == 0
    if np.abs(got[idle]).sum() > 0 and rates.uncertainty[idle].max(initial=0.0) == 0.0:
        rec.violation("species without flux has non-zero coefficients", **where)
    cond = rates.condition(kind)
    if kind == "pfa":
        # second-generation terms use every row
        tol = np.full(n, 1e-9 + 20 * cond.max(initial=0.0))
    else:
        tol = 1e-9 + 20 * cond
    checked = tol < 1e-3
    rec.count("rows_compared", checked.sum())
    rec.count("rows_only_bounds", (~checked).sum())
    scale = np.maximum(1.0, np.abs(expected))
    diff = np.abs(got - expected) / scale
    bad = (diff > tol[:, None]) & checked[:, None]
    if checked.any():
        rec.maximum("largest_difference", (diff[checked]).max(initial=0.0))
    if bad.any():
        i, j = np.argwhere(bad)[0]
        rec.violation(
            f"coefficient of {rates.names[i]} on {rates.names[j]} is {got[i, j]!r}, the "
            f"definition gives {expected[i, j]!r} ({label} state)",
            **where,
        )
