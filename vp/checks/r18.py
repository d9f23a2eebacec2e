"""R18: laminar flame cases report the speed of the requested flame."""

import os

import cantera as ct
import numpy as np

from vp import gen, reactors
from vp.faults import Fault, Faults

LEVEL = "exploration"
TECHNIQUE = (
    "monitor on Cantera's flame solver with an independent solve as oracle: the flame that is "
    "handed over for solving, its solution, and the reported speed and states are compared; "
    "limits of detection are driven with given speeds through every caller"
)
NOTE = (
    "Real hydrogen and syngas flames for random conditions, compared with another solve on "
    "another grid; for the minimum speed, thousands of unsolved flames with given speeds, alone "
    "and inside whole reductions in which a single species may be removed."
)
RULE = (
    "One case = one solved flame, or one evaluation with a given speed. Distinct by conditions, "
    "speed, minimum and caller."
)
ASSUMPTIONS = [
    "speeds of two solves on different grids agree within 20 % (weak flames) or 7 % (above 0.4 m/s)",
    "the domain may be widened by Cantera during the solution, not before",
]
REQUIRED_EVENTS = (
    "flames_solved", "independent", "profile_rows", "at_minimum", "just_above", "below",
    "configured_minimum", "reductions", "rejected", "accepted",
)
MIN_CASES = 60


def tasks(tier, seed):
    f = 1 if tier == "quick" else 12
    out = []
    for kind, n in (("flame", 24), ("minimum", 8), ("reduction", 24)):
        out += [dict(kind=kind, seed=seed, i=i) for i in range(n * f)]
    return out


def run_task(task, rec):
    rng = gen.rng_of("r18", task["kind"], task["seed"], task["i"])
    dict(flame=flame, minimum=minimum, reduction=reduction)[task["kind"]](task, rng, rec)


class Watch:
    """Records the flames handed to Cantera's solver, and their solutions."""

    def __enter__(self):
        self.old = ct.FreeFlame.solve
        self.seen = []
        watch = self

        def solve(flame, *args, **kwargs):
            entry = dict(
                T=flame.inlet.T, P=flame.P, Y=flame.inlet.Y.copy(), X=flame.inlet.X.copy(),
                width=flame.grid[-1] - flame.grid[0], gas=(flame.gas.T, flame.gas.P),
                flame=flame,
            )
            watch.seen.append(entry)
            watch.old(flame, *args, **kwargs)
            entry.update(
                speed=float(flame.velocity[0]), temperatures=flame.T.copy(),
                mass_fractions=flame.Y.T.copy(), inlet=flame.inlet.T,
                p=flame.P,
            )

        ct.FreeFlame.solve = solve
        return self

    def __exit__(self, *exc):
        ct.FreeFlame.solve = self.old


def independent(file, case, y):
    """Another solve: other refinement, other start."""
    gas = ct.Solution(file)
    gas.TPY = case.temperature, case.pressure * 101325.0, y
    flame = ct.FreeFlame(gas, width=1.5 * case.width)
    flame.set_refine_criteria(ratio=2.5, slope=0.08, curve=0.12)
    flame.solve(loglevel=0, refine_grid=True, auto=True)
    return float(flame.velocity[0])


def flame(task, rng, rec):
    from pymars.sampling import InputLaminarFlame, flame_sample_worker, flame_worker
    from pymars.simulation import FlameSimulation

    name = "syngas" if task["i"] % 4 == 3 else "h2o2"
    file = reactors.model_file(name)
    mix = reactors.mixture(rng, name)
    case = InputLaminarFlame(
        temperature=float(rng.uniform(270, 700)),
        pressure=float(10 ** rng.uniform(-0.5, 1.2)),
        width=float(
            rng.choice([0.02, 0.05, 0.1]) if task["i"] % 2 else 10 ** rng.uniform(-1.8, -0.3)
        ),
        **mix,
    )
    what = f"{name} {tuple(case)}"
    gas = ct.Solution(file)
    y = reactors.mass_fractions(gas, case)
    p = case.pressure * 101325.0
    sampled = task["i"] % 2 == 0
    sim = FlameSimulation(0, case, file)
    rec.sample(what)
    with Watch() as watch:
        try:
            if sampled:
                speed, data = flame_sample_worker((sim, 3))[3]
            else:
                speed, data = flame_worker((sim, 3))[3], None
        except RuntimeError:
            speed, data = 0.0, None
    rec.count("flames_solved", len(watch.seen))
    if not watch.seen:
        rec.violation(f"{what}: no flame was solved")
        return
    entry = watch.seen[-1]
    rec.case(what, "speed" in entry)
    if (
        abs(entry["T"] - case.temperature) > 1e-9 * case.temperature
        or abs(entry["P"] - p) > 1e-9 * p
        or np.abs(entry["Y"] - y).max() > 1e-9
        or abs(entry["width"] - case.width) > 1e-9 * case.width
    ):
        rec.violation(
            f"{what}: solved for {entry['T']} K, {entry['P']} Pa, width {entry['width']} m, "
            f"mass fractions {entry['Y'].tolist()} instead of {y.tolist()}"
        )
        return
    try:
        other = independent(file, case, y)
    except ct.CanteraError:
        rec.count("independent_failed")
        other = None
    if "speed" not in entry:
        rec.count("solver_failed")
        if speed != 0:
            rec.violation(f"{what}: the solver failed, but the speed is {speed}")
        return
    want = entry["speed"] if entry["speed"] > 0.05 else 0.0
    if speed != want:
        rec.violation(f"{what}: reported speed {speed!r}, the solution has {entry['speed']!r}")
        return
    if other is not None and other > 0.06:
        rec.count("independent")
        rec.maximum("speed_difference", abs(speed - other) / other)
        if abs(speed - other) > (0.07 if other > 0.4 else 0.2) * other:
            rec.violation(f"{what}: speed {speed} m/s, independently {other} m/s")
    if data is None:
        return
    data = np.asarray(data)
    if data.shape != (20, 2 + gas.n_species):
        rec.violation(f"{what}: sampled data have shape {data.shape}")
        return
    profile = np.column_stack([entry["temperatures"], entry["mass_fractions"]])
    for row in data:
        rec.count("profile_rows")
        values = np.concatenate([row[:1], row[2:]])
        if abs(row[1] - p) > 1e-6 * p:
            rec.violation(f"{what}: sampled pressure {row[1]} Pa, the case has {p} Pa")
            return
        if not np.any(np.all(np.abs(profile - values) <= 1e-9 * np.abs(profile) + 1e-15, axis=1)):
            rec.violation(f"{what}: sampled state {row.tolist()} is not on the profile")
            return


def speeds(rng, low, rec):
    """Speeds around the minimum."""
    out = []
    for _ in range(int(rng.integers(1, 4))):
        how = int(rng.integers(6))
        if how == 0:
            rec.count("at_minimum")
            out.append(low)
        elif how == 1:
            rec.count("just_above")
            out.append(float(np.nextafter(low, 9.0)))
        elif how == 2:
            rec.count("below")
            out.append(float(np.nextafter(low, -9.0)))
        elif how == 3:
            rec.count("below")
            out.append(float(rng.choice([0.0, -low, -1.0, 0.3 * low])))
        else:
            out.append(float(low * 10 ** rng.uniform(0.001, 2)))
    return out


def minimum(task, rng, rec):
    """A speed counts exactly if it is above the minimum, for every caller."""
    from pymars import sampling
    from pymars.sampling import InputLaminarFlame
    from pymars.simulation import FlameSimulation

    file = reactors.model_file("h2o2")
    mix = dict(equivalence_ratio=1.0, fuel={"H2": 1.0}, oxidizer={"O2": 1.0, "N2": 3.76})
    for k in range(16):
        config = [None, None, 0.01, 0.3, 1e-6, 2.5, 0.0][int(rng.integers(7))]
        low = 0.05 if config is None else config
        rec.count("configured_minimum", config is not None)
        given = speeds(rng, low, rec)
        cases = [InputLaminarFlame(300.0 + i, 1.0, 0.05, **mix) for i in range(len(given))]
        table = {300.0 + i: v for i, v in enumerate(given)}
        want = [v if v > low else 0.0 for v in given]
        what = f"speeds {given}, minimum {config}"
        rec.case(what)
        with Faults(speeds=table):
            got = sampling.sample_metrics(file, [], flame_conditions=cases, min_flame_speed=config)
            if list(map(float, got)) != want:
                rec.violation(f"{what}: metrics {list(got)}, expected {want}")
                return
            for name in sampling.data_files.values():
                if os.path.isfile(name):
                    os.remove(name)
            try:
                got, _ = sampling.sample(
                    file, [], flame_conditions=cases, min_flame_speed=config
                )
                got = list(map(float, got))
            except (Exception, SystemExit):
                got = None
            if got != (want if all(want) else None):
                rec.violation(f"{what}: sampling gives {got}, expected {want}")
                return
            for call in ("run_case", "calculate", "process_results"):
                sim = FlameSimulation(0, cases[0], file, min_flame_speed=config)
                sim.setup_case()
                try:
                    value = getattr(sim, call)()
                    value = float(value[0] if call == "process_results" else value)
                except RuntimeError:
                    value = None
                expected = want[0] if want[0] or call == "calculate" else None
                if value != expected:
                    rec.violation(f"{what}: {call} gives {value}, expected {expected}")
                    return


def reduction(task, rng, rec):
    """A candidate is accepted exactly if its flame is above the minimum."""
    from pymars.pymars import main
    from pymars.sampling import InputLaminarFlame

    file = reactors.model_file("h2o2")
    mix = dict(equivalence_ratio=1.0, fuel={"H2": 1.0}, oxidizer={"O2": 1.0, "N2": 3.76})
    method = ("DRG", "DRGEP", "PFA", "", "DRG", "DRGEP")[task["i"] % 6]
    sa = task["i"] % 6 >= 3
    config = [None, 0.01, 0.3, 2.0][int(rng.integers(4))]
    low = 0.05 if config is None else config
    rec.count("configured_minimum", config is not None)
    # others can have an importance of one, which no threshold removes
    removable = str(rng.choice(["AR", "H2O2", "HO2", "O", "H"] if sa else ["AR", "H2O2"]))
    n = int(rng.integers(1, 3))
    cases = [InputLaminarFlame(300.0 + i, 1.0, 0.05, **mix) for i in range(n)]
    # the original is just above the minimum, so that errors stay small
    table = {300.0 + i: float(low * (1.001 + 0.05 * rng.random())) for i in range(n)}
    speed = speeds(rng, low, rec)[0]
    if speed <= 0 or speed > 1.2 * low:
        speed = float(low * rng.choice([0.95, 0.999999, 1.000001, 1.02]))
    bad = float(cases[int(rng.integers(n))].temperature)
    others = [s for s in ct.Solution(file).species_names if s not in (removable, "H2")]
    what = (
        f"{method}, sensitivity analysis {sa}, minimum {config}, speeds {table}; "
        f"without {removable} {speed!r} at {bad} K"
    )
    rec.count("reductions")
    rec.case(what)
    with Faults({("flame", bad): Fault(speed=speed, lacking=removable)}, table):
        try:
            model = main(
                file, 40.0, [], flame_conditions=cases, method=method, target_species=["H2"],
                safe_species=others, run_sensitivity_analysis=sa, upper_threshold=1.0,
                sensitivity_type=str(rng.choice(["initial", "greedy"])), min_flame_speed=config,
            )
            kept = removable in model.model.species_names
        except SystemExit:
            # already the first candidates were rejected
            rec.count("nothing_removed")
            kept = True
    if speed > low and kept:
        rec.violation(f"{what}: {removable} is kept although there is a flame without it")
    elif speed <= low and not kept:
        rec.violation(f"{what}: {removable} is removed although there is no flame without it")
    rec.count("rejected" if kept else "accepted")
