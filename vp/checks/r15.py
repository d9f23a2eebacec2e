"""R15: ignition cases simulate the reactor requested and report its ignition delay."""

import os

import cantera as ct
import h5py
import numpy as np

from vp import gen, reactors

LEVEL = "exploration"
TECHNIQUE = (
    "trace monitor: every recorded state of real ignition runs is checked against the requested "
    "initial state and the conservation laws of the requested reactor; the delay against the "
    "trace and an independent integration"
)
NOTE = (
    "Real simulations of hydrogen, syngas and hydrocarbon cases. The step wrapper is hooked to "
    "count and time the steps actually taken. Trusts Cantera's thermodynamics and CVODES, used "
    "with another reactor formulation and tighter tolerances for the independent delay."
)
RULE = (
    "One case = one simulation (sampling run, metric run, or one with an end time or a step "
    "limit). Non-trivial: it took at least 10 steps or was stopped by a limit. Distinct by "
    "condition and limits."
)
ASSUMPTIONS = [
    "conservation to 1e-5 relative (integrator tolerance 1e-9 over up to 10^4 steps)",
    "the independent delay lies within the crossing step widened by 0.5 %",
]
REQUIRED_EVENTS = (
    "states_checked", "constant_volume", "constant_pressure", "end_time_runs", "limited_runs",
    "delays_compared", "no_ignition_runs", "end_times_at_ignition",
    "after_failure",
)
MIN_CASES = 60


def tasks(tier, seed):
    n = 72 if tier == "quick" else 1500
    out = []
    for i in range(n):
        name = "gri30" if i % 18 == 5 else ("syngas" if i % 3 == 1 else "h2o2")
        out.append(dict(seed=seed, i=i, mech=name))
    return out


class Steps:
    """Counts the steps that the simulations take, and remembers the last times."""

    def __init__(self):
        self.times = []

    def __enter__(self):
        from pymars import simulation

        self.cls = simulation.IgnitionSimulation
        self.old = self.cls._step
        steps = self

        def _step(sim):
            value = steps.old(sim)
            steps.times.append(value)
            return value

        self.cls._step = _step
        return self

    def __exit__(self, *exc):
        self.cls._step = self.old
        return False


def random_case(rng, name):
    from pymars.sampling import InputIgnition

    low, high = (1250, 1700) if name == "gri30" else (950, 1700)
    if name != "gri30" and rng.random() < 0.2:
        low, high = 780, 950  # may take many seconds
    return InputIgnition(
        kind=str(rng.choice(["constant volume", "constant pressure"])),
        temperature=float(rng.uniform(low, high)),
        pressure=float(10 ** rng.uniform(-0.5, 1.4)),
        **reactors.mixture(rng, name),
    )


def run_task(task, rec):
    rng = gen.rng_of("r15", task["seed"], task["i"])
    file = reactors.model_file(task["mech"])
    case = random_case(rng, task["mech"])
    window = reactors.independent_delay(file, case)
    if window is None:
        rec.count("does_not_ignite")
        return
    path = str(rng.choice(["", "out"]))
    os.makedirs("out", exist_ok=True)
    what = f"{task['mech']} {case}"
    rec.count(case.kind.replace(" ", "_"))

    # sampling run
    out = sampled(case, file, path, rec, what)
    if out is None:
        return
    delay, n_steps, trace = out
    judge_trace(case, file, trace, delay, window, rec, what)
    rec.maximum("longest_delay", delay)
    # metric run
    with Steps() as steps:
        value = metric(case, file, path)
    rec.case((what, "metric"), len(steps.times) >= 10)
    if abs(value - delay) > 1e-6 * delay:
        rec.violation(f"{what}: the delay is {delay!r} when sampling, {value!r} without sampling")
    ignition_step = int(np.argmax(trace["temperature"] >= case.temperature + 400.0))
    if task["i"] % 2 == 0:
        after_failure(case, file, path, delay, trace, rec, what)
    limits(rng, case, file, path, delay, ignition_step, n_steps, rec, what)


def metric(case, file, path):
    from pymars.simulation import IgnitionSimulation

    sim = IgnitionSimulation(3, case, file, path=path)
    sim.setup_case()
    return sim.calculate()


def sampled(case, file, path, rec, what):
    from pymars.simulation import IgnitionSimulation

    sim = IgnitionSimulation(3, case, file, path=path)
    sim.setup_case()
    with Steps() as steps:
        delay = sim.run_case()
    with h5py.File(sim.save_file, "r") as fh:
        trace = {k: v[:] for k, v in fh["simulation"].items()}
    again, data = sim.process_results()
    rec.case((what, "sampled"), len(steps.times) >= 10)
    rec.count("steps", len(steps.times))
    if abs(again - delay) > 1e-12 * delay:
        rec.violation(f"{what}: delay {delay!r} of the run, {again!r} of its results")
    times = list(trace["time"])
    if times[0] != 0.0 or any(b <= a for a, b in zip(times, times[1:])):
        rec.violation(f"{what}: recorded times do not increase from zero")
    if steps.times and (
        len(times) != len(steps.times) + 1 or not np.allclose(times[1:], steps.times, rtol=1e-12)
    ):
        rec.violation(
            f"{what}: {len(steps.times)} steps were taken, {len(times) - 1} are recorded"
        )
    sim.clean()
    return delay, len(times) - 1, trace


def judge_trace(case, file, trace, delay, window, rec, what):
    gas = ct.Solution(file)
    t, p, y = trace["temperature"], trace["pressure"], trace["mass_fractions"]
    time = trace["time"]
    want = reactors.mass_fractions(gas, case)
    if abs(t[0] - case.temperature) > 1e-9 * case.temperature:
        rec.violation(f"{what}: the run starts at {t[0]!r} K")
    if abs(p[0] - case.pressure * 101325.0) > 1e-9 * p[0]:
        rec.violation(f"{what}: the run starts at {p[0]!r} Pa, {case.pressure} atm requested")
    if np.abs(y[0] - want).max() > 1e-9:
        k = int(np.abs(y[0] - want).argmax())
        rec.violation(
            f"{what}: the run starts with Y_{gas.species_name(k)} = {y[0][k]!r}, "
            f"requested {want[k]!r}"
        )
    atoms = y @ reactors.atoms_matrix(gas)
    drift = np.abs(atoms - atoms[0]).max() / atoms[0].max()
    rec.maximum("element_drift", drift)
    if drift > 1e-5 or np.abs(y.sum(axis=1) - 1).max() > 1e-6:
        rec.violation(f"{what}: elements are not conserved: {drift:.3g}")
    chosen = np.unique(np.linspace(0, len(t) - 1, 60).astype(int))
    energy, fixed = [], []
    for k in chosen:
        gas.TPY = t[k], p[k], y[k]
        rec.count("states_checked")
        if case.kind == "constant pressure":
            energy.append(gas.enthalpy_mass)
            fixed.append(p[k])
        else:
            energy.append(gas.int_energy_mass)
            fixed.append(gas.density)
    scale = gas.cp_mass * 1000.0
    e = np.abs(np.array(energy) - energy[0]).max() / scale
    f = np.abs(np.array(fixed) / fixed[0] - 1.0).max()
    rec.maximum("energy_drift", e)
    rec.maximum("fixed_quantity_drift", f)
    name = ("enthalpy", "pressure") if case.kind == "constant pressure" else ("energy", "density")
    if e > 1e-5:
        rec.violation(f"{what}: {name[0]} drifts by {e:.3g} of cp * 1000 K")
    if f > 1e-5:
        rec.violation(f"{what}: {name[1]} drifts by {f:.3g}")
    hot = np.nonzero(t >= case.temperature + 400.0)[0]
    if not len(hot) or abs(time[hot[0]] - delay) > 1e-12 * delay:
        rec.violation(
            f"{what}: delay {delay!r}, the temperature rose by 400 K at "
            f"{time[hot[0]] if len(hot) else None!r}"
        )
        return
    rec.count("delays_compared")
    lo, hi = time[hot[0] - 1] * 0.995, delay * 1.005
    rec.maximum("delay_step_width", delay / max(time[hot[0] - 1], 1e-300) - 1)
    if window[1] < lo or window[0] > hi:
        rec.violation(
            f"{what}: ignites between {time[hot[0] - 1]!r} and {delay!r} s, an independent "
            f"integration between {window[0]!r} and {window[1]!r} s"
        )
    # by default the run goes on to the steady state
    gas.TPY = t[0], p[0], y[0]
    gas.equilibrate("HP" if case.kind == "constant pressure" else "UV")
    off = abs(gas.T - t[-1]) / gas.T
    rec.maximum("final_temperature_off_equilibrium", off)
    if off > 1e-2:
        rec.violation(f"{what}: the run ends at {t[-1]!r} K, the steady state is at {gas.T!r} K")


def after_failure(case, file, path, delay, trace, rec, what):
    """What an earlier, failed run has left behind makes no difference."""
    from pymars import sampling

    other = case._replace(end_time=delay * 0.1, pressure=case.pressure * 1.7)
    try:
        sampling.sample(file, [other], path=path)
    except RuntimeError:
        pass
    else:
        rec.violation(f"{what}: sampled although it does not ignite by {other.end_time!r} s")
        return
    metrics, data = sampling.sample(file, [case], path=path)
    for name in sampling.data_files.values():
        if os.path.isfile(name):
            os.remove(name)
    rec.count("after_failure")
    rec.case((what, "after failure"))
    if len(metrics) != 1 or abs(metrics[0] - delay) > 1e-6 * delay:
        rec.violation(f"{what}: after a failed run the delay is {list(metrics)}, was {delay!r}")
    elif not np.isin(data[:, 0], trace["temperature"]).all():
        rec.violation(f"{what}: after a failed run the states are not those of the trace")


def limits(rng, case, file, path, delay, ignition_step, n_steps, rec, what):
    from pymars.simulation import IgnitionSimulation

    def run(other):
        sim = IgnitionSimulation(0, other, file, path=path)
        sim.setup_case()
        with Steps() as steps:
            try:
                value = sim.run_case()
            except RuntimeError:
                value = None
        trace = None
        if os.path.isfile(sim.save_file):
            with h5py.File(sim.save_file, "r") as fh:
                trace = fh["simulation"]["time"][:]
        sim.clean()
        return value, steps.times, trace

    # an end time after and one before ignition
    end = delay * float(rng.choice([1.5, 4.0, 30.0]))
    value, times, trace = run(case._replace(end_time=end))
    rec.count("end_time_runs")
    rec.case((what, "end", end))
    if value is None or abs(value - delay) > 1e-3 * delay:
        rec.violation(f"{what}: with end time {end!r} the delay is {value!r}, without {delay!r}")
    elif trace is not None and not (trace[-1] >= end and (trace[:-1] < end).all()):
        rec.violation(
            f"{what}: end time {end!r} requested, the last steps end at {list(trace[-2:])}"
        )
    value = metric(case._replace(end_time=end), file, path)
    if abs(value - delay) > 1e-3 * delay:
        rec.violation(f"{what}: with end time {end!r} the delay is {value!r}, without {delay!r}")
    # end times around the step in which the mixture ignites
    at = int(np.argmin(np.abs(np.array(times) - delay))) if times else 0
    if value is not None and times and times[at] == value and at:
        before = times[at - 1]
        for end, certain in (
            (value, True),
            (value * (1 - 1e-12), False),
            (before + float(rng.uniform(0.05, 0.95)) * (value - before), False),
        ):
            other = case._replace(end_time=end)
            full = run(other)[0]
            short = metric(other, file, path)
            rec.count("end_times_at_ignition")
            rec.case((what, "end", end))
            if (full or 0.0) != short or (full is not None and full != value):
                rec.violation(
                    f"{what}: ignites in the step from {before!r} to {value!r}; with end time "
                    f"{end!r} the delay is {full!r} when sampling, {short!r} without sampling"
                )
            elif certain and full is None:
                rec.violation(f"{what}: ignites at {value!r}, not found with this end time")
    early = delay * float(rng.choice([0.02, 0.3, 0.6]))
    value, times, trace = run(case._replace(end_time=early))
    rec.count("no_ignition_runs")
    rec.case((what, "early", early))
    if value is not None:
        rec.violation(f"{what}: end time {early!r} gives a delay {value!r} later than that")
    if times and (times[-1] < early or (len(times) > 1 and times[-2] >= early)):
        rec.violation(f"{what}: end time {early!r}, last steps end at {times[-2:]}")
    with Steps() as steps:
        value = metric(case._replace(end_time=early), file, path)
    if value != 0.0:
        rec.violation(f"{what}: end time {early!r} gives the metric {value!r}, not zero")
    if steps.times and (len(steps.times) > 1 and steps.times[-2] >= early):
        rec.violation(f"{what}: end time {early!r}, but steps up to {steps.times[-1]!r}")
    # step limits
    for limit in (
        int(rng.integers(1, max(2, ignition_step - 2))),
        int(rng.integers(ignition_step + 2, max(ignition_step + 3, n_steps - 2))),
        n_steps + int(rng.integers(3, 500)),
    ):
        other = case._replace(max_steps=limit)
        value, times, trace = run(other)
        rec.count("limited_runs")
        rec.case((what, "limit", limit))
        if len(times) > limit:
            rec.violation(f"{what}: {len(times)} steps with at most {limit} requested")
        if limit <= n_steps - 2 and value is not None:
            rec.violation(f"{what}: no steady state in {limit} steps, but the run succeeds")
        if limit >= n_steps + 3 and (value is None or abs(value - delay) > 1e-6 * delay):
            rec.violation(f"{what}: with {limit} steps allowed the delay is {value}, not {delay}")
        with Steps() as steps:
            value = metric(other, file, path)
        if len(steps.times) > limit:
            rec.violation(f"{what}: {len(steps.times)} steps with at most {limit} requested")
        if limit <= ignition_step - 2 and value != 0.0:
            rec.violation(f"{what}: metric {value!r} after {limit} steps, ignition is later")
        if limit >= ignition_step + 2 and abs(value - delay) > 1e-6 * delay:
            rec.violation(f"{what}: metric {value!r} with {limit} steps allowed, delay {delay!r}")
