"""R16: sampled states are the first crossings of the temperature fractions."""

import h5py
import numpy as np

from vp import gen, reactors

LEVEL = "exploration"
TECHNIQUE = (
    "monitor with direct oracle: every sampled row is compared with the first recorded point "
    "that reaches its fraction, on generated profiles and on recorded traces of real runs"
)
NOTE = (
    "Profiles of every shape (coarse, steep, oscillating, overshooting, repeated points, few "
    "points) given to the sampler, and real ignition runs compared with the trace in their file."
)
RULE = (
    "One case = one profile sampled. Non-trivial: some step crosses several fractions, or the "
    "profile is not monotone, or it comes from a real run. Distinct by profile."
)
ASSUMPTIONS = [
    "temperatures within 1e-12 relative of a fraction may count as reaching it or not",
    "the last point is hotter than the first",
]
REQUIRED_EVENTS = ("profiles", "steep", "not_monotone", "real_profiles", "exact_fractions")
MIN_CASES = 500


def tasks(tier, seed):
    n = 32 if tier == "quick" else 800
    return [dict(seed=seed, i=i) for i in range(n)]


def profile(rng):
    kind = str(
        rng.choice(
            ["smooth", "coarse", "jump", "two", "overshoot", "noisy", "linear", "plateau", "dip",
             "tiny-rise", "late-jump"]
        )
    )
    t0 = float(rng.choice([300.0, 1000.0, rng.uniform(280, 2000)]))
    rise = float(rng.choice([2000.0, 1.0, rng.uniform(400, 3000)]))
    n = int(rng.choice([3, 5, 8, 21, 40, 200, 1000]))
    u = np.linspace(0, 1, n)
    if kind == "smooth":
        s = 1 / (1 + np.exp(-(u - 0.6) * float(rng.choice([5, 30, 200]))))
        s = (s - s[0]) / (s[-1] - s[0])
    elif kind == "coarse":
        s = np.concatenate([[0.0], np.sort(rng.random(int(rng.integers(1, 8)))), [1.0]])
    elif kind == "jump":
        s = np.where(u < rng.random(), 0.0, 1.0)
        s[0], s[-1] = 0.0, 1.0
    elif kind == "two":
        s = np.array([0.0, 1.0])
    elif kind == "overshoot":
        s = u + float(rng.uniform(0.1, 3)) * np.sin(np.pi * u) ** 2
    elif kind == "noisy":
        s = u + 0.3 * rng.standard_normal(n)
        s[0], s[-1] = 0.0, 1.0
    elif kind == "linear":
        n = int(rng.choice([21, 41, 11, 101]))
        s = np.linspace(0, 1, n)
    elif kind == "plateau":
        s = np.sort(np.round(u * 4) / 4)
    elif kind == "dip":
        s = u - 0.4 * np.exp(-(((u - 0.3) / 0.1) ** 2))
        s[0], s[-1] = 0.0, 1.0
    elif kind == "late-jump":
        s = np.concatenate([np.zeros(n), [float(rng.uniform(0.02, 0.9)), 1.0]])
    else:
        s = u
        rise = 10 ** float(rng.uniform(-6, -1))
    return kind, t0 + rise * s


def expected(t):
    """For every fraction the indices that may be sampled."""
    out = []
    rise = t[-1] - t[0]
    for k in range(1, 21):
        target = t[0] + 0.05 * k * rise
        allowed = set()
        for tol in (-1e-12, 0.0, 1e-12):
            hit = np.nonzero(t >= min(target * (1 + tol), t[-1]))[0]
            if len(hit):
                allowed.add(int(hit[0]))
        out.append(allowed)
    return out


def judge(t, p, y, data, rec, what):
    n_species = y.shape[1]
    if np.shape(data) != (20, 2 + n_species):
        rec.violation(f"{what}: {np.shape(data)} sampled, expected {(20, 2 + n_species)}")
        return
    rows = np.column_stack([t, p, y])
    for k, allowed in enumerate(expected(t)):
        if not any(np.array_equal(data[k], rows[i]) for i in allowed):
            rec.violation(
                f"{what}: state {k + 1} is T={data[k][0]!r}, p={data[k][1]!r}, "
                f"sum Y={data[k][2:].sum()!r}; the first point at {5 * (k + 1)} % is point "
                f"{sorted(allowed)} with T={[t[i] for i in sorted(allowed)]}"
            )
            return
        if data[k][0] <= 0 or data[k][1] <= 0 or abs(data[k][2:].sum() - 1) > 1e-6:
            rec.violation(f"{what}: state {k + 1} is incomplete: {data[k].tolist()}")
            return


def run_task(task, rec):
    from pymars.simulation import FlameSimulation, IgnitionSimulation

    rng = gen.rng_of("r16", task["seed"], task["i"])
    for _ in range(40):
        kind, t = profile(rng)
        n = len(t)
        p = 101325.0 * np.exp(np.cumsum(rng.standard_normal(n) * 0.01))
        y = rng.dirichlet(np.ones(int(rng.integers(1, 8))), n)
        cls = IgnitionSimulation if rng.random() < 0.7 else FlameSimulation
        data = cls._sample_profile(t.copy(), p.copy(), y.copy())
        steps = np.diff(t) / (t[-1] - t[0])
        rec.count("profiles")
        rec.count("steep", bool((steps > 0.1).any()))
        rec.count("not_monotone", bool((steps < 0).any()))
        rec.count("exact_fractions", kind in ("linear", "plateau"))
        rec.case(t.tobytes(), bool((steps > 0.1).any() or (steps < 0).any()))
        judge(t, p, y, np.asarray(data), rec, f"{cls.__name__}, {kind} profile {t[:30].tolist()}")
    if task["i"] % 2 == 0:
        real(rng, rec, task)


def real(rng, rec, task):
    from pymars.sampling import InputIgnition, sample
    from pymars.simulation import IgnitionSimulation

    name = "h2o2" if task["i"] % 8 else "syngas"
    file = reactors.model_file(name)
    cases = []
    for _ in range(2):
        case = InputIgnition(
            kind=str(rng.choice(["constant volume", "constant pressure"])),
            temperature=float(rng.uniform(1000, 1600)),
            pressure=float(10 ** rng.uniform(-0.3, 1.3)),
            **reactors.mixture(rng, name),
        )
        if rng.random() < 0.3:
            window = reactors.independent_delay(file, case)
            if window:
                case = case._replace(end_time=window[1] * float(rng.choice([1.01, 1.2, 10.0])))
        if reactors.independent_delay(file, case):
            cases.append(case)
    want = []
    for idx, case in enumerate(cases):
        sim = IgnitionSimulation(idx, case, file)
        sim.setup_case()
        sim.run_case()
        with h5py.File(sim.save_file, "r") as fh:
            trace = {k: v[:] for k, v in fh["simulation"].items()}
        _, data = sim.process_results()
        sim.clean()
        t = trace["temperature"]
        rec.count("real_profiles")
        rec.case(("real", t.tobytes()))
        judge(t, trace["pressure"], trace["mass_fractions"], data, rec, f"{name} {case}")
        want.append(data)
    if want:
        _, states = sample(file, cases)
        if np.shape(states) != (20 * len(want), want[0].shape[1]) or not np.allclose(
            states, np.vstack(want), rtol=1e-6, atol=1e-12
        ):
            rec.violation(f"{name} {cases}: sampling gives other states than the single runs")
