"""R17: the PSR extinction curve solves the reactor equations up to the turning point."""

import cantera as ct
import numpy as np

from vp import gen, reactors

LEVEL = "exploration"
TECHNIQUE = (
    "monitor with independent oracle: every traced curve is checked against the governing "
    "equations, conservation laws and a transient stirred reactor integrated with Cantera"
)
NOTE = (
    "Real continuation runs over mechanisms and inlet states. The transient reactor network "
    "(other equations of state variables, other solver) must find the same burning states, and "
    "must blow out just below the reported extinction residence time."
)
RULE = (
    "One case = one traced curve. Non-trivial: at least 10 points. Distinct by mechanism and "
    "inlet."
)
ASSUMPTIONS = [
    "the residual of the scaled equations is below 1e-6 at sampled points",
    "branch temperatures are compared with the transient reactor to 0.2 %, at residence times "
    "at least 5 % above extinction; blow-out is tested 10 % below it",
]
REQUIRED_EVENTS = (
    "curves", "branch_states_compared", "blow_outs", "repeated", "sampled_rows", "traced_onwards",
)
MIN_CASES = 25


def tasks(tier, seed):
    n = 48 if tier == "quick" else 900
    out = []
    for i in range(n):
        name = "gri30" if i % 24 == 7 else ("syngas" if i % 3 == 1 else "h2o2")
        out.append(dict(seed=seed, i=i, mech=name))
    return out


class Stirred:
    """Transient adiabatic constant-pressure stirred reactor."""

    def __init__(self, file, t_in, p, y_in):
        self.file, self.inlet = file, (t_in, p, y_in)

    def run(self, tau, start, residence_times=400.0):
        """Temperature and mass fractions after many residence times."""
        gas_in, gas = ct.Solution(self.file), ct.Solution(self.file)
        gas_in.TPY = self.inlet
        gas.TPY = start[0], self.inlet[1], start[1]
        upstream = ct.Reservoir(gas_in, clone=False)
        downstream = ct.Reservoir(gas_in, clone=True)
        reactor = ct.IdealGasConstPressureReactor(gas, clone=False)
        mdot = reactor.mass / tau
        ct.MassFlowController(upstream, reactor, mdot=mdot)
        ct.MassFlowController(reactor, downstream, mdot=mdot)
        net = ct.ReactorNet([reactor])
        net.rtol, net.atol = 1e-8, 1e-16
        net.advance(residence_times * tau)
        return reactor.T, reactor.Y.copy()


def residual(gas, p, inlet, point):
    """Scaled residual norms (species, enthalpy) at (tau, T, Y)."""
    t_in, y_in = inlet
    gas.TPY = t_in, p, y_in
    h_in = gas.enthalpy_mass
    scale = gas.cp_mass * 1000.0
    tau, t, y = point
    gas.set_unnormalized_mass_fractions(np.asarray(y))
    gas.TP = t, p
    w = gas.net_production_rates * gas.molecular_weights / gas.density
    species = np.abs((y - y_in) - tau * w).max()
    return species, abs(gas.enthalpy_mass - h_in) / scale


def run_task(task, rec):
    from pymars.psr_solver import trace_extinction_curve
    from pymars.sampling import InputPSR
    from pymars.simulation import PSRSimulation

    rng = gen.rng_of("r17", task["seed"], task["i"])
    name = task["mech"]
    file = reactors.model_file(name)
    case = InputPSR(
        temperature=float(rng.uniform(298, 1100 if task["i"] % 4 == 2 else 700)),
        pressure=float(10 ** rng.uniform(-0.4, 1.2)),
        **reactors.mixture(rng, name),
    )
    what = f"{name} {case}"
    p = case.pressure * 101325.0
    # the inlet of the run itself: rounding decides whether some curves can be traced
    sim = PSRSimulation(0, case, file)
    sim.setup_case()
    gas = sim.gas
    y_in = reactors.mass_fractions(gas, case)
    rec.count("inlets")
    if (
        abs(gas.T - case.temperature) > 1e-9 * gas.T
        or abs(gas.P - p) > 1e-9 * p
        or np.abs(gas.Y - y_in).max() > 1e-9
    ):
        rec.violation(f"{what}: the inlet is {gas.T} K, {gas.P} Pa, {gas.mass_fraction_dict()}")
        return
    y_in = gas.Y.copy()
    inlet = (case.temperature, y_in)
    gas.TPY = gas.T, gas.P, y_in
    try:
        result = trace_extinction_curve(gas, stop_at_extinction=True)
    except (RuntimeError, ct.CanteraError):
        rec.count("untraceable")
        rec.case(what, False)
        values = np.asarray(sim.calculate())
        if values.shape != (3,) or np.any(values != 0):
            rec.violation(f"{what}: no curve can be traced, but the metrics are {values.tolist()}")
        return
    gas = ct.Solution(file)
    branch = np.asarray(result["branch"])
    points = result["points"]
    rec.count("curves")
    rec.count("branch_points", len(branch))
    rec.case(what, len(branch) >= 10)
    rec.sample(dict(case=str(case), points=len(branch), extinction=float(points["extinction"][0])))
    gas.TPY = case.temperature, p, y_in
    gas.equilibrate("HP")
    t_ad = gas.T
    atoms = reactors.atoms_matrix(gas)
    for key in ("extinction", "near_0.1s", "log_mid"):
        species, energy = residual(gas, p, inlet, points[key])
        rec.maximum("species_residual", species)
        rec.maximum("enthalpy_residual", energy)
        rec.count("sampled_points")
        if species > 1e-6 or energy > 1e-6:
            rec.violation(f"{what}: point {key} does not solve the equations: {species}, {energy}")
        y = np.asarray(points[key][2])
        drift = np.abs((y - y_in) @ atoms).max() / (y_in @ atoms).max()
        rec.maximum("element_drift", drift)
        if drift > 1e-5 or abs(y.sum() - 1) > 1e-5 or y.min() < -1e-6:
            rec.violation(f"{what}: point {key} does not conserve elements: {drift}")
    taus, temps = branch[:, 0], branch[:, 1]
    rec.maximum("above_adiabatic", (temps.max() - t_ad) / t_ad)
    if temps.min() < case.temperature * (1 - 1e-6) or temps.max() > 1.2 * t_ad:
        rec.violation(f"{what}: temperatures {temps.min()}..{temps.max()}, adiabatic {t_ad}")
    ext, near, mid = (points[k] for k in ("extinction", "near_0.1s", "log_mid"))
    for want, got, label in (
        (taus.min(), ext, "extinction"),
        (taus[np.argmin(np.abs(taus - 0.1))], near, "near_0.1s"),
        (taus[np.argmin(np.abs(taus - np.sqrt(ext[0] * near[0])))], mid, "log_mid"),
    ):
        if abs(got[0] - want) > 1e-9 * want:
            rec.violation(f"{what}: {label} is at {got[0]!r} s, expected the point at {want!r} s")
            return
        k = int(np.argmin(np.abs(taus - got[0])))
        if abs(temps[k] - got[1]) > 1e-9 * got[1]:
            rec.violation(f"{what}: {label} has {got[1]!r} K, the branch {temps[k]!r} K there")
    transient(rng, file, case, p, y_in, branch, points, rec, what)
    onwards(rng, gas, inlet, p, branch, points, rec, what)
    simulation(sim, ext, mid, near, p, rec, what)


def transient(rng, file, case, p, y_in, branch, points, rec, what):
    reactor = Stirred(file, case.temperature, p, y_in)
    taus, temps = branch[:, 0], branch[:, 1]
    ext = points["extinction"]
    # a reactor started far above may be carried over the edge: start it from every sampled state
    starts = [points[k][1:] for k in ("extinction", "log_mid", "near_0.1s")]
    # points beyond the turning point are on the other branch
    fold = int(np.argmin(taus))
    stable = [k for k in range(fold) if taus[k] >= 1.05 * ext[0]]
    rng.shuffle(stable)
    for k in stable[:3]:
        found = []
        for start in starts:
            found.append(reactor.run(taus[k], start)[0])
            if abs(found[-1] - temps[k]) <= 2e-3 * temps[k]:
                break
        difference = min(abs(t - temps[k]) / temps[k] for t in found)
        rec.count("branch_states_compared")
        rec.maximum("branch_temperature_difference", difference)
        if difference > 2e-3:
            rec.violation(
                f"{what}: at {taus[k]!r} s the branch has {temps[k]!r} K, the reactor {found} K"
            )
            return
    for start in starts[:2]:
        t, _ = reactor.run(0.9 * ext[0], start)
        rec.count("blow_outs")
        rec.maximum("temperature_below_extinction", (t - case.temperature) / ext[1])
        if t > case.temperature + 0.5 * (ext[1] - case.temperature):
            rec.violation(
                f"{what}: extinction at {ext[0]!r} s, {ext[1]!r} K, but at 90 % of that residence "
                f"time the reactor still burns at {t!r} K"
            )
            return


def onwards(rng, gas, inlet, p, branch, points, rec, what):
    """Following the curve past the turning point makes no difference to the burning branch."""
    from pymars.psr_solver import trace_extinction_curve

    gas.TPY = inlet[0], p, inlet[1]
    more = int(rng.choice([3, 20, 60, 150]))
    try:
        result = trace_extinction_curve(
            gas, stop_at_extinction=False, max_steps=2 * len(branch) + more
        )
    except (RuntimeError, ct.CanteraError):
        rec.count("untraceable_onwards")
        return
    rec.count("traced_onwards")
    rec.case((what, "onwards", more), len(branch) >= 10)
    further = np.asarray(result["branch"])
    rec.count("points_past_extinction", max(len(further) - len(branch), 0))
    n = min(len(branch), len(further))
    if np.abs(further[:n] / branch[:n] - 1).max() > 1e-6:
        rec.violation(f"{what}: traced onwards, the burning branch is another one")
        return
    for key, point in points.items():
        other = result["points"][key]
        if (
            abs(other[0] - point[0]) > 1e-6 * point[0]
            or abs(other[1] - point[1]) > 1e-6 * point[1]
            or np.abs(np.asarray(other[2]) - point[2]).max() > 1e-6
        ):
            rec.violation(
                f"{what}: traced onwards, {key} is {other[0]!r} s, {other[1]!r} K instead of "
                f"{point[0]!r} s, {point[1]!r} K"
            )
            return
    # all of the curve solves the equations: temperatures stay between inlet and equilibrium
    if further[:, 1].min() < inlet[0] - 1 or further[:, 0].min() < 0.999 * points["extinction"][0]:
        rec.violation(
            f"{what}: traced onwards, the curve reaches {further[:, 1].min()!r} K, "
            f"{further[:, 0].min()!r} s; extinction is at {points['extinction'][0]!r} s"
        )


def simulation(sim, ext, mid, near, p, rec, what):
    want = np.array([ext[0], mid[1], near[1]])
    values = [np.asarray(sim.calculate())]
    metrics, data = sim.process_results()
    values += [np.asarray(metrics), np.asarray(sim.run_case()), np.asarray(sim.calculate())]
    rec.count("repeated", 3)
    for v in values:
        if v.shape != (3,) or np.abs(v - want).max() > 1e-6 * want.max() or (
            abs(v[0] - want[0]) > 1e-6 * want[0]
        ):
            rec.violation(f"{what}: metrics {v.tolist()}, the curve gives {want.tolist()}")
            return
    data = np.asarray(data)
    rec.count("sampled_rows", len(data))
    for row, point in zip(data, (ext, mid, near)):
        if (
            abs(row[0] - point[1]) > 1e-6 * point[1]
            or abs(row[1] - p) > 1e-9 * p
            or np.abs(row[2:] - point[2]).max() > 1e-6
        ):
            rec.violation(f"{what}: sampled row {row.tolist()}, the point is {point}")
            return
    if len(data) != 3:
        rec.violation(f"{what}: {len(data)} rows sampled")
