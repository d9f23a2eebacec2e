"""R12: a failing candidate is rejected; a failing original model stops the run."""

import os

import cantera as ct
import numpy as np

from vp import faults, gen, reactors
from vp.faults import Fault, Faults

LEVEL = "exploration"
TECHNIQUE = (
    "fault injection with outcome monitors: failures are injected at chosen cases, steps and "
    "models (and provoked by real inputs), serially and in parallel; metrics, errors, results "
    "and files are compared with what a failure must lead to"
)
NOTE = (
    "Real simulations; only the failing integrator step, continuation or flame solve is injected "
    "(flames that succeed get a given speed without being solved). Whole reductions run with "
    "candidates that fail because of one missing species."
)
RULE = (
    "One case = one evaluation, sampling run or reduction with failures. Non-trivial: at least "
    "one failure occurred. Distinct by cases, failures and number of processes."
)
ASSUMPTIONS = ["failures show up as CanteraError or RuntimeError, as Cantera and SciPy raise them"]
REQUIRED_EVENTS = (
    "candidate", "baseline", "reductions", "stuck_candidates", "fault_ignition", "fault_psr",
    "fault_flame", "late_faults", "slow_flames", "natural_faults", "parallel",
    "baseline_stopped", "candidates_rejected", "crippled", "no_heat_release",
)
MIN_CASES = 60


def tasks(tier, seed):
    f = 1 if tier == "quick" else 20
    out = [dict(kind="inert", seed=seed, i=0)]
    for kind, n in (("cripple", 24), ("stuck", 12), ("reduction", 16), ("candidate", 32), ("baseline", 32)):
        out += [dict(kind=kind, seed=seed, i=i) for i in range(n * f)]
    return out


def run_task(task, rec):
    rng = gen.rng_of("r12", task["kind"], task["seed"], task["i"])
    dict(
        inert=inert, candidate=candidate, baseline=baseline, reduction=reduction, stuck=stuck, cripple=cripple
    )[task["kind"]](task, rng, rec)


MIX = dict(equivalence_ratio=1.0, fuel={"H2": 1.0}, oxidizer={"O2": 1.0, "N2": 3.76})
INERT = dict(reactants={"N2": 1.0, "AR": 1.0})


class Workload:
    """Cases of all phenomena with distinct temperatures, and the failures among them."""

    def __init__(self, rng, rec, most=2, natural=True, single=False):
        from pymars.sampling import InputIgnition, InputLaminarFlame, InputPSR

        self.ign, self.psr, self.flame = [], [], []
        self.speeds, self.faults, self.failing = {}, {}, []
        n = dict(
            ignition=int(rng.choice([0, 1, 2, 4])),
            psr=int(rng.choice([0, 0, 1, 2])),
            flame=int(rng.choice([0, 1, 2, 3])),
        )
        if not sum(n.values()):
            n["ignition"] = 2
        where = [(k, i) for k in n for i in range(n[k])]
        rng.shuffle(where)
        number = 1 if single else int(rng.integers(1, most + 1))
        bad = set(tuple(w) for w in [(str(k), int(i)) for k, i in where[:number]])
        self.minimum = [None, None, 0.2, 0.01][int(rng.integers(4))]
        low = 0.05 if self.minimum is None else self.minimum
        self.error_kinds = set()
        for i in range(n["ignition"]):
            t = 1100.0 + 37.0 * i
            extra = dict(MIX)
            if ("ignition", i) in bad:
                rec.count("fault_ignition")
                how = str(rng.choice(
                    ["first", "step", "step", *(["steps", "end", "inert"] if natural else [])]))
                if how in ("steps", "end", "inert"):
                    rec.count("natural_faults")
                if how == "first":
                    self.faults[("ignition", t)] = Fault(0)
                elif how == "step":
                    rec.count("late_faults")
                    self.faults[("ignition", t)] = Fault(int(rng.integers(1, 60)))
                elif how == "steps":
                    extra["max_steps"] = int(rng.choice([1, 5, 30]))
                elif how == "end":
                    extra["end_time"] = float(rng.choice([1e-9, 1e-6]))
                else:
                    extra = dict(INERT, max_steps=int(rng.choice([50, 2000])))
            elif rng.random() < 0.3:
                extra["end_time"] = 0.05
            kind = str(rng.choice(["constant volume", "constant pressure"]))
            self.ign.append(InputIgnition(kind, t, 1.0, **extra))
        for i in range(n["psr"]):
            t = 310.0 + 41.0 * i
            extra = dict(MIX)
            if ("psr", i) in bad:
                rec.count("fault_psr")
                if natural and rng.random() < 0.3:
                    rec.count("natural_faults")
                    extra = dict(INERT)
                else:
                    self.faults[("psr", t)] = Fault(
                        error=str(rng.choice(["cantera", "runtime"])))
            self.psr.append(InputPSR(t, 1.0, **extra))
        for i in range(n["flame"]):
            t = 300.0 + 19.0 * i
            self.speeds[t] = float(low * 10 ** rng.uniform(0.001, 1.5))
            if rng.random() < 0.2:
                self.speeds[t] = float(np.nextafter(low, 1.0))
            if ("flame", i) in bad:
                rec.count("fault_flame")
                how = int(rng.integers(6))
                if how < 2:
                    self.faults[("flame", t)] = Fault()
                else:
                    rec.count("slow_flames")
                    self.faults[("flame", t)] = Fault(
                        speed=[low, low * 0.999, 0.0, -0.3][how - 2])
            self.flame.append(InputLaminarFlame(t, 1.0, 0.05, **MIX))
        self.bad = bad
        self.n = n

    def cases(self):
        return self.ign, self.psr, self.flame

    def describe(self):
        return (
            f"ignition {[tuple(c) for c in self.ign]}, psr {[tuple(c) for c in self.psr]}, flame "
            f"{[tuple(c) for c in self.flame]} with speeds {self.speeds} (minimum "
            f"{self.minimum}), failing {sorted(self.bad)} "
            f"{ {k: vars(v) for k, v in self.faults.items()} }"
        )


def candidate(task, rng, rec):
    """Metrics and error of a candidate that fails in some cases."""
    from pymars.sampling import calculate_error, sample_metrics

    work = Workload(rng, rec)
    file = reactors.model_file("h2o2")
    threads = 1 if task["i"] % 2 else int(rng.choice([2, 3]))
    rec.count("candidate")
    rec.count("parallel", threads != 1)
    kwargs = dict(num_threads=threads, min_flame_speed=work.minimum)
    what = f"{threads} processes, {work.describe()}"
    rec.sample(what[:600])
    clean = []
    with Faults(speeds=work.speeds):
        from pymars.simulation import IgnitionSimulation, PSRSimulation

        steps = {}
        for i, case in enumerate(work.ign):
            sim = IgnitionSimulation(i, case, file)
            sim.setup_case()
            clean.append([float(sim.calculate())])
            steps[i] = sim.v_steps
        for i, case in enumerate(work.psr):
            sim = PSRSimulation(i, case, file)
            sim.setup_case()
            clean.append([float(v) for v in sim.calculate()])
        clean += [[work.speeds[c.temperature]] for c in work.flame]
    want, original = [], []
    index = [(k, i) for k in ("ignition", "psr", "flame") for i in range(work.n[k])]
    for (kind, i), values in zip(index, clean):
        lost = (kind, i) in work.bad
        fault = work.faults.get((kind, work.ign[i].temperature)) if kind == "ignition" else None
        if fault is not None and fault.at > steps[i]:
            lost = False  # ignites before the failure
        want += [0.0] * len(values) if lost else values
        original += [v or 1.0 for v in values]
    with Faults(work.faults, work.speeds, "events.log") as hooks:
        got = np.asarray(sample_metrics(file, *work.cases(), **kwargs))
    happened = any("fault" in e for e in hooks.events()) or not all(want)
    rec.case(what, happened)
    want = np.array(want)
    if got.shape != want.shape or np.any((got == 0) != (want == 0)) or np.abs(
        got - want
    ).max() > 1e-9 * np.abs(want).max():
        rec.violation(f"{what}: metrics {got.tolist()}, expected {want.tolist()}")
        return
    rec.count("cases_lost", int((want == 0).sum()))
    error = calculate_error(np.array(original), got)
    if not np.all(got) and error != 100.0:
        rec.violation(f"{what}: error {error} for metrics {got.tolist()} of {original}")


def listing(folder="."):
    return sorted(os.path.join(d, f) for d, _, fs in os.walk(folder) for f in fs)


def baseline(task, rng, rec):
    """The original model fails in some case: no data, no model, an error."""
    from pymars import sampling
    from pymars.pymars import main

    work = Workload(rng, rec)
    file = reactors.model_file("h2o2")
    threads = 1 if task["i"] % 2 else int(rng.choice([2, 3]))
    whole = rng.random() < 0.4
    rec.count("baseline")
    rec.count("parallel", threads != 1)
    method = str(rng.choice(["DRG", "DRGEP", "PFA", ""])) if whole else "sampling"
    what = f"{method or 'sensitivity analysis'}, {threads} processes, {work.describe()}"
    rec.sample(what[:600])
    before = listing()
    result = None
    with Faults(work.faults, work.speeds, "events.log") as hooks:
        try:
            if whole:
                result = main(
                    file, 10.0, work.ign, work.psr, work.flame, method=method,
                    target_species=["H2"], safe_species=["O2", "N2"],
                    run_sensitivity_analysis=not method, num_threads=threads,
                    min_flame_speed=work.minimum,
                )
            else:
                result = sampling.sample(
                    file, *work.cases(), num_threads=threads, min_flame_speed=work.minimum
                )
            failed = None
        except (Exception, SystemExit) as exc:
            failed = exc
    rec.case(what, True)
    rec.count("faults_thrown", sum("fault" in e for e in hooks.events()))
    if failed is None:
        rec.violation(f"{what}: the run does not stop but returns {str(result)[:200]}")
        return
    rec.count("baseline_stopped")
    if isinstance(failed, SystemExit) and not failed.code:
        rec.violation(f"{what}: the run ends without an error")
        return
    new = [os.path.basename(f) for f in listing() if f not in before]
    for kind in ("ignition", "psr", "flame"):
        if any(k == kind for k, _ in work.bad):
            names = {sampling.data_files[f"data_{kind}"], sampling.data_files[f"output_{kind}"]}
            stored = sorted(names & set(new))
            if stored:
                rec.violation(f"{what}: {stored} are stored although a case fails")
                return
    models = [f for f in new if f.endswith((".yaml", ".yml"))]
    if models:
        rec.violation(f"{what}: model files {models} are written")


def reduction(task, rng, rec):
    """Candidates that lack one species fail; the reduction goes on and keeps it."""
    from pymars.pymars import main

    method = ("DRG", "DRGEP", "PFA", "")[task["i"] % 4]
    sa = not method or rng.random() < 0.5
    work = Workload(rng, rec, natural=False)
    work.faults.clear()
    file = reactors.model_file("h2o2")
    vital = str(rng.choice(["AR", "H2O2", "HO2", "O"]))
    kinds = [k for k in ("ignition", "psr", "flame") if work.n[k]]
    kind = str(rng.choice(kinds))
    cases = dict(ignition=work.ign, psr=work.psr, flame=work.flame)[kind]
    case = cases[int(rng.integers(len(cases)))]
    low = 0.05 if work.minimum is None else work.minimum
    fault = Fault(
        int(rng.choice([0, 1, 10])),
        error="cantera" if kind != "psr" else str(rng.choice(["cantera", "runtime"])),
        speed=None if kind != "flame" or rng.random() < 0.5 else low,
        lacking=vital,
    )
    limit = float(rng.choice([99.0, 50.0, 20.0]))
    threads = int(rng.choice([1, 1, 2]))
    rec.count("reductions")
    rec.count("parallel", threads != 1)
    what = (
        f"{method} sensitivity analysis {sa}, limit {limit}, {threads} processes, without {vital} "
        f"{kind} at {case.temperature} K fails ({vars(fault)}), {work.describe()}"
    )
    with Faults({(kind, case.temperature): fault}, work.speeds, "events.log") as hooks:
        try:
            model = main(
                file, limit, work.ign, work.psr, work.flame, method=method,
                target_species=["H2", "O2"], safe_species=["N2", "H2O"],
                run_sensitivity_analysis=sa, upper_threshold=0.3,
                sensitivity_type=str(rng.choice(["initial", "greedy"])), num_threads=threads,
                min_flame_speed=work.minimum,
            )
        except SystemExit:
            rec.count("ended_without_model")
            return
    rejected = sum("fault" in e for e in hooks.events())
    rec.count("candidates_rejected", rejected)
    rec.case(what, rejected > 0)
    if vital not in model.model.species_names:
        rec.violation(
            f"{what}: the result {model.model.species_names} with error {model.error} % lacks it"
        )


def stuck(task, rng, rec):
    """Real models without important radicals: hardly anything reacts any more."""
    from pymars.reduce_model import trim
    from pymars.sampling import InputIgnition, sample_metrics

    name = "syngas" if task["i"] % 3 == 2 else "h2o2"
    file = reactors.model_file(name)
    gone = [str(s) for s in rng.permutation(["H", "HO2", "O", "OH", "HO2"])[:2]]
    gone = sorted(set(gone[: int(rng.integers(1, 3))]))
    model = trim(file, gone, "candidate.yaml")
    model.write_yaml("candidate.yaml")
    cases = [
        InputIgnition(
            str(rng.choice(["constant volume", "constant pressure"])),
            float(rng.uniform(800, 1600)),
            float(10 ** rng.uniform(-1, 1.7)),
            **reactors.mixture(rng, name),
        )
        for _ in range(2)
    ]
    rec.count("stuck_candidates", len(cases))
    got = sample_metrics("candidate.yaml", cases)
    for case, value in zip(cases, got):
        what = f"{name} without {gone}: {tuple(case)}"
        rec.case(what)
        rec.count("stuck_without_ignition", value == 0)
        expected = reactors.independent_delay("candidate.yaml", case, t_max=1e3)
        other = reactors.independent_delay("candidate.yaml", case, t_max=1e3, atol=1e-15)
        if "HO2" in gone or expected is None or other is None or abs(expected[1] - other[1]) > 0.01 * other[1]:
            # no ignition, or one that only starts from rounding errors
            continue
        rec.count("stuck_but_igniting")
        if value and abs(value - np.mean(expected)) > 0.02 * value:
            rec.violation(f"{what}: ignition delay {value}, independently {expected}")
        elif not value and expected[1] < 1.0:
            rec.violation(f"{what}: no ignition delay, independently {expected}")


def cripple(task, rng, rec):
    """Real candidates of any kind: every phenomenon gives a metric, zero if there is none."""
    from pymars.reduce_model import trim
    from pymars.sampling import InputIgnition, InputLaminarFlame, InputPSR, sample_metrics

    name = "syngas" if task["i"] % 3 == 2 else "h2o2"
    file = reactors.model_file(name)
    mix = dict(equivalence_ratio=1.0, fuel={"H2": 1.0}, oxidizer={"O2": 1.0, "AR": 3.0})
    others = [s for s in ct.Solution(file).species_names if s not in ("H2", "O2", "AR")]
    products = ["H2O", "OH", "HO2", "H2O2"]
    how = task["i"] % 3
    if how == 0:
        # nothing that could release heat
        gone = products + [s for s in ("H", "O", "N2") if rng.random() < 0.4]
    elif how == 1:
        gone = ["H2O"] + [s for s in others if rng.random() < 0.4]
    else:
        gone = [s for s in others if rng.random() < rng.choice([0.2, 0.6])]
    gone = sorted(set(gone) & set(others))
    model = trim(file, gone, "candidate.yaml")
    model.write_yaml("candidate.yaml")
    gas = ct.Solution("candidate.yaml")
    t = float(rng.choice([300.0, 600.0]))
    flame = [InputLaminarFlame(t, 1.0, 0.03, **mix)]
    gas.TPY = t, 101325.0, reactors.mass_fractions(gas, flame[0])
    gas.equilibrate("HP")
    dead = gas.T < t + 10.0
    kind = ("flame", "psr", "ignition")[int(rng.integers(3))] if not dead else "all"
    ign = [InputIgnition("constant pressure", float(rng.uniform(900, 1500)), 1.0, **mix)]
    psr = [InputPSR(t, 1.0, **mix)]
    what = f"{name} without {gone}: {kind} at {t} K"
    rec.count("crippled")
    rec.count("no_heat_release", dead)
    rec.case(what)
    try:
        got = list(map(float, sample_metrics(
            "candidate.yaml", ign if kind in ("ignition", "all") else [],
            psr_conditions=psr if kind in ("psr", "all") else [],
            flame_conditions=flame if kind in ("flame", "all") else [],
        )))
    except Exception as exc:
        rec.violation(f"{what}: the candidate is not rejected, but {type(exc).__name__}: {exc}")
        return
    want = dict(flame=1, psr=3, ignition=1, all=5)[kind]
    if len(got) != want or not np.all(np.isfinite(got)):
        rec.violation(f"{what}: metrics {got}")
    elif dead and any(got[1:4]):
        rec.violation(f"{what}: metrics {got} although no heat can be released")
    elif dead and got[4]:
        rec.violation(f"{what}: flame speed {got[4]} without any heat release", key=UNIFORM)


#: the solution of a flame problem without heat release, of uniform temperature, has any speed
UNIFORM = "speed-of-uniform-temperature"


def inert(task, rng, rec):
    """A mixture that cannot burn stops the run."""
    from pymars.sampling import InputLaminarFlame, sample

    file = reactors.model_file("h2o2")
    case = InputLaminarFlame(600.0, 1.0, 0.03, reactants={"N2": 1.0, "AR": 1.0})
    rec.case(tuple(case))
    rec.count("inert_baseline")
    try:
        metrics, _ = sample(file, [], flame_conditions=[case])
    except (RuntimeError, ct.CanteraError):
        return
    rec.violation(f"a mixture of N2 and AR has a flame of {list(metrics)} m/s", key=UNIFORM)


assert ct and faults
