"""R13: results do not depend on the number of processes or on scheduling."""

import multiprocessing
import os
import shutil

import numpy as np

from vp import gen, reactors, virtual
from vp.reductions import Case

LEVEL = "exploration"
TECHNIQUE = (
    "trace monitor with injected delays: every simulated case of serial and parallel runs is "
    "logged with its process; results are compared with the serial definition, and the log with "
    "exactly-once execution"
)
NOTE = (
    "Virtual simulations with delays drawn per case force other orders of completion; real "
    "ignition cases and whole reductions are compared bit by bit between serial and parallel runs."
)
RULE = (
    "One case = one sampling or metric evaluation under one schedule. Non-trivial: more than one "
    "process took part. Distinct by workload, number of processes and order of completion."
)
ASSUMPTIONS = ["schedules are those that delays of up to 60 ms per case and the kernel produce"]
REQUIRED_EVENTS = (
    "sample", "metrics", "orders_permuted", "failing_cases", "real_runs", "reductions",
    "all_but_one", "processes_seen", "psr_cases", "more_processes_than_cases",
)
MIN_CASES = 40


def tasks(tier, seed):
    f = 1 if tier == "quick" else 25
    out = []
    for kind, n in (("virtual", 60), ("failing", 20), ("reduction", 10), ("real", 8)):
        out += [dict(kind=kind, seed=seed, i=i) for i in range(n * f)]
    return out


def run_task(task, rec):
    rng = gen.rng_of("r13", task["kind"], task["seed"], task["i"])
    dict(virtual=virtual_run, failing=failing, reduction=reduction, real=real)[task["kind"]](
        task, rng, rec
    )


class Cores:
    """The machine seems to have a given number of cores."""

    def __init__(self, number):
        self.number = number

    def __enter__(self):
        self.old = multiprocessing.cpu_count, os.cpu_count, os.sched_getaffinity
        multiprocessing.cpu_count = os.cpu_count = lambda: self.number
        os.sched_getaffinity = lambda pid: set(range(self.number))

    def __exit__(self, *exc):
        multiprocessing.cpu_count, os.cpu_count, os.sched_getaffinity = self.old


def workload(rng, cases=None):
    case = Case(rng, method="DRG", n_species=(3, 6), modes=["additive", "hash"])
    case.cases = cases or dict(
        ignition=int(rng.choice([0, 1, 2, 5, 12])),
        psr=int(rng.choice([0, 1, 3, 11])),
        flame=int(rng.choice([0, 1, 2, 5, 13])),
    )
    if not sum(case.cases.values()):
        case.cases["psr"] = 3
    case.path = ""
    case.landscape.fatal = frozenset()
    case.landscape.species = frozenset(case.species)
    return case


def schedule(rng):
    """Random delay per case; sometimes the first ones are the slowest."""
    mode = int(rng.integers(4))
    salt = int(rng.integers(2**31))

    def delay(kind, idx):
        if mode == 0:
            return 0.0
        if mode == 1:
            return 0.03 * max(0, 2 - idx)
        return 0.04 * virtual.unit(salt, kind, idx) ** 2

    return delay


def once(case, events, rec, what):
    """Every case of every phenomenon was simulated exactly once."""
    wanted = sorted((k, i) for k in case.cases for i in range(case.cases[k]))
    seen = sorted((e["kind"], e["idx"]) for e in events)
    if seen != wanted:
        rec.violation(f"{what}: simulated {seen}, the cases are {wanted}")
        return False
    # the conditions belong to the index
    ign, psr, flame = case.conditions()
    for e in events:
        conditions = dict(ignition=ign, psr=psr, flame=flame)[e["kind"]][e["idx"]]
        if e["case"] != list(map(repr, conditions)):
            rec.violation(f"{what}: case {e['idx']} was run with {e['case']}, not {conditions}")
            return False
    order = [(e["kind"], e["idx"]) for e in events]
    rec.count("orders_permuted", order != sorted(order, key=lambda e: (
        ("ignition", "psr", "flame").index(e[0]), e[1])))
    rec.count("processes_seen", len({e["pid"] for e in events}))
    return True


def virtual_run(task, rng, rec):
    from pymars import sampling

    case = workload(rng)
    case.prepare()
    threads = int(rng.choice([0, 1, 2, 2, 3, 4, 8, 16]))
    cores = int(rng.choice([1, 2, 4, 8]))
    rec.count("all_but_one", threads == 0)
    rec.count("psr_cases", case.cases["psr"])
    rec.count("more_processes_than_cases", threads > max(case.cases.values()))
    ign, psr, flame = case.conditions()
    sampled = task["i"] % 2 == 0
    what = (
        f"{'sampling' if sampled else 'metrics'}, {threads} processes ({cores} cores), {case.cases}"
    )
    rec.sample(what)
    rec.count("sample" if sampled else "metrics")
    removed = []
    if not sampled:
        removed = [str(s) for s in case.species if rng.random() < 0.3][:2]
    kept = frozenset(case.species) - set(removed)
    file = case.mechanism_name
    if removed and len(kept) > 1:
        from pymars.reduce_model import trim

        trim(file, removed, "t.yaml", case.phase).write_yaml("part.yaml")
        file = "part.yaml"
    else:
        kept = frozenset(case.species)
    with virtual.Virtual(
        case.landscape, "events.log", schedule(rng), ends=True
    ) as v, Cores(cores):
        kwargs = dict(
            psr_conditions=psr, flame_conditions=flame, phase_name=case.phase if file != "part.yaml"
            else "", num_threads=threads,
        )
        if sampled:
            metrics, data = sampling.sample(file, ign, **kwargs)
        else:
            metrics, data = sampling.sample_metrics(file, ign, **kwargs), None
    allowed = threads or max(cores - 1, 1)
    rec.count("at_once", v.most_at_once())
    if v.most_at_once() > allowed:
        rec.violation(f"{what}: {v.most_at_once()} simulations at once, allowed are {allowed}")
    events = [e for e in v.events() if e["ev"] in ("sample", "metric")]
    if not once(case, events, rec, what):
        return
    order = [(e["kind"], e["idx"]) for e in events]
    rec.case((what, order, case.landscape.seed), len({e["pid"] for e in events}) > 1)
    want = case.landscape.metrics(case.cases, kept)
    if np.shape(metrics) != (len(want),) or np.any(np.asarray(metrics) != np.array(want)):
        rec.violation(f"{what}: metrics {np.asarray(metrics).tolist()}, expected {want}")
    if sampled:
        gas = gen.solution(case.data)
        rows = [
            virtual.states(case.landscape.seed, kind, idx, gas)
            for kind in ("ignition", "psr", "flame")
            for idx in range(case.cases[kind])
        ]
        rows = np.concatenate(rows)
        if np.shape(data) != rows.shape or np.any(np.asarray(data) != rows):
            rec.violation(
                f"{what}: the sampled states (shape {np.shape(data)}) are not those of the cases "
                f"in order (shape {rows.shape})"
            )


def failing(task, rng, rec):
    """One case of the original model fails: the same error, whoever runs it."""
    from pymars import sampling

    case = workload(rng)
    case.prepare()
    kinds = [k for k in case.cases if case.cases[k]]
    kind = str(rng.choice(kinds))
    index = int(rng.integers(case.cases[kind]))
    case.landscape.zero_cases = frozenset([(kind, index)])
    ign, psr, flame = case.conditions()
    seen = []
    for threads in (1, int(rng.choice([2, 3, 8]))):
        os.makedirs(str(threads))
        os.chdir(str(threads))
        shutil.copy(os.path.join("..", case.mechanism_name), ".")
        rec.count("failing_cases")
        try:
            with virtual.Virtual(case.landscape, "events.log", schedule(rng)) as v:
                sampling.sample(
                    case.mechanism_name, ign, psr_conditions=psr, flame_conditions=flame,
                    phase_name=case.phase, num_threads=threads,
                )
            seen.append(None)
        except (Exception, SystemExit) as exc:
            seen.append((type(exc).__name__, str(exc)))
        ran = [(e["kind"], e["idx"]) for e in v.events()]
        again = sorted({e for e in ran if ran.count(e) > 1})
        if again:
            rec.violation(
                f"{threads} processes, {case.cases}, failing {kind} {index}: simulated {again} "
                "more than once"
            )
        with virtual.Virtual(case.landscape, "metrics.log", schedule(rng)) as v:
            metrics = sampling.sample_metrics(
                case.mechanism_name, ign, psr_conditions=psr, flame_conditions=flame,
                phase_name=case.phase, num_threads=threads,
            )
        want = case.landscape.metrics(case.cases, frozenset(case.species))
        what = f"{threads} processes, {case.cases}, failing {kind} {index}"
        if np.shape(metrics) != (len(want),) or np.any(np.asarray(metrics) != np.array(want)):
            rec.violation(f"{what}: metrics {np.asarray(metrics).tolist()}, expected {want}")
        once(case, v.events(), rec, what)
        os.chdir("..")
        rec.case((what, case.landscape.seed), threads > 1)
    if seen[0] is None or seen[0] != seen[1]:
        rec.violation(
            f"{case.cases}, failing {kind} {index}: one process gives {seen[0]}, several {seen[1]}"
        )


def outcome(model):
    if model is None:
        return None
    with open(model.filename) as fh:
        text = [line for line in fh if not line.startswith(("date:", "description"))]
    return (
        list(model.model.species_names), model.error, os.path.basename(model.filename),
        sorted(model.limbo_species or []), text,
    )


def reduction(task, rng, rec):
    """Whole reductions: the same result for any number of processes."""
    method = ("DRG", "DRGEP", "PFA", "")[task["i"] % 4]
    case = Case(rng, method=method, n_species=(4, 6))
    case.tune_limit(rng)
    case.path = ""
    results = []
    numbers = (1, int(rng.choice([2, 3, 5])))
    for threads in numbers:
        os.makedirs(f"t{threads}")
        os.chdir(f"t{threads}")
        case.prepare()
        case.threads = threads
        model, _ = case.run(delays=None)
        results.append(outcome(model))
        os.chdir("..")
    rec.count("reductions")
    rec.case((case.landscape.seed, numbers), True)
    if results[0] != results[1]:
        a, b = [r and r[:4] for r in results]
        rec.violation(f"{case.describe()}: one process gives {a}, {numbers[1]} processes {b}")


def real(task, rng, rec):
    """Real simulations give identical numbers in other processes."""
    from pymars import sampling
    from pymars.sampling import InputIgnition, InputPSR

    file = reactors.model_file("h2o2")
    mix = dict(equivalence_ratio=1.0, fuel={"H2": 1.0}, oxidizer={"O2": 1.0, "N2": 3.76})
    ign = [
        InputIgnition(str(rng.choice(["constant volume", "constant pressure"])),
                      float(rng.uniform(1000, 1500)), float(rng.choice([1.0, 10.0])), **mix)
        for _ in range(int(rng.choice([4, 11])))
    ]
    psr = [InputPSR(float(rng.uniform(298, 500)), 1.0, **mix) for _ in range(2)]
    results = []
    numbers = (1, int(rng.choice([2, 4])))
    path = "deep" if rng.random() < 0.5 else ""
    for threads in numbers:
        os.makedirs(f"t{threads}")
        os.chdir(f"t{threads}")
        if path:
            os.makedirs(path)
        metrics, data = sampling.sample(
            os.path.join("..", file), ign, psr_conditions=psr, num_threads=threads, path=path
        )
        again = sampling.sample_metrics(
            os.path.join("..", file), ign, psr_conditions=psr, num_threads=threads, path=path
        )
        os.chdir("..")
        results.append((np.asarray(metrics), np.asarray(data), np.asarray(again)))
    rec.count("real_runs")
    rec.case((tuple(ign), tuple(psr), numbers), True)
    for a, b, name in zip(*results, ("metrics", "sampled states", "metrics evaluated alone")):
        if a.shape != b.shape or np.any(a != b):
            rec.violation(
                f"{name} differ between one and {numbers[1]} processes for {ign} {psr}: "
                f"{a.shape} {b.shape} {np.abs(a - b).max() if a.shape == b.shape else ''}"
            )
            return
