"""R10: sensitivity analysis removes the right candidates in the right order."""

import os

from vp import gen, reductions
from vp.reductions import Case

LEVEL = "exploration"
TECHNIQUE = (
    "trace monitor with reference model: real sensitivity analyses over virtual error landscapes; "
    "the result and every simulated model are compared with all outcomes an independent "
    "implementation of the algorithm allows"
)
NOTE = (
    "The real analysis runs with its real files (standalone, after a graph method, and from a "
    "given reduced model with saved samples of the original); only the simulations are replaced "
    "by functions of the species in the file."
)
RULE = (
    "One case = one analysis. Non-trivial: at least one species was removed or a removal was "
    "undone. Distinct by landscape, start and result."
)
ASSUMPTIONS = ["induced errors closer than 1e-9 to each other may be taken in either order"]
REQUIRED_EVENTS = (
    "standalone", "after_graph", "from_saved", "greedy", "initial", "undone", "exhausted",
    "nothing_removable", "with_candidates", "protected_candidates",
    "joint_effects", "some_considered",
)
MIN_CASES = 60


def tasks(tier, seed):
    n = 120 if tier == "quick" else 2500
    return [dict(seed=seed, i=i, kind=("standalone", "after_graph", "from_saved")[i % 3])
            for i in range(n)]


def run_task(task, rec):
    rng = gen.rng_of("r10", task["seed"], task["i"])
    kind = task["kind"]
    case = Case(
        rng,
        method="" if kind != "after_graph" else None,
        sa=True,
        n_species=(3, 9),
        modes=["joint"] if rng.random() < 0.35 else None,
    )
    rec.count("joint_effects", case.landscape.mode == "joint")
    if kind == "after_graph" and not case.method:
        case.method = str(rng.choice(["DRG", "DRGEP", "PFA"]))
        case.limbo = []
    if rng.random() < 0.2:
        # hardly anything may be removed
        case.safe = [s for s in case.species if s not in case.targets and rng.random() < 0.9]
    if rng.random() < 0.5:
        tune(rng, case)
    if kind == "after_graph" and rng.random() < 0.8:
        # an upper threshold that leaves some, but not all, to be considered
        points = [p for p in case.breakpoints() if 0 < p <= 1.0]
        for _ in range(10 if points else 0):
            case.upper = float(rng.choice(points)) * float(rng.choice([0.999, 1.001]))
            first, later = case.kept_at(0.01), case.kept_at(case.upper)
            if later < first and later != case.protected():
                break
    case.prepare()
    rec.count(kind)
    rec.count(case.algorithm)
    run = dict(standalone=standalone, after_graph=after_graph, from_saved=from_saved)[kind]
    run(rng, case, rec)


def tune(rng, case):
    """A limit in between the errors of small removals."""
    errors = []
    for _ in range(12):
        some = [s for s in case.species if rng.random() < 0.3]
        errors.append(case.error(frozenset(case.species) - set(some)))
    errors = [e for e in errors if 0 < e < 99]
    if errors:
        case.limit = float(rng.choice(errors)) * float(rng.choice([0.95, 1.01, 1.5]))


def events_of(v):
    return [e for e in v.events() if e["ev"] == "metric"]


def judge(case, start, start_error, candidates, model, rec, simulated, what):
    rec.sample(case.describe())
    allowed = reductions.reference_sa(
        case.error, start, start_error, case.limit, candidates, case.algorithm
    )
    kept = frozenset(model.model.species_names)
    rec.count("outcomes_allowed", len(allowed))
    rec.count("removed", len(set(start) - kept))
    undone = bool(set(candidates) & kept)
    rec.count("undone", undone)
    rec.count("exhausted", bool(candidates) and not undone)
    rec.count("nothing_removable", not candidates)
    rec.count("some_considered", 0 < len(candidates) < len(set(start) - case.protected()))
    rec.case(
        (case.landscape.seed, case.algorithm, sorted(start), sorted(kept), case.limit),
        kept != frozenset(start) or undone,
    )
    text = (
        f"{what}, {case.algorithm}: from {sorted(start)} ({start_error:.6g} %) with candidates "
        f"{sorted(candidates)}: result {sorted(kept)} ({model.error:.6g} %)"
    )
    match = [e for k, e in allowed if k == kept]
    if not match:
        rec.violation(
            f"{text}; allowed are {[(sorted(k), e) for k, e in allowed][:3]}: {case.describe()}"
        )
    elif min(abs(model.error - e) for e in match) > 1e-6 * max(1.0, model.error):
        rec.violation(f"{text}; the error is {match[0]}: {case.describe()}")
    for species in simulated:
        gone = set(start) - species
        if not gone <= set(candidates):
            rec.violation(
                f"{text}: a model without {sorted(gone - set(candidates))} was evaluated"
            )
            break
        if species - set(start):
            rec.violation(f"{text}: a model with additional {species - set(start)} was evaluated")
            break


def standalone(rng, case, rec):
    case.limbo = []
    model, v = case.run("events.log")
    start = frozenset(case.species)
    candidates = start - case.protected()
    judge(case, start, 0.0, candidates, model, rec,
          [frozenset(e["species"]) for e in events_of(v)], "sensitivity analysis alone")


def after_graph(rng, case, rec):
    # the graph stage alone, in a directory of its own, gives the start and the candidates
    os.makedirs("graph")
    os.chdir("graph")
    case.prepare()
    graph, _ = case.run_graph()
    os.chdir("..")
    model, v = case.run("events.log")
    if graph is None or model is None:
        rec.count("no_model")
        if (graph is None) != (model is None):
            rec.violation(
                f"the graph method {'fails' if graph is None else 'succeeds'} alone, but not "
                f"together with sensitivity analysis: {case.describe()}"
            )
        return
    start = frozenset(graph.model.species_names)
    listed = [s for s in (graph.limbo_species or [])]
    rec.count("with_candidates", bool(listed))
    candidates = frozenset(listed or start) - case.protected()
    if case.error(start) > case.limit:
        rec.count("start_beyond_limit")
    judge(case, start, case.error(start), candidates, model, rec, [], "after " + case.method)


def from_saved(rng, case, rec):
    from pymars import soln2yaml
    from pymars.reduce_model import trim
    from pymars.sampling import sample
    from vp import virtual

    ign, psr, flame = case.conditions()
    with virtual.Virtual(case.landscape):
        sample(case.mechanism_name, ign, psr_conditions=psr, flame_conditions=flame,
               phase_name=case.phase, path=case.path)
    species = list(case.species)
    n_gone = int(rng.integers(0, max(1, len(species) - 2)))
    gone = [str(s) for s in rng.permutation(species)[:n_gone] if s not in case.targets]
    fatal = case.error(frozenset(species) - set(gone)) > case.limit
    if fatal and rng.random() < 0.8:
        gone = []
    start = frozenset(species) - set(gone)
    soln2yaml.write(trim(case.mechanism_name, gone, "s.yaml", case.phase), "start.yaml")
    safe = [s for s in [*case.targets, *case.safe] if s in start]
    limbo = [s for s in case.limbo if s in start]
    if limbo and rng.random() < 0.5:
        limbo += [s for s in safe[:1] if s not in limbo]
    rec.count("with_candidates", bool(limbo))
    rec.count("protected_candidates", bool(set(limbo) & set(safe)))
    error = case.error(start)
    candidates = frozenset(limbo or start) - set(safe)
    arguments = list(safe), list(limbo)
    model, v = case.run_sa("start.yaml", error, arguments[1], arguments[0], "events.log")
    if arguments != (safe, limbo):
        rec.violation(f"the lists of the caller were changed: {arguments}, were {safe}, {limbo}")
    judge(case, start, error, candidates, model, rec,
          [frozenset(e["species"]) for e in events_of(v)], "with saved samples")
