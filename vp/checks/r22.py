"""R22: invalid inputs are rejected before any work; valid ones are taken over exactly."""

import ast
import copy
import os
import shutil

import cantera as ct
import yaml

from vp import gen, reactors, virtual
from vp.faults import Fault, Faults
from vp.reductions import Case

LEVEL = "exploration"
TECHNIQUE = (
    "mutation workload with monitors on every simulation: each broken input must raise before the "
    "first simulation or file; of each valid input, every condition that arrives at a simulation "
    "and every file written is compared with direct calls of the methods"
)
NOTE = (
    "Valid inputs with every phenomenon and option; broken ones by dropping, corrupting or "
    "combining one entry, anywhere in the lists. Simulations are virtual, so that whole "
    "reductions are run for every valid input."
)
RULE = (
    "One case = one input, read as dictionary and as file by the program. Distinct by input. All "
    "are non-trivial."
)
ASSUMPTIONS = ["entries that the documentation does not mention are not given"]
REQUIRED_EVENTS = (
    "broken_rejected", "broken_later_case", "valid_parsed", "valid_run", "conditions_arrived",
    "defaults_used", "options_given", "two_phases", "flame_limit_arrived", "parallel",
)
MIN_CASES = 400

KINDS = dict(
    ignition="autoignition-conditions", psr="psr-conditions", flame="laminar-flame-conditions"
)
DROP = object()
NAN = float("nan")


def tasks(tier, seed):
    f = 1 if tier == "quick" else 25
    out = []
    for kind, n in (("broken", 24), ("valid", 72), ("flame", 12)):
        out += [dict(kind=kind, seed=seed, i=i) for i in range(n * f)]
    return out


def run_task(task, rec):
    rng = gen.rng_of("r22", task["kind"], task["seed"], task["i"])
    dict(broken=broken, valid=valid, flame=flame)[task["kind"]](task, rng, rec)


# workloads ------------------------------------------------------------------


def mixture(rng, names, rec):
    """Entries for the mixture, and those expected in the parsed condition."""
    amount = lambda: [1.0, 3.76, 2, 1e-6, 0.25][int(rng.integers(5))]  # noqa: E731
    some = [str(s) for s in rng.permutation(names)[: int(rng.integers(2, 5))]]
    if rng.random() < 0.5:
        k = max(1, len(some) // 2)
        new = {
            "equivalence-ratio": [0.5, 1.0, 2, 0.01][int(rng.integers(4))],
            "fuel": {s: amount() for s in some[:k]},
            "oxidizer": {s: amount() for s in some[k:]},
        }
        if rng.random() < 0.3:
            new["composition-type"] = "mole"
        return new
    new = {"reactants": {s: amount() for s in some}}
    if rng.random() < 0.6:
        new["composition-type"] = str(rng.choice(["mole", "mass"]))
    return new


def conditions(rng, names, cases, rec):
    """Conditions as in an input file."""
    out = {}
    for kind, key in KINDS.items():
        if not cases[kind]:
            if rng.random() < 0.2:
                out[key] = []
            continue
        out[key] = []
        for i in range(cases[kind]):
            c = dict(
                temperature=[1000, 1000.5, 300.0, 2500.0][int(rng.integers(4))] + i,
                pressure=[1, 1.0, 0.01, 40.0][int(rng.integers(4))],
            )
            if kind == "ignition":
                c["kind"] = str(rng.choice(["constant volume", "constant pressure"]))
                if rng.random() < 0.4:
                    c["end-time"] = [10.0, 1, 1e-3][int(rng.integers(3))]
                if rng.random() < 0.4:
                    c["max-steps"] = [1, 5000, 20000][int(rng.integers(3))]
            if kind == "flame" and rng.random() < 0.6:
                c["width"] = [0.02, 1, 0.5][int(rng.integers(3))]
            c.update(mixture(rng, names, rec))
            items = list(c.items())
            rng.shuffle(items)
            out[key].append({str(k): v for k, v in items})
    return out


def expected(kind, c):
    """The condition with the documented defaults, as a plain tuple."""
    head = {
        "ignition": lambda: (
            c["kind"], c["temperature"], c["pressure"], c.get("end-time", 0.0),
            c.get("max-steps", 10000),
        ),
        "psr": lambda: (c["temperature"], c["pressure"]),
        "flame": lambda: (c["temperature"], c["pressure"], c.get("width", 0.1)),
    }[kind]()
    return (
        *head, c.get("equivalence-ratio", 0.0), dict(c.get("fuel", {})),
        dict(c.get("oxidizer", {})), dict(c.get("reactants", {})),
        c.get("composition-type", "mole"),
    )


def plain(values):
    """A condition as found in the code, with empty mixtures of any kind as {}."""
    return tuple({} if v in ([], (), None, {}) else v for v in values)


def build(rng, rec, method=None, sa=None):
    """Case and input dictionary."""
    case = Case(rng, method=method, sa=sa, n_species=(5, 9))
    case.landscape.fatal = frozenset()
    if rng.random() < 0.4:
        case.limit = float(rng.choice([1e-6, 100.0, 250.0, 5]))
    inputs = case.input_dict()
    inputs.pop("retained-species")
    if case.safe or rng.random() < 0.5:
        inputs["retained-species"] = list(case.safe)
    elif rng.random() < 0.5:
        rec.count("defaults_used")
    if not case.sa and rng.random() < 0.3:
        inputs["sensitivity-analysis"] = False
    if rng.random() < 0.3:
        inputs["min-flame-speed"] = [0.01, 0.3, 0.0, 2][int(rng.integers(4))]
    if case.sa and rng.random() < 0.3:
        rec.count("defaults_used")
        inputs.pop("sensitivity-type")
        case.algorithm = "initial"
    for key in KINDS.values():
        inputs.pop(key, None)
    inputs.update(conditions(rng, case.species, case.cases, rec))
    if rng.random() < 0.4:
        # a phase with fewer species comes first in the file
        rec.count("two_phases")
        names = case.data["phases"][0]["species"]
        other = copy.deepcopy(case.data["phases"][0])
        other["name"] = "other"
        other["species"] = names[: len(names) // 2]
        other["reactions"] = "declared-species"
        other["skip-undeclared-third-bodies"] = True
        trial = copy.deepcopy(case.data)
        trial["phases"].insert(0, other)
        try:
            gen.solution(trial, "other")
            case.data = trial
            case.phase = inputs["phase-name"] = "gas"
        except ct.CanteraError:
            pass
    case.mechanism_name = inputs["model"] = str(rng.choice(["mech.yaml", "a.mech.yml"]))
    rec.count("options_given", len(inputs))
    return case, inputs


def listing():
    return sorted(
        os.path.join(base, name)
        for base, _, files in os.walk(".")
        for name in files
        if not name.endswith(".log")
    )


# invalid inputs -------------------------------------------------------------


def anywhere(inputs, rng):
    """Some condition of the input: (kind, its index, the condition)."""
    found = [
        (kind, i, c) for kind, key in KINDS.items() for i, c in enumerate(inputs.get(key, []))
    ]
    return found[int(rng.integers(len(found)))]


def catalogue(inputs, case, rng):
    """All breakages applicable: name -> function on a copy of the input."""
    out = {}

    def top(name, key, *values):
        for v in values:
            def act(d, v=v):
                if v is DROP:
                    d.pop(key, None)
                else:
                    d[key] = v
            out[f"{name} {key} {'dropped' if v is DROP else repr(v)}"] = act

    top("top", "model", DROP, "", "nofile.yaml", None)
    top("top", "phase-name", "nophase", "GAS")
    top("top", "error", DROP, 0, 0.0, -5.0, NAN, None, "ten")
    top("top", "method", "drg", "DRGASA", "PFAX", "directed relation graph")
    top("top", "sensitivity-type", "random", "Greedy", "initial greedy")
    top("top", "targets", ["nospecies"], [*inputs["targets"], "x"])
    top("top", "targets", [*inputs["targets"], case.species[0] + "z"])
    top("top", "retained-species", ["nospecies"], [case.species[0], case.species[1] + "_"])
    if inputs.get("method"):
        top("top", "targets", DROP, [])

    def neither(d):
        d.pop("method", None)
        d["sensitivity-analysis"] = False

    def neither2(d):
        d.pop("method", None)
        d.pop("sensitivity-analysis", None)

    out["neither method nor analysis"] = neither
    out["neither method nor analysis given"] = neither2

    def nothing(d):
        for key in KINDS.values():
            d.pop(key, None)

    def empty(d):
        for key in KINDS.values():
            d[key] = []

    out["no conditions"] = nothing
    out["empty conditions"] = empty
    if len(case.data["phases"]) > 1:
        top("other phase", "phase-name", "other")
    return out


def breakages(kind, c, names):
    """Breakages of one condition."""
    out = {}

    def put(key, *values):
        for v in values:
            def act(d, v=v):
                if v is DROP:
                    d.pop(key, None)
                else:
                    d[key] = v
            out[f"{key} {'dropped' if v is DROP else repr(v)}"] = act

    put("temperature", DROP, 0, 0.0, -300.0, NAN, None, "hot")
    put("pressure", DROP, 0, -1.0, NAN, None, "low")
    if kind == "ignition":
        put("kind", DROP, "", "constant temperature", "Constant volume", "constant", "volume", None)
    if kind == "flame":
        put("width", 0, 0.0, -0.1, NAN, None, "wide")
    put("composition-type", "molar", "Mole", "masses", "m", None, "")

    def amounts(key):
        for v in (0, 0.0, -1.0, NAN, None, "much"):
            def act(d, v=v):
                last = list(d[key])[-1]
                d[key] = dict(d[key], **{last: v})
            out[f"{key} amount {v!r}"] = act

        def unknown(d):
            d[key] = dict(d[key], nospecies=1.0)

        def only(d):
            d[key] = {"nospecies": 1.0}

        def lower(d):
            d[key] = {list(d[key])[0] + "x": 1.0, **d[key]}

        out[f"{key} unknown"] = unknown
        out[f"{key} only unknown"] = only
        out[f"{key} misspelt"] = lower

    if "reactants" in c:
        amounts("reactants")
        put("reactants", DROP, {})
        for extra in (
            dict(fuel={names[0]: 1.0}), dict(oxidizer={names[0]: 1.0}), {"equivalence-ratio": 1.0},
            {"fuel": {names[0]: 1.0}, "oxidizer": {names[1]: 1.0}, "equivalence-ratio": 1.0},
        ):
            def act(d, extra=extra):
                d.update(extra)
            out[f"reactants and {extra}"] = act

        def instead(d):
            d.pop("reactants")
            d["fuel"] = {names[0]: 1.0}

        def instead2(d):
            d.pop("reactants")
            d["equivalence-ratio"] = 1.0

        out["fuel only"] = instead
        out["equivalence ratio only"] = instead2
    else:
        amounts("fuel")
        amounts("oxidizer")
        put("fuel", DROP, {})
        put("oxidizer", DROP, {})
        put("equivalence-ratio", DROP, 0, 0.0, -1.0, NAN, None)
        put("reactants", {names[0]: 1.0})
        put("composition-type", "mass")

        def fuel_only(d):
            d.pop("oxidizer")
            d.pop("equivalence-ratio")

        def oxidizer_only(d):
            d.pop("fuel")
            d.pop("equivalence-ratio")

        def both_mass(d):
            d["composition-type"] = "mass"
            d["reactants"] = {names[0]: 1.0}

        out["fuel only"] = fuel_only
        out["oxidizer only"] = oxidizer_only
        out["mass and everything"] = both_mass
    return out


def broken(task, rng, rec):
    from pymars.pymars import parse_inputs, pymars

    case, inputs = build(rng, rec)
    case.prepare()
    table = []
    top = catalogue(inputs, case, rng)
    table += [(name, None, act) for name, act in top.items()]
    for _ in range(2):
        kind, i, c = anywhere(inputs, rng)
        for name, act in breakages(kind, c, case.species).items():
            table.append((name, (kind, i), act))
    order = rng.permutation(len(table))[:60]
    for n in order:
        name, place, act = table[n]
        bad = copy.deepcopy(inputs)
        act(bad if place is None else bad[KINDS[place[0]]][place[1]])
        if name.startswith("other phase"):
            few = case.data["phases"][0]["species"]
            used = set(bad["targets"]) | set(bad.get("retained-species", []))
            for key in KINDS.values():
                for c in bad.get(key, []):
                    for part in ("fuel", "oxidizer", "reactants"):
                        used |= set(c.get(part, {}))
            if used <= set(few):
                continue
        what = f"{name} of {place or 'the input'}: {bad}"
        rec.case(str(bad))
        rec.sample(what)
        rec.count("broken_later_case", bool(place and place[1]))
        with open("input.yaml", "w") as fh:
            yaml.safe_dump(bad, fh)
        before = listing()
        with virtual.Virtual(case.landscape, "events.log") as v:
            try:
                got = parse_inputs(copy.deepcopy(bad))
            except (Exception, SystemExit):
                got = None
            if got is not None:
                rec.violation(f"accepted: {what}")
                return
            try:
                pymars(["-i", "input.yaml"] + (["--path", case.path] if case.path else []))
                code = 0
            except SystemExit as exc:
                code = exc.code
            except Exception:
                code = 1
            if code in (0, None):
                rec.violation(f"the program accepts: {what}")
                return
            if v.events():
                rec.violation(f"rejected only after simulations: {what}")
                return
        if listing() != before:
            rec.violation(f"files were written for: {what}")
            return
        rec.count("broken_rejected")


# valid inputs ---------------------------------------------------------------


def models(folder, source):
    """Model files below a directory, with their content."""
    found = {}
    for base, _, files in os.walk(folder):
        for name in files:
            full = os.path.join(base, name)
            rel = os.path.relpath(full, folder)
            if name.endswith((".yaml", ".yml")) and rel not in (source, "input.yaml"):
                gas = ct.Solution(full)
                found[rel] = (gas.species_names, gas.reaction_equations())
    return found


class Inside:
    def __init__(self, folder):
        self.folder = folder

    def __enter__(self):
        self.old = os.getcwd()
        os.makedirs(self.folder)
        os.chdir(self.folder)

    def __exit__(self, *exc):
        os.chdir(self.old)


def valid(task, rng, rec):
    from pymars.pymars import parse_inputs, pymars

    method = ("DRG", "DRGEP", "PFA", "", "DRG", "DRGEP")[task["i"] % 6]
    case, inputs = build(rng, rec, method, sa=task["i"] % 6 > 2)
    if task["i"] % 2 == 0 and case.method and len(case.data["phases"]) == 1:
        case.tune_limit(rng)
        inputs["error"] = case.limit
    what = str(inputs)
    rec.case(what)
    rec.sample(what)
    shutil.rmtree("parse", ignore_errors=True)
    with Inside("parse"):
        case.prepare()
        given = copy.deepcopy(inputs)
        parsed = parse_inputs(given)
        if given != inputs:
            rec.violation(f"the input is changed to {given}: {what}")
            return
    rec.count("valid_parsed")
    want = {
        kind: [expected(kind, c) for c in inputs.get(key, [])] for kind, key in KINDS.items()
    }
    got = dict(
        ignition=[plain(c) for c in parsed.ignition_conditions],
        psr=[plain(c) for c in parsed.psr_conditions],
        flame=[plain(c) for c in parsed.flame_conditions],
    )
    if got != want:
        rec.violation(f"conditions {got}, given {want}")
        return
    upper = inputs.get("upper-threshold")
    if upper is None and case.sa:
        rec.count("defaults_used")
        upper = 0.1
    values = dict(
        model=inputs["model"], error=inputs["error"], method=inputs.get("method", ""),
        target_species=inputs["targets"], sensitivity_analysis=case.sa, upper_threshold=upper,
        phase_name=inputs.get("phase-name", ""), min_flame_speed=inputs.get("min-flame-speed"),
    )
    if case.sa:
        values["sensitivity_type"] = case.algorithm
    for name, value in values.items():
        if getattr(parsed, name) != value:
            rec.violation(f"{name} is {getattr(parsed, name)!r}, given {value!r}: {what}")
            return
    named = set()
    for kind in want:
        for c in want[kind]:
            for part in c[-4:-1]:
                named |= set(part)
    retained = set(inputs.get("retained-species", []))
    safe = set(parsed.safe_species)
    if not (retained <= safe and named - set(case.targets) <= safe <= retained | named):
        rec.violation(f"retained species {sorted(safe)}, mixtures name {sorted(named)}: {what}")
        return

    # the program, and the same by the methods' own functions
    argv = ["--input" if rng.random() < 0.5 else "-i", "input.yaml"]
    if case.path:
        argv += ["--path", case.path]
    threads = 1
    if rng.random() < 0.15:
        threads = int(rng.choice([2, 3]))
        argv += ["--num_threads", str(threads)]
        rec.count("parallel")
    with Inside("program"):
        case.prepare()
        with open("input.yaml", "w") as fh:
            yaml.safe_dump(inputs, fh)
        with open("input.yaml", "rb") as fh:
            before = fh.read()
        with virtual.Virtual(case.landscape, "events.log") as v:
            ended = False
            try:
                pymars(argv)
            except SystemExit as exc:
                if exc.code in (0, None):
                    raise
                ended = True
        events = v.events()
        with open("input.yaml", "rb") as fh:
            if fh.read() != before:
                rec.violation(f"the input file was changed: {what}")
                return
    for e in events:
        rec.count("conditions_arrived")
        arrived = plain(ast.literal_eval(r) for r in e["case"])
        if arrived != want[e["kind"]][e["idx"]]:
            rec.violation(
                f"{e['kind']} case {e['idx']} is simulated as {arrived}, given "
                f"{want[e['kind']][e['idx']]}"
            )
            return
    missing = {
        (k, i) for k in want for i in range(len(want[k]))
    } - {(e["kind"], e["idx"]) for e in events}
    if missing:
        rec.violation(f"cases {sorted(missing)} were never simulated: {what}")
        return
    with Inside("library"):
        case.prepare()
        done = library(case, inputs, parsed, upper, safe, want)
    a, b = models("program", inputs["model"]), models("library", inputs["model"])
    rec.count("valid_run")
    if ended != (done is None):
        rec.violation(f"the program ended early: {ended}; the library: {done is None}: {what}")
    elif a != b and not ended:
        rec.violation(
            f"the program left {({k: v[0] for k, v in a.items()})}, the library "
            f"{({k: v[0] for k, v in b.items()})}: {what}"
        )


def library(case, inputs, parsed, upper, safe, want):
    """Direct calls of the methods, with conditions made here."""
    from pymars.sampling import InputIgnition, InputLaminarFlame, InputPSR

    made = (
        [InputIgnition(*c) for c in want["ignition"]],
        [InputPSR(*c) for c in want["psr"]],
        [InputLaminarFlame(*c) for c in want["flame"]],
    )
    case.conditions = lambda: made
    case.upper = upper
    saved, case.safe = case.safe, sorted(safe)
    try:
        model, error, limbo = inputs["model"], 0.0, []
        result = None
        if case.method:
            result, _ = case.run_graph()
            if result is None:
                return None
            model, error, limbo = result.filename, result.error, result.limbo_species
        if case.sa:
            result, _ = case.run_sa(model, error, limbo, case.targets + case.safe)
        return result
    finally:
        case.safe = saved


def flame(task, rng, rec):
    """The minimum flame speed arrives at the flames."""
    from pymars.pymars import pymars

    file = reactors.model_file("h2o2")
    names = ct.Solution(file).species_names
    removable = str(rng.choice(["AR", "H2O2"]))
    config = [None, 0.2, 0.004, 0.0][task["i"] % 4]
    low = 0.05 if config is None else config
    base = 1.01 * max(low, 1e-3)
    # within the error limit of the original, on both sides of the minimum
    above = task["i"] % 8 < 4 or not low
    speed = 1.005 * max(low, 1e-3) if above else 0.995 * low
    inputs = {
        "model": file, "error": 30.0, "targets": ["H2"], "sensitivity-analysis": True,
        "sensitivity-type": str(rng.choice(["initial", "greedy"])),
        "retained-species": [s for s in names if s not in (removable, "H2")],
        "laminar-flame-conditions": [
            {"temperature": 300.0, "pressure": 1.0, "fuel": {"H2": 1.0},
             "oxidizer": {"O2": 1.0}, "equivalence-ratio": 1.0}
        ],
    }
    if config is not None:
        inputs["min-flame-speed"] = config
    if task["i"] % 3:
        inputs["method"] = ("DRG", "DRGEP", "PFA")[int(rng.integers(3))]
        inputs["sensitivity-analysis"] = False
        inputs.pop("sensitivity-type")
    with open("input.yaml", "w") as fh:
        yaml.safe_dump(inputs, fh)
    what = f"flame speed {base}, {speed} without {removable}: {inputs}"
    rec.case(what)
    with Faults({("flame", 300.0): Fault(speed=speed, lacking=removable)}, {300.0: base}):
        try:
            pymars(["-i", "input.yaml"])
        except SystemExit as exc:
            if exc.code in (0, None):
                raise
    removed = os.path.isfile(f"reduced_{len(names) - 1}.yaml")
    rec.count("flame_limit_arrived")
    if removed != above:
        rec.violation(f"{removable} is {'removed' if removed else 'kept'}: {what}")
