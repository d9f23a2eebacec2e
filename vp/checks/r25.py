"""R25: a run writes only its results, where asked, and never touches its inputs."""

import os
import re
import tempfile

import cantera as ct
import yaml

from vp import gen, ops, reactors, virtual
from vp.core import Inconclusive
from vp.faults import Fault, Faults
from vp.reductions import Case

LEVEL = "exploration"
TECHNIQUE = (
    "directory monitor: the real library runs with all methods, directories and error landscapes "
    "(virtual and real simulations, injected failures); all files below the working, output and "
    "temporary directories are read before and after each run and compared with what a run may "
    "leave"
)
NOTE = (
    "Besides the inputs, unrelated files lie in all directories. Failures are injected at random "
    "simulations (errors, interrupts), or come from landscapes and reactors without a usable "
    "result. Conversions must write exactly the files they return."
)
RULE = (
    "One case = one run. Non-trivial: at least one candidate was written, or the run failed "
    "on the way. Distinct by method, landscape, names and directories."
)
ASSUMPTIONS = [
    "no file of the user in the output directory is named like an intermediate or final result "
    "(reduced_N.yaml, N.h5)",
    "numbers may differ by a relative 1e-9 between the returned model and its file",
]
REQUIRED_EVENTS = (
    "completed", "failed", "stages_two", "with_path", "real", "real_failed", "interrupted",
    "conversions", "similar_names", "candidates", "same_directory", "program",
)
MIN_CASES = 80


def tasks(tier, seed):
    f = 1 if tier == "quick" else 25
    out = []
    for kind, n in (("virtual", 110), ("real", 24), ("convert", 12)):
        out += [dict(kind=kind, seed=seed, i=i) for i in range(n * f)]
    return out


def run_task(task, rec):
    rng = gen.rng_of("r25", task["kind"], task["seed"], task["i"])
    os.makedirs("tmp")
    old, tempfile.tempdir = tempfile.tempdir, os.path.abspath("tmp")
    saved = os.environ.get("TMPDIR")
    os.environ["TMPDIR"] = os.path.abspath("tmp")
    try:
        dict(virtual=virtual_run, real=real_run, convert=conversion)[task["kind"]](rng, rec)
    finally:
        tempfile.tempdir = old
        if saved is None:
            del os.environ["TMPDIR"]
        else:
            os.environ["TMPDIR"] = saved


# directories ------------------------------------------------------------------------------

NAMES = (
    "mech.yaml", "mech.yaml", "reduced_model.yaml", "reduced_mech.yaml", "0.yaml", "gas.yaml",
    "my.reduced_2.v1.yaml", "model of today.yaml", "skeletal.yml", "reduced_.yaml",
)
BYSTANDERS = (
    "notes.txt", "mech2.yaml", "reduced_notes.txt", "old.h5", "samples.csv", "reduced_big.yaml",
    "ignition.dat", "reduced.yaml",
)


def snapshot():
    out = {}
    for root, dirs, names in os.walk("."):
        for name in dirs:
            out[os.path.relpath(os.path.join(root, name), ".") + os.sep] = b""
        for name in names:
            path = os.path.relpath(os.path.join(root, name), ".")
            with open(path, "rb") as fh:
                out[path] = fh.read()
    return out


class Places:
    """Where the model lies, where results go, and unrelated files around."""

    def __init__(self, rng, model_name=None):
        self.name = model_name or str(rng.choice(NAMES))
        self.home = str(rng.choice(["", "", "models", os.path.join("a b", "models.v2")]))
        self.path = str(rng.choice(["", "", "out", os.path.join("deep", "out.dir"), "./out", "."]))
        if self.home and rng.random() < 0.3:
            self.path = self.home
        for d in (self.home, self.path):
            if d:
                os.makedirs(d, exist_ok=True)
        self.model = os.path.join(self.home, self.name)
        self.same = os.path.abspath(self.home) == os.path.abspath(self.path)
        for d in {"", self.home, self.path}:
            for name in BYSTANDERS:
                if rng.random() < 0.4 and os.path.join(d, name) != self.model:
                    with open(os.path.join(d, name), "w") as fh:
                        fh.write(f"{name} of the user in {d}\n")
        self.given = self.path
        if rng.random() < 0.2:
            self.model = os.path.abspath(self.model)
        if self.path and rng.random() < 0.3:
            self.given = os.path.abspath(self.path) + str(rng.choice(["", os.sep]))


def unchanged(before, after, rec, where):
    """No file that existed before has changed."""
    ok = True
    for name, data in before.items():
        if name not in after:
            rec.violation(f"{where}: {name}, which existed before the run, is gone")
            ok = False
        elif after[name] != data:
            rec.violation(f"{where}: {name}, which existed before the run, was changed")
            ok = False
    return ok


def sample_files():
    from pymars import sampling

    return {os.path.normpath(f) for f in sampling.data_files.values()}


def judge(rec, where, places, before, after, model, stages):
    """Files after a completed reduction."""
    unchanged(before, after, rec, where)
    new = {n for n in after if n not in before}
    results = []
    folder = os.path.normpath(places.path) if places.path else "."
    for name in sorted(new):
        if name in sample_files() or name.endswith(".log"):
            continue
        base = os.path.basename(name)
        if re.fullmatch(r"reduced_\d+\.yaml", base) and (os.path.dirname(name) or ".") == folder:
            results.append(name)
            continue
        rec.violation(f"{where}: {name} was left behind")
    if model is not None:
        n = model.model.n_species
        if not isinstance(model.filename, str) or not os.path.isfile(model.filename):
            rec.violation(f"{where}: returned file {model.filename!r} does not exist")
            return
        got = os.path.relpath(model.filename, ".")
        if os.path.basename(got) != f"reduced_{n}.yaml":
            rec.violation(f"{where}: file {model.filename} of a model with {n} species")
        if (os.path.dirname(got) or ".") != folder:
            rec.violation(f"{where}: {model.filename} is not inside {places.given!r}")
        if got not in new:
            rec.violation(f"{where}: {model.filename} was not written by this run")
        d = model_difference(model.model, ct.Solution(model.filename))
        if d:
            rec.violation(f"{where}: {model.filename} is not the returned model: {d}")
    if len(results) > stages or not results:
        rec.violation(f"{where}: model files {results} of a run with {stages} stage(s)")
    sizes = []
    for name in results:
        gas = ct.Solution(name)
        sizes.append(set(gas.species_names))
        if os.path.basename(name) != f"reduced_{gas.n_species}.yaml":
            rec.violation(f"{where}: {name} has {gas.n_species} species")
    if len(sizes) == 2 and not (sizes[0] < sizes[1] or sizes[1] < sizes[0]):
        rec.violation(f"{where}: {results} are not successive stages of a reduction")
    if model is not None and sizes:
        final = min(sizes, key=len)
        if final != set(model.model.species_names):
            rec.violation(f"{where}: the smallest model left is not the returned one")


def plain(obj):
    """Input data with sorted keys, without comments."""
    if isinstance(obj, dict):
        return ("dict", tuple((k, plain(v)) for k, v in sorted(obj.items()) if k != "note"))
    if isinstance(obj, (list, tuple)):
        return ("list", tuple(plain(v) for v in obj))
    return float(obj) if isinstance(obj, (int, float)) and not isinstance(obj, bool) else obj


def model_difference(a, b):
    if list(a.species_names) != list(b.species_names):
        return f"species {a.species_names} / {b.species_names}"
    if a.reaction_equations() != b.reaction_equations():
        return f"reactions {a.reaction_equations()} / {b.reaction_equations()}"
    if a.transport_model != b.transport_model:
        return f"transport {a.transport_model} / {b.transport_model}"
    for kind in ("species", "reactions"):
        for x, y in zip(getattr(a, kind)(), getattr(b, kind)()):
            d = ops.difference(plain(x.input_data), plain(y.input_data))
            if d:
                return f"{kind} {x}: {d}"
    return None


# runs -------------------------------------------------------------------------------------


class Stop(Exception):
    pass


def virtual_run(rng, rec):
    case = Case(rng)
    case.tune_limit(rng)
    places = Places(rng)
    case.mechanism_name, case.path = places.model, places.given
    case.threads = 2 if rng.random() < 0.1 else 1
    gen.write(case.data, case.mechanism_name)
    u = rng.random()
    fault = None
    if u < 0.12:
        case.landscape.mode, case.limit = "strict", 0.01
    elif u < 0.2:
        kinds = [k for k in case.cases if case.cases[k]]
        kind = str(rng.choice(kinds))
        case.landscape.zero_cases = frozenset([(kind, int(rng.integers(case.cases[kind])))])
    elif u < 0.35:
        fault = [RuntimeError, MemoryError, KeyboardInterrupt, OSError][int(rng.integers(4))]
        case.threads = 1
        interrupt(case, int(rng.choice([1, 2, 5, 15, 40])), fault)
    program = fault is None and rng.random() < 0.2
    if program:
        with open("input.yaml", "w") as fh:
            yaml.safe_dump(case.input_dict(), fh)
    only = bool(case.method) and not program and rng.random() < 0.3
    before = snapshot()
    model, v, failure = None, None, None
    written = []
    try:
        with Watch(written):
            if program:
                model = run_program(case)
            elif only:
                model, v = case.run_graph()
            else:
                model, v = case.run()
    except (RuntimeError, MemoryError, OSError, KeyboardInterrupt) as exc:
        failure = exc
    after = snapshot()
    where = f"{case.describe()}, model {places.model!r}, path {places.given!r}"
    rec.count("candidates", len(written))
    rec.count("same_directory", places.same)
    done = model is not None
    rec.case((where, program, only), len(written) > 0 or not done)
    if done:
        rec.count("completed")
        rec.count("with_path", bool(places.path))
        rec.count("program", program)
        stages = bool(case.method) + (case.sa and not only)
        rec.count("stages_two", stages == 2)
        judge(rec, where, places, before, after, None if program else model, stages)
        rec.sample(dict(case=case.describe(), left=sorted(set(after) - set(before))))
    else:
        expected = failure is None or fault is not None or case.landscape.zero_cases
        if not expected:
            raise failure
        rec.count("failed")
        rec.count("interrupted", fault is not None and failure is not None)
        unchanged(before, after, rec, where + f", failing with {failure!r}")


class Watch:
    """Records the candidate models written."""

    def __init__(self, out):
        self.out = out

    def __enter__(self):
        from pymars import soln2yaml

        self.module, self.old = soln2yaml, soln2yaml.write

        def write(*args, **kwargs):
            name = self.old(*args, **kwargs)
            self.out.append(name)
            return name

        soln2yaml.write = write

    def __exit__(self, *exc):
        self.module.write = self.old
        return False


def interrupt(case, at, error):
    """The at-th simulation fails."""
    metric, calls = case.landscape.metric, []

    def failing(*args):
        calls.append(1)
        if len(calls) >= at:
            raise error("injected")
        return metric(*args)

    case.landscape.metric = failing


def run_program(case):
    from pymars.pymars import pymars

    argv = ["-i", "input.yaml"] + (["--path", case.path] if case.path else [])
    with virtual.Virtual(case.landscape):
        try:
            pymars(argv)
        except SystemExit:
            return None
    return case


def real_run(rng, rec):
    """Real ignition and reactor simulations, with their intermediate data files."""
    from pymars.pymars import main
    from pymars.sampling import InputIgnition, InputPSR

    places = Places(rng, str(rng.choice(["mech.yaml", "reduced_model.yaml", "0.yaml"])))
    file = reactors.model_file("h2o2")
    os.rename(file, places.model)
    mix = dict(equivalence_ratio=1.0, fuel={"H2": 1.0}, oxidizer={"O2": 1.0, "N2": 3.76})
    ign = [
        InputIgnition(
            str(rng.choice(["constant volume", "constant pressure"])), 1150.0 + 70 * i, 1.0, **mix
        )
        for i in range(int(rng.integers(1, 4)))
    ]
    psr = [InputPSR(300.0 + 20 * i, 1.0, **mix) for i in range(int(rng.choice([0, 0, 1])))]
    faults, total = {}, False
    for k, c in enumerate(ign):
        if rng.random() < 0.4:
            lacking = str(rng.choice(["AR", "H2O2", "HO2"]))
            if rng.random() < 0.2:
                lacking, total = None, True
            faults[("ignition", c.temperature)] = Fault(
                int(rng.choice([0, 3, 60])), lacking=lacking)
    method = str(rng.choice(["DRG", "DRGEP", "PFA", ""]))
    sa = not method or bool(rng.random() < 0.4)
    limit = float(rng.choice([0.5, 5.0, 30.0]))
    kwargs = dict(
        psr_conditions=psr, method=method, target_species=["H2", "OH"], safe_species=["O2", "N2"],
        run_sensitivity_analysis=sa, sensitivity_type=str(rng.choice(["initial", "greedy"])),
        upper_threshold=0.2, path=places.given, num_threads=int(rng.choice([1, 1, 1, 2])),
    )
    before = snapshot()
    written, model, failure = [], None, None
    try:
        with Watch(written), Faults(faults):
            model = main(places.model, limit, ign, **kwargs)
    except (SystemExit, RuntimeError) as exc:
        failure = exc
    after = snapshot()
    where = (
        f"real run, {method or 'no graph method'}{' with sensitivity analysis' if sa else ''}, "
        f"limit {limit}, model {places.model!r}, path {places.given!r}, failing: "
        f"{ {k: vars(v) for k, v in faults.items()} }"
    )
    rec.count("real")
    rec.count("candidates", len(written))
    rec.case((where, kwargs["sensitivity_type"], len(ign), len(psr)), True)
    if model is not None:
        rec.count("completed")
        judge(rec, where, places, before, after, model, bool(method) + sa)
    else:
        rec.count("real_failed")
        if not total and not isinstance(failure, SystemExit):
            raise failure
        unchanged(before, after, rec, where + f", failing with {failure!r}")


def conversion(rng, rec):
    from pymars.tools import convert

    places = Places(rng, str(rng.choice(["mech.yaml", "gas.yaml", "my.mech.yml", "my.v2.yaml"])))
    data = gen.submechanism(rng, str(rng.choice(["h2o2", "gri30"])), 4, 12)
    gen.write(data, places.model)
    before = snapshot()
    files = convert(places.model, path=places.given)
    converted(rec, f"conversion of {places.model!r} to {places.given!r}", places, before, files)
    # another model, whose name differs at its end, goes to the same place
    stem, extension = os.path.splitext(places.model)
    other = stem[:-1] + "x" + extension if rng.random() < 0.5 else stem + ".x" + extension
    if not os.path.exists(other):
        gen.write(gen.submechanism(rng, "h2o2", 3, 6), other)
        before = snapshot()
        more = convert(other, path=places.given)
        rec.count("similar_names")
        converted(rec, f"conversion of {other!r} after {places.model!r}", places, before, more)
    middle = snapshot()
    back = os.path.join("back", "again")
    os.makedirs(back)
    before = snapshot()
    files = files if isinstance(files, (list, tuple)) else [files]
    out = convert(*files, path=back)
    places.path = places.given = back
    converted(rec, f"conversion of {files} to {back}", places, before, out)
    if not middle:
        raise Inconclusive("nothing converted")


def converted(rec, where, places, before, files):
    files = [files] if isinstance(files, str) else list(files)
    after = snapshot()
    rec.count("conversions")
    rec.case((where, sorted(before)), True)
    unchanged(before, after, rec, where)
    new = {n for n in after if n not in before}
    got = {os.path.relpath(f, ".") for f in files}
    if new != got:
        rec.violation(f"{where}: wrote {sorted(new)}, returned {files}")
    folder = os.path.normpath(places.path) if places.path else "."
    for f in got:
        if (os.path.dirname(f) or ".") != folder:
            rec.violation(f"{where}: {f} is not inside {places.given!r}")
