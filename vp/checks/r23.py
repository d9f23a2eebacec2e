"""R23: the command line does what the input file says."""

import ast
import os
import re
import shutil
import subprocess
import sys

import cantera as ct
import yaml

from vp import gen, reactors, virtual
from vp.faults import Faults, Fault
from vp.checks.r13 import Cores
from vp.reductions import Case

LEVEL = "exploration"
TECHNIQUE = (
    "differential monitor: real program runs as processes of their own are compared by exit "
    "status and all files left with calls of the library; directories are listed before and after"
)
NOTE = (
    "Real simulations (hydrogen ignition, reactors, a flame) with all methods, options, model "
    "formats, paths and numbers of processes; conversions of random mechanisms in both "
    "directions; unusable arguments."
)
RULE = "One case = one run of the program. Distinct by arguments, input and mechanism."
ASSUMPTIONS = ["the program is started as 'python -m pymars'"]
REQUIRED_EVENTS = (
    "reductions", "chemkin_models", "parallel", "with_path", "models_compared", "samples_compared",
    "conversions", "to_chemkin", "from_chemkin", "unusable", "sensitivity_analyses",
    "error_compared", "chosen_inputs", "simulations_compared", "flame_minima",
    "all_but_one",
)
MIN_CASES = 50


def tasks(tier, seed):
    f = 1 if tier == "quick" else 15
    out = []
    for kind, n in (("reduce", 24), ("convert", 10), ("unusable", 4), ("chosen", 32), ("speed", 24)):
        out += [dict(kind=kind, seed=seed, i=i) for i in range(n * f)]
    return out


def run_task(task, rec):
    rng = gen.rng_of("r23", task["kind"], task["seed"], task["i"])
    dict(
        reduce=reduce, convert=conversion, unusable=unusable, chosen=chosen, speed=flame_speed
    )[task["kind"]](task, rng, rec)


def program(args, folder):
    return subprocess.run(
        [sys.executable, "-m", "pymars", *args],
        cwd=folder,
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
        text=True,
        timeout=200,
    )


def contents(folder):
    """Files below a directory with their content; logs are left out."""
    out = {}
    for base, _, files in os.walk(folder):
        for name in files:
            if name.endswith(".log"):
                continue
            full = os.path.join(base, name)
            with open(full, "rb") as fh:
                out[os.path.relpath(full, folder)] = fh.read()
    return out


def stable(name, data):
    """Content without the lines that tell when and from what a file was made."""
    if name.endswith((".yaml", ".yml")):
        content = yaml.load(data, getattr(yaml, "CSafeLoader", yaml.SafeLoader))
        for key in ("date", "generator", "input-files", "cantera-version", "git-commit",
                    "description"):
            content.pop(key, None)
        for phase in content["phases"]:
            # unnamed phases are named after the file, with its path
            phase.pop("name")
        return content
    lines = data.decode("utf-8", "replace").splitlines()
    return [
        x for x in lines
        if not re.search(r"\d{4}.\d\d.\d\d|\d\d:\d\d", x)
    ]


class Inside:
    def __init__(self, folder):
        self.folder = folder

    def __enter__(self):
        self.old = os.getcwd()
        os.chdir(self.folder)

    def __exit__(self, *exc):
        os.chdir(self.old)


def reduce(task, rng, rec):
    from pymars.pymars import main
    from pymars.sampling import InputIgnition, InputLaminarFlame, InputPSR
    from pymars.tools import convert

    i = task["i"]
    method = ("DRG", "DRGEP", "PFA", "")[i % 4]
    sa = not method or bool(rng.random() < 0.4)
    chemkin = i % 3 == 1
    threads = [None, None, None, 2, 3, 0][int(rng.integers(6))] if i % 2 else None
    path = [None, "out", "deep/out dir", "ABS"][int(rng.integers(4))]
    kinds = [
        ["ignition"], ["ignition", "ignition"], ["psr"], ["ignition", "psr"], ["ignition"],
        ["flame"],
    ][i % 6 if i % 12 == 5 or i % 6 != 5 else 0]
    oxidizer = {"O2": 1.0, "N2": 3.76} if rng.random() < 0.5 else {"O2": 1.0, "AR": 4.0}
    mix = {"fuel": {"H2": 1.0}, "oxidizer": oxidizer, "equivalence-ratio": 1.0}
    plain = dict(fuel={"H2": 1.0}, oxidizer=oxidizer, equivalence_ratio=1.0)
    inputs = {
        "error": float(rng.choice([2.0, 10.0, 40.0])),
        "targets": [["H2"], ["H2", "O2"], ["OH", "H2O"]][int(rng.integers(3))],
    }
    retained = [[], ["N2"], ["AR", "H2O"]][int(rng.integers(3))]
    if retained:
        inputs["retained-species"] = retained
    ign, psr, flames = [], [], []
    for k, kind in enumerate(kinds):
        t = float(rng.choice([1100.0, 1300.0, 1500.0]) + k)
        p = float(rng.choice([1.0, 5.0]))
        if kind == "ignition":
            what = str(rng.choice(["constant volume", "constant pressure"]))
            inputs.setdefault("autoignition-conditions", []).append(
                dict(kind=what, temperature=t, pressure=p, **mix)
            )
            ign.append(InputIgnition(what, t, p, **plain))
        elif kind == "psr":
            t -= 700.0
            inputs.setdefault("psr-conditions", []).append(dict(temperature=t, pressure=p, **mix))
            psr.append(InputPSR(t, p, **plain))
        else:
            inputs.setdefault("laminar-flame-conditions", []).append(
                dict(temperature=300.0, pressure=1.0, width=0.03, **mix)
            )
            flames.append(InputLaminarFlame(300.0, 1.0, 0.03, **plain))
    kwargs = dict(method=method, target_species=inputs["targets"], run_sensitivity_analysis=sa)
    if method:
        inputs["method"] = method
    if sa:
        rec.count("sensitivity_analyses")
        inputs["sensitivity-analysis"] = True
        kwargs["sensitivity_type"] = "initial"
        kwargs["upper_threshold"] = 0.1
        if rng.random() < 0.6 or kinds != ["ignition"]:
            inputs["sensitivity-type"] = str(rng.choice(["initial", "greedy"]))
            if kinds != ["ignition"]:
                inputs["sensitivity-type"] = "initial"
            kwargs["sensitivity_type"] = inputs["sensitivity-type"]
        if rng.random() < 0.6:
            inputs["upper-threshold"] = float(rng.choice([0.05, 0.4]))
            kwargs["upper_threshold"] = inputs["upper-threshold"]
    if flames:
        inputs["min-flame-speed"] = 0.3
        kwargs["min_flame_speed"] = 0.3
    kwargs["safe_species"] = sorted(
        set(retained) | ({"H2"} | set(oxidizer)) - set(inputs["targets"])
    )

    args = []
    for folder in ("program", "library"):
        os.makedirs(folder)
        with Inside(folder):
            file = reactors.model_file("h2o2")
            if chemkin:
                files = convert(file)
                os.remove(file)
                file = files[0]
                extension = str(rng.choice([".inp", ".dat", ".txt", ""]))
                if folder == "program":
                    new = "mech" + extension
                    thermo, transport = files[1], files[2]
                os.rename(file, new)
                file = new
            if path == "ABS":
                os.makedirs("absolute")
            elif path:
                os.makedirs(path)
    inputs["model"] = file
    if chemkin:
        rec.count("chemkin_models")
        args += ["--thermo", thermo, "--transport", transport]
    where = ""
    if path:
        rec.count("with_path")
        args += ["--path", os.path.abspath("program/absolute") if path == "ABS" else path]
        where = "absolute" if path == "ABS" else path
    if threads is not None:
        rec.count("parallel")
        args += ["--num_threads"] + ([str(threads)] if threads else [])
    name = str(rng.choice(["input.yaml", "my inputs", "in.yml"]))
    key = "-i" if rng.random() < 0.5 else "--input"
    args = [key, name] + args if rng.random() < 0.5 else args + [key, name]
    for folder in ("program", "library"):
        with open(os.path.join(folder, name), "w") as fh:
            yaml.safe_dump(inputs, fh)
    what = f"arguments {args}, input {inputs}"
    rec.case(what)
    rec.sample(what)
    rec.count("reductions")
    before = contents("program")
    done = program(args, "program")
    with Inside("library"):
        model = file
        if chemkin:
            model = convert(file, thermo, transport, where)
        try:
            result = main(
                model, inputs["error"], ign, psr, flames, path=where, **kwargs
            )
        except SystemExit:
            result = None
    after, other = contents("program"), contents("library")
    if (done.returncode == 0) != (result is not None):
        rec.violation(
            f"{what}: status {done.returncode}, the library's result is {result}\n"
            + done.stdout[-800:]
        )
        return
    for f, data in before.items():
        if after.get(f) != data:
            rec.violation(f"{what}: the file {f} was changed")
            return
    if set(after) != set(other):
        rec.violation(f"{what}: files {sorted(after)}, the library leaves {sorted(other)}")
        return
    for f in sorted(set(after) - set(before)):
        rec.count("samples_compared" if f.endswith((".dat", ".txt")) else "models_compared")
        if stable(f, after[f]) != stable(f, other[f]):
            rec.violation(f"{what}: the content of {f} differs from what the library writes")
            return
    if result is None:
        return
    final = os.path.join("program", where, os.path.basename(result.filename))
    gas = ct.Solution(final)
    if gas.species_names != result.model.species_names:
        rec.violation(
            f"{what}: species {gas.species_names}, the library keeps {result.model.species_names}"
        )
    reported = re.findall(r"[Ee]rror: *([0-9.eE+-]+) *%", done.stdout)
    if reported:
        rec.count("error_compared")
        if abs(float(reported[-1]) - result.error) > 0.0051 + 1e-6 * result.error:
            rec.violation(
                f"{what}: reports an error of {reported[-1]} %, the library {result.error} %"
            )


def in_process(args, inputs):
    """The program, called with its arguments; whether it ended normally."""
    from pymars.pymars import pymars

    with open("input.yaml", "w") as fh:
        yaml.safe_dump(inputs, fh, sort_keys=False)
    try:
        pymars(["-i", "input.yaml", *args])
    except (Exception, SystemExit):
        return False
    finally:
        os.remove("input.yaml")
    return True


def settle(folder):
    return {f: stable(f, data) for f, data in contents(folder).items()}


def chosen(task, rng, rec):
    """Every simulated case and the result, over virtual chemistry."""
    case = Case(rng, method=("DRG", "DRGEP", "PFA", "")[task["i"] % 4], n_species=(5, 10))
    case.limbo = []
    if case.method and rng.random() < 0.7:
        case.tune_limit(rng)
    inputs = case.input_dict()
    if not case.safe and rng.random() < 0.5:
        inputs.pop("retained-species")
    if case.sa and rng.random() < 0.4:
        inputs.pop("sensitivity-type")
        case.algorithm = "initial"
    if rng.random() < 0.2:
        inputs.pop("upper-threshold", None)
        case.upper = None
    case.upper = case.upper or (0.1 if case.sa else None)
    case.safe += [s for s in case.mixture if s not in case.safe + case.targets]
    args = ["--path", case.path] if case.path else []
    threads = int(rng.choice([1, 1, 2, 0, 0]))
    case.threads = threads
    if threads != 1:
        args += ["--num_threads"] + ([str(threads)] if threads else [])
    what = f"arguments {args}, input {inputs}"
    rec.case(what)
    rec.count("chosen_inputs")
    runs = {}
    cores = int(rng.choice([1, 2, 3]))
    allowed = threads or max(cores - 1, 1)
    for folder in ("program", "library"):
        os.makedirs(folder)
        with Inside(folder), Cores(cores):
            case.prepare()
            log = os.path.abspath(f"../{folder}.events")
            if folder == "program":
                with virtual.Virtual(case.landscape, log, lambda *_: 0.01, ends=True) as v:
                    good = in_process(args, inputs)
            else:
                model, v = case.run(log)
                good = model is not None
            if folder == "program":
                rec.count("at_once", v.most_at_once())
                rec.count("all_but_one", threads == 0)
                if v.most_at_once() > allowed:
                    rec.violation(
                        f"{what}, {cores} cores: {v.most_at_once()} simulations at once, "
                        f"allowed are {allowed}"
                    )
        events = sorted(
            (e["ev"], e["kind"], e["idx"], tuple(e["species"]),
             repr([ast.literal_eval(x) or None for x in e["case"]]))
            for e in v.events() if e["ev"] != "end"
        )
        runs[folder] = good, events, settle(folder)
    rec.count("simulations_compared", len(runs["library"][1]))
    a, b = runs["program"], runs["library"]
    if a[0] != b[0]:
        rec.violation(f"{what}: ends normally: {a[0]}, the library: {b[0]}")
    elif a[1] != b[1]:
        only = [e for e in a[1] if e not in b[1]], [e for e in b[1] if e not in a[1]]
        rec.violation(
            f"{what}: {len(a[1])} simulations, the library makes {len(b[1])}; "
            f"only the program {only[0][:2]}, only the library {only[1][:2]}"
        )
    elif set(a[2]) != set(b[2]):
        rec.violation(f"{what}: leaves {sorted(a[2])}, the library {sorted(b[2])}")
    elif a[2] != b[2]:
        rec.violation(f"{what}: {[f for f in a[2] if a[2][f] != b[2][f]]} differ from the library's")


def flame_speed(task, rng, rec):
    """The minimum flame speed of the input decides which flames count."""
    config = [None, 0, 0.0, 0.01, 0.04, 0.06, 0.3, 2][task["i"] % 8]
    low = 0.05 if config is None else config
    mix = dict(fuel={"H2": 1.0}, oxidizer={"O2": 1.0, "N2": 3.76})
    base = float(rng.choice([0.011, 0.03, 0.045, 0.055, 0.1, 1.0, 2.5]))
    loss = float(base * rng.choice([0.2, 0.97, 1.0]))
    file = reactors.model_file("h2o2")
    names = ct.Solution(file).species_names
    inputs = {
        "model": file, "error": 90.0, "method": str(rng.choice(["DRG", "PFA", "DRGEP"])),
        "targets": ["H2"], "retained-species": [s for s in names if s not in ("H2", "AR", "H2O2")],
        "laminar-flame-conditions": [
            dict(temperature=300.0, pressure=1.0, width=0.05,
                 **{"equivalence-ratio": 1.0}, **mix)
        ],
    }
    if config is not None or rng.random() < 0.5:
        inputs["min-flame-speed"] = config
    # without hydrogen peroxide or argon the flame is slower
    faults = {("flame", 300.0): Fault(speed=loss, lacking=str(rng.choice(["AR", "H2O2"])))}
    what = f"speeds {base}, then {loss} without {faults['flame', 300.0].lacking}: {inputs}"
    rec.case(what)
    rec.count("flame_minima")
    with Faults(faults, {300.0: base}):
        good = in_process([], inputs)
    found = [f for f in os.listdir(".") if f.startswith("reduced_")]
    lacking = faults["flame", 300.0].lacking
    if base <= low:
        if good or found:
            rec.violation(f"{what}: does not fail, although the original has no flame")
        return
    if loss > low and not (good and found):
        rec.violation(f"{what}: fails, or leaves no model, although all candidates burn")
    for f in found:
        if loss <= low and lacking not in ct.Solution(f).species_names:
            rec.violation(f"{what}: {lacking} is removed although there is no flame without it")
        if loss > low and lacking in ct.Solution(f).species_names:
            rec.violation(f"{what}: {lacking} is kept although there is a flame without it")


def conversion(task, rng, rec):
    from pymars.tools import convert

    data = gen.any_mechanism(
        rng, features=("arr", "irrev", "3b", "lind", "troe3", "troe4", "plog", "dup", "cheb"),
        n_species=(3, 9),
    )
    back = task["i"] % 2 == 1
    path = ["", "out", "deep/out"][int(rng.integers(3))]
    transport = bool(rng.random() < 0.7)
    if not transport:
        data["phases"][0].pop("transport", None)
        for sp in data["species"]:
            sp.pop("transport", None)
    results = {}
    files = None
    for folder in ("program", "library"):
        os.makedirs(os.path.join(folder, path))
        with Inside(folder):
            source = gen.write(data, "my_mech.yaml")
            files = [source]
            if back:
                files = convert(source)
                os.remove(source)
                source = "mech" + str([".inp", ".dat", ".ck", ""][task["i"] % 4])
                os.rename(files[0], source)
                files = [source, *files[1:]]
    before = contents("program")
    args = ["--convert", "-m" if rng.random() < 0.5 else "--model", source]
    thermo = files[1] if len(files) > 1 else None
    trans = files[2] if len(files) > 2 else None
    if thermo:
        args += ["--thermo", thermo]
    if trans:
        args += ["--transport", trans]
    if path:
        args += ["--path", path]
    what = f"{args}: {gen.solution(data).reaction_equations()}"
    rec.case(what)
    rec.sample(what)
    rec.count("conversions")
    rec.count("from_chemkin" if back else "to_chemkin")
    done = program(args, "program")
    with Inside("library"):
        results = convert(source, thermo, trans, path)
    if done.returncode != 0:
        rec.violation(f"{what}: status {done.returncode}\n{done.stdout[-800:]}")
        return
    named = results if isinstance(results, (list, tuple)) else [results]
    after, other = contents("program"), contents("library")
    if set(after) != set(other) or not all(os.path.normpath(n) in after for n in named):
        rec.violation(
            f"{what}: left files {sorted(after)}, the library {sorted(other)}, named {named}"
        )
        return
    for f in after:
        if f in before and after[f] != before[f]:
            rec.violation(f"{what}: the file {f} was changed")
        elif stable(f, after[f]) != stable(f, other[f]):
            rec.violation(f"{what}: the content of {f} differs from what the library writes")


def unusable(task, rng, rec):
    os.makedirs("here")
    with Inside("here"):
        good = {
            "model": reactors.model_file("h2o2"), "error": 10.0, "method": "DRG",
            "targets": ["H2"],
            "autoignition-conditions": [
                {"kind": "constant volume", "temperature": 1200.0, "pressure": 1.0,
                 "reactants": {"H2": 2.0, "O2": 1.0}}
            ],
        }
        files = {
            "good.yaml": good, "empty.yaml": None, "list.yaml": [1, 2], "text.yaml": "model",
            "nomodel.yaml": dict(good, model="nothere.yaml"),
            "nochemkin.yaml": dict(good, model="nothere.inp"),
            "badchemkin.yaml": dict(good, model="bad.inp"),
            "unknown.yaml": dict(good, targets=["XX"]),
            "negative.yaml": dict(good, error=-1.0),
        }
        for name, value in files.items():
            with open(name, "w") as fh:
                yaml.safe_dump(value, fh)
        with open("broken.yaml", "w") as fh:
            fh.write("model: [unclosed\n  : -")
        with open("bad.inp", "w") as fh:
            fh.write("ELEMENTS\nH O\nEND\nSPECIES\nH2 O2\nEND\n")
    arguments = [
        [], ["-i"], ["-i", "missing.yaml"], ["--bogus"], ["extra"], ["--convert"],
        ["--convert", "-m"], ["--convert", "-m", "missing.yaml"],
        ["--convert", "-m", "missing.inp"], ["--convert", "-m", "bad.inp"],
        ["--convert", "-m", "broken.yaml"], ["-m", "h2o2_model.yaml"], ["--path", "."],
        ["--convert", "-m", "bad.inp", "--thermo", "missing.dat"],
        ["--convert", "-i", "good.yaml"],
        ["-i", "empty.yaml"], ["-i", "list.yaml"], ["-i", "text.yaml"], ["-i", "broken.yaml"],
        ["-i", "nomodel.yaml"], ["-i", "nochemkin.yaml"], ["-i", "badchemkin.yaml"],
        ["-i", "unknown.yaml"], ["-i", "negative.yaml"], ["-i", "."],
        ["-i", "good.yaml", "--num_threads", "two"], ["-i", "good.yaml", "--num_threads", "1.5"],
        ["-i", "good.yaml", "--num_threads", "-2"], ["-i", "good.yaml", "--path"],
        ["-i", "good.yaml", "--path", "nowhere"], ["-i", "good.yaml", "extra"],
        ["--convert", "-m", "h2o2_model.yaml", "--path", "nowhere/deeper"],
    ]
    for n in range(task["i"] % 4, len(arguments), 4):
        args = arguments[n]
        before = contents("here")
        done = program(args, "here")
        rec.case(args)
        rec.count("unusable")
        if done.returncode == 0:
            rec.violation(f"{args} ends with status 0\n{done.stdout[-800:]}")
            return
        after = contents("here")
        if after != before:
            changed = {f for f in set(before) | set(after) if before.get(f) != after.get(f)}
            rec.violation(f"{args} leaves the files {sorted(changed)}")
            return
    shutil.rmtree("here")
