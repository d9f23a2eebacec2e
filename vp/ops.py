"""Calls of the library, each fully determined by a kind and a seed.

``perform(op)`` makes one call in the current directory and returns what it gave: value or
error, the files it left with their content, and which arguments or input files it changed.
"""

import io
import os
import re

import cantera as ct
import numpy as np
import yaml

from vp import gen, matrices, virtual
from vp.reductions import Case

MODEL = "mech.yaml"


# what a value is, independent of object identity ---------------------------------------


def model_content(gas):
    return (
        gas.name,
        tuple(gas.species_names),
        tuple(repr(s.input_data) for s in gas.species()),
        tuple(repr(r.input_data) for r in gas.reactions()),
    )


def content(obj):
    """A copy of a value by its content, comparable with ``difference``."""
    if isinstance(obj, ct.Solution):
        return ("Solution", *model_content(obj))
    if isinstance(obj, np.ndarray):
        return ("array", obj.shape, obj.dtype.kind, tuple(obj.ravel().tolist()))
    if isinstance(obj, dict):
        return ("dict", tuple((content(k), content(v)) for k, v in obj.items()))
    if isinstance(obj, (set, frozenset)):
        return ("set", tuple(sorted(content(v) for v in obj)))
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, tuple(content(v) for v in obj))
    if isinstance(obj, (np.floating, float)):
        return float(obj)
    if isinstance(obj, (np.integer, np.bool_)):
        return obj.item()
    return obj if obj is None or isinstance(obj, (str, int, bool)) else repr(obj)


def difference(a, b, rtol=1e-9, where=""):
    """First difference of two contents; numbers may differ by rounding."""
    if isinstance(a, float) and isinstance(b, float):
        if a == b or (a != a and b != b) or abs(a - b) <= rtol * max(abs(a), abs(b)):
            return None
        return f"{where}: {a!r} / {b!r}"
    if type(a) is not type(b):
        return f"{where}: {str(a)[:80]} / {str(b)[:80]}"
    if isinstance(a, tuple):
        if len(a) != len(b):
            return f"{where}: {len(a)} / {len(b)} entries, {str(a)[:150]} / {str(b)[:150]}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = difference(x, y, rtol, f"{where}/{i}")
            if d:
                return d
        return None
    return None if a == b else f"{where}: {str(a)[:150]!r} / {str(b)[:150]!r}"


VOLATILE = ("date", "cantera-version", "generator", "last-modified")


def file_content(path):
    """Content of a result file, without dates."""
    name = os.path.basename(path)
    try:
        if name.endswith((".yaml", ".yml")):
            with open(path) as fh:
                data = yaml.safe_load(fh)
            if isinstance(data, dict):
                data = {k: v for k, v in data.items() if k not in VOLATILE}
            return content(data)
        if name.endswith(".npz"):
            with np.load(path) as data:
                return content({k: data[k] for k in sorted(data.files)})
        if name.endswith(".npy"):
            return content(np.load(path))
        if name.endswith((".h5", ".log")):
            return "present"
        with open(path, errors="replace") as fh:
            text = fh.read()
    except Exception as exc:
        return f"unreadable: {type(exc).__name__}"
    lines = [line for line in text.splitlines() if not line.startswith("!")]
    if name.endswith((".csv", ".dat", ".txt")) and not re.search("[A-DF-Za-df-z]{2}", text):
        try:
            return content(np.genfromtxt(io.StringIO(text), delimiter="," if "," in text else None))
        except ValueError:
            pass
    return tuple(lines)


def listing(top="."):
    out = {}
    for root, _, names in os.walk(top):
        for name in names:
            path = os.path.relpath(os.path.join(root, name), top)
            out[path] = file_content(os.path.join(root, name))
    return out


def read(path):
    with open(path, "rb") as fh:
        return fh.read()


# calls ----------------------------------------------------------------------------------


class Call:
    """Performs the calls of one operation and notes changed arguments."""

    def __init__(self):
        self.changed = []
        self.checked = 0

    def __call__(self, fn, *args, **kwargs):
        named = list(enumerate(args)) + list(kwargs.items())
        before = [(k, v, content(v)) for k, v in named]
        try:
            return fn(*args, **kwargs)
        finally:
            for k, v, old in before:
                d = difference(old, content(v), rtol=0.0)
                self.checked += not isinstance(v, (str, int, float, type(None)))
                if d:
                    self.changed.append(f"argument {k} of {fn.__name__}: {d}")


def some(rng, items, share=0.4):
    return [s for s in items if rng.random() < share]


def reduction(rng, call, case, graph_only=False):
    """A whole reduction, leaving out arguments that have their default value."""
    import pymars.drg
    import pymars.drgep
    import pymars.pfa
    import pymars.pymars

    ign, psr, flame = case.conditions()
    keep = rng.random() < 0.4
    if graph_only:
        fn = {
            "DRG": pymars.drg.run_drg,
            "DRGEP": pymars.drgep.run_drgep,
            "PFA": pymars.pfa.run_pfa,
        }[case.method]
        kwargs = {}
        if case.upper or keep:
            kwargs["threshold_upper"] = case.upper
        args = (case.mechanism_name, ign, psr, flame, case.limit, case.targets, case.safe)
    else:
        fn = pymars.pymars.main
        args = (case.mechanism_name, case.limit, ign)
        kwargs = dict(target_species=case.targets)
        if not case.method and rng.random() < 0.5:
            del kwargs["target_species"]
        for name, value in (
            ("psr_conditions", psr), ("flame_conditions", flame), ("method", case.method),
            ("safe_species", case.safe), ("upper_threshold", case.upper),
            ("run_sensitivity_analysis", case.sa),
        ):
            if value or keep:
                kwargs[name] = value
        if case.algorithm != "greedy" or keep:
            kwargs["sensitivity_type"] = case.algorithm
    if case.phase or keep:
        kwargs["phase_name"] = case.phase
    if case.path or keep:
        kwargs["path"] = case.path
    if rng.random() < 0.15:
        kwargs["num_threads"] = 2
    with virtual.Virtual(case.landscape):
        return call(fn, *args, **kwargs)


def new_case(rng, **kw):
    case = Case(rng, n_species=(3, 8), **kw)
    case.mechanism_name = MODEL
    case.tune_limit(rng)
    u = rng.random()
    if u < 0.1:
        # no candidate is acceptable
        case.landscape.mode, case.limit = "strict", 0.01
    elif u < 0.2:
        # a case without ignition, extinction or flame
        kinds = [k for k in case.cases if case.cases[k]]
        kind = str(rng.choice(kinds))
        case.landscape.zero_cases = frozenset([(kind, int(rng.integers(case.cases[kind])))])
    case.prepare()
    return case


def op_main(rng, call):
    return reduction(rng, call, new_case(rng))


def op_graph(rng, call):
    case = new_case(rng, method=str(rng.choice(["DRG", "DRGEP", "PFA"])), sa=False)
    return reduction(rng, call, case, graph_only=True)


def op_reduce(rng, call):
    """One step of a threshold search."""
    import pymars.drg
    import pymars.drgep
    import pymars.pfa
    from pymars.reduce_model import ReducedModel

    case = new_case(rng, method=str(rng.choice(["DRG", "DRGEP", "PFA"])), sa=False)
    gas = ct.Solution(MODEL, case.phase)
    ign, psr, flame = case.conditions()
    metrics = np.array(case.landscape.metrics(case.cases, frozenset(case.species)))
    kwargs = dict(psr_conditions=psr, flame_conditions=flame, path=case.path)
    if rng.random() < 0.5:
        kwargs["previous_model"] = ReducedModel(model=gas, filename=MODEL, error=0.0)
    if case.method == "DRGEP":
        args = (MODEL, case.safe, 0.1 * rng.random(), _coefficients(case), ign, metrics)
        fn = pymars.drgep.reduce_drgep
    else:
        args = (
            MODEL, case.targets, case.safe, 0.3 * rng.random(), list(case.matrices()), ign, metrics,
        )
        fn = pymars.drg.reduce_drg if case.method == "DRG" else pymars.pfa.reduce_pfa
        kwargs["threshold_upper"] = case.upper
    with virtual.Virtual(case.landscape):
        return call(fn, *args, **kwargs)


def _coefficients(case):
    return dict(zip(case.species, map(float, case.importance())))


def op_sa(rng, call):
    from pymars.sensitivity_analysis import run_sa

    case = new_case(rng, sa=True)
    ign, psr, flame = case.conditions()
    limbo = some(rng, case.species, 0.5)
    safe = case.targets + case.safe
    kwargs = dict(phase_name=case.phase, path=case.path)
    if limbo and rng.random() < 0.7:
        kwargs["species_limbo"] = limbo
    if case.algorithm != "greedy" or rng.random() < 0.4:
        kwargs["algorithm_type"] = case.algorithm
    with virtual.Virtual(case.landscape):
        return call(run_sa, MODEL, 0.0, ign, psr, flame, case.limit, safe, **kwargs)


def op_errors(rng, call):
    from pymars.reduce_model import ReducedModel
    from pymars.sensitivity_analysis import evaluate_species_errors

    case = new_case(rng)
    ign, psr, flame = case.conditions()
    metrics = np.array(case.landscape.metrics(case.cases, frozenset(case.species)))
    model = ReducedModel(model=ct.Solution(MODEL), filename=MODEL, error=1.5)
    limbo = some(rng, case.species, 0.6)
    with virtual.Virtual(case.landscape):
        return call(
            evaluate_species_errors, model, ign, metrics, limbo,
            psr_conditions=psr, flame_conditions=flame,
        )


def op_sample(rng, call):
    from pymars import sampling

    case = new_case(rng)
    ign, psr, flame = case.conditions()
    kwargs = dict(phase_name=case.phase)
    if psr or rng.random() < 0.5:
        kwargs["psr_conditions"] = psr
    if flame or rng.random() < 0.5:
        kwargs["flame_conditions"] = flame
    out = []
    with virtual.Virtual(case.landscape):
        for _ in range(int(rng.integers(1, 3))):
            if rng.random() < 0.5:
                out.append(call(sampling.sample, MODEL, ign, **kwargs))
            else:
                out.append(
                    call(
                        sampling.sample_metrics, MODEL, ign,
                        reuse_saved=bool(rng.random() < 0.7), **kwargs,
                    )
                )
    return out


def op_trim(rng, call):
    from pymars.reduce_model import trim

    data = gen.any_mechanism(rng, n_species=(3, 10))
    gen.write(data, MODEL)
    gas = ct.Solution(MODEL)
    removed = some(rng, gas.species_names[:-1])
    return call(trim, MODEL, removed, "reduced.yaml")


def op_write(rng, call):
    from pymars import soln2ck, soln2yaml

    source = str(rng.choice(["h2o2", "ohn", "gri30"]))
    gas = gen.solution(gen.submechanism(rng, source, 4, 12))
    out = []
    if rng.random() < 0.6:
        out.append(call(soln2yaml.write, gas, "out.yaml"))
    if rng.random() < 0.6:
        kwargs = {"skip_thermo": True} if rng.random() < 0.3 else {}
        if rng.random() < 0.3:
            kwargs["skip_transport"] = True
        out.append(call(soln2ck.write, gas, "out.inp", **kwargs))
    return out + [content(gas)]


def op_convert(rng, call):
    from pymars.tools import convert

    source = str(rng.choice(["h2o2", "gri30"]))
    gen.write(gen.submechanism(rng, source, 4, 12), MODEL)
    files = call(convert, MODEL)
    if rng.random() < 0.5:
        os.remove(MODEL)
        return [files, call(convert, *files)]
    return files


def op_compare(rng, call):
    from pymars.tools import compare_models

    data = gen.any_mechanism(rng, n_species=(3, 10))
    one, two = gen.solution(data), gen.solution(data)
    if rng.random() < 0.6:
        two.set_multiplier(2.0)
        two = gen.solution(gen.submechanism(rng, "h2o2", 4, 8))
    return call(compare_models, one, two)


def op_parse(rng, call):
    from pymars.pymars import parse_inputs

    case = new_case(rng)
    inputs = case.input_dict()
    if rng.random() < 0.3:
        inputs.pop(str(rng.choice(["model", "error", "targets"])))
    return call(parse_inputs, inputs)


def op_cli(rng, call):
    from pymars.pymars import pymars

    case = new_case(rng)
    with open("input.yaml", "w") as fh:
        yaml.safe_dump(case.input_dict(), fh)
    argv = ["-i", "input.yaml"] + (["--path", case.path] if case.path else [])
    with virtual.Virtual(case.landscape):
        return call(pymars, argv)


def op_matrix(rng, call):
    import pymars.drg
    import pymars.drgep
    import pymars.pfa

    gas = gen.solution(gen.any_mechanism(rng, n_species=(3, 9)))
    out = []
    for _ in range(3):
        _, (t, p, y) = gen.random_state(rng, gas, "dense")
        for fn in (
            pymars.drg.create_drg_matrix, pymars.drgep.create_drgep_matrix,
            pymars.pfa.create_pfa_matrix,
        ):
            if rng.random() < 0.5:
                out.append(call(fn, (t, p, y), gas))
    return out


def op_graphs(rng, call):
    import pymars.drg
    import pymars.drgep
    import pymars.pfa

    n = int(rng.integers(3, 9))
    names = matrices.names(rng, n)
    many = [
        matrices.matrix(rng, n, str(rng.choice(["dense", "sparse"]))) for _ in range(3)
    ]
    targets = names[: int(rng.integers(1, 3))]
    t = float(rng.random() * 0.5)
    return [
        sorted(call(pymars.drg.trim_drg, many[0], names, targets, t)),
        sorted(call(pymars.pfa.trim_pfa, many[1], names, targets, t)),
        sorted(call(pymars.drgep.get_importance_coeffs, names, targets, many).items()),
    ]


def op_error(rng, call):
    from pymars.sampling import calculate_error

    a = 10 ** rng.uniform(-4, 3, int(rng.integers(1, 6)))
    b = a * rng.uniform(0.5, 1.5, a.size)
    if rng.random() < 0.3:
        b[0] = 0.0
    return call(calculate_error, a, b)


def op_real(rng, call):
    """Real simulations."""
    from pymars import sampling
    from pymars.sampling import InputIgnition, InputLaminarFlame, InputPSR

    data = gen.submechanism(rng, "h2o2", 9, 10, must=["H2", "O2", "H", "O", "OH", "H2O", "HO2", "N2"])
    gen.write(data, MODEL)
    mix = dict(
        equivalence_ratio=float(rng.choice([0.8, 1.0, 1.3])), fuel={"H2": 1.0},
        oxidizer={"O2": 1.0, "N2": 3.76},
    )
    ign, psr, flame = [], [], []
    for i in range(int(rng.integers(1, 3))):
        kind = str(rng.choice(["constant volume", "constant pressure"]))
        ign.append(InputIgnition(kind, float(rng.uniform(1100, 1500)), 1.0 + i, **mix))
    if rng.random() < 0.4:
        psr.append(InputPSR(float(rng.uniform(300, 500)), 1.0, **mix))
    if rng.random() < 0.1:
        flame.append(InputLaminarFlame(300.0, 1.0, 0.03, **mix))
    fn = sampling.sample if rng.random() < 0.6 else sampling.sample_metrics
    return call(fn, MODEL, ign, psr_conditions=psr, flame_conditions=flame)


def op_retuned(rng, call):
    """Another model in a file of the same name and size as the earlier one."""
    from pymars import sampling, soln2yaml
    from pymars.reduce_model import trim
    from pymars.tools import convert

    with open(MODEL, "w") as fh:
        # eleven digits each time
        fh.write(_tunable().replace('"?"', f"{int(rng.integers(4e10, 9.9e10))}.0"))
    case = sampling.InputIgnition(
        "constant volume", 1300.0, 1.0, equivalence_ratio=1.0, fuel={"H2": 1.0},
        oxidizer={"O2": 1.0, "N2": 3.76},
    )
    kind = int(rng.choice([0, 0, 1, 1, 2, 3, 4]))
    if kind == 0:
        return call(sampling.sample, MODEL, [case])
    if kind == 1:
        return call(sampling.sample_metrics, MODEL, [case])
    if kind == 2:
        return call(convert, MODEL)
    model = call(trim, MODEL, ["AR"], "small.yaml")
    if kind == 3:
        return call(soln2yaml.write, model, "small.yaml")
    return model


def _tunable():
    """The hydrogen mechanism with a place to fill in for one rate constant."""
    import json

    species, reactions = gen.real_data("h2o2")
    chosen = []
    for _, _, data in reactions:
        data = json.loads(json.dumps(data))
        if data["equation"].replace(" ", "") == "H+O2<=>O+OH":
            data["rate-constant"] = {"A": "?", "b": 0.0, "Ea": 60000000.0}
        chosen.append(data)
    return json.dumps(gen.mechanism(list(species.values()), chosen))


KINDS = {name[3:]: fn for name, fn in list(globals().items()) if name.startswith("op_")}


def perform(op):
    kind, seed = op
    rng = gen.rng_of("op", kind, seed)
    call = Call()

    def noting(fn, *args, **kwargs):
        inputs = {n: read(n) for n in (MODEL, "input.yaml", "mech.inp") if os.path.isfile(n)}
        try:
            return call(fn, *args, **kwargs)
        finally:
            for n, old in inputs.items():
                if not os.path.isfile(n) or read(n) != old:
                    call.changed.append(f"input file {n}")

    try:
        value = ("value", content(KINDS[kind](rng, noting)))
        if kind in ("graph", "main", "reduce"):
            value = sort_limbo(value)
    except (SystemExit, Exception) as exc:
        value = ("raised", type(exc).__name__, str(exc)[:300])
    files = tuple(sorted(listing().items()))
    return dict(
        value=value, files=files, changed=call.changed, checked=call.checked,
        raised=value[0] == "raised",
    )


def sort_limbo(value):
    """The order of the species under consideration has no meaning."""
    kind, out = value
    if isinstance(out, tuple) and out and out[0] == "ReducedModel":
        fields = list(out[1])
        if isinstance(fields[3], tuple) and fields[3][0] == "list":
            fields[3] = ("list", tuple(sorted(fields[3][1])))
        out = (out[0], tuple(fields))
    return kind, out
