"""R14: saved samples are reused faithfully, or not at all."""

import os
import resource
import signal
import sys

import numpy as np

from vp import gen, reactors, virtual
from vp.core import Inconclusive
from vp.reductions import Case

LEVEL = "fault_enumeration"
TECHNIQUE = (
    "history monitor with a reference model, and crash injection: sequences of sampling runs in "
    "one directory, and runs killed at every file operation or in the middle of a write; what "
    "later runs simulate and return is compared with fresh runs"
)
NOTE = (
    "Simulations are virtual and logged, files are real; a killed run is a forked process that "
    "ends at the chosen file operation (audit hook), at a file size (signal), or at a time."
)
RULE = (
    "One case = one run in a history, or one killed run with the runs after it. Non-trivial: "
    "samples of an earlier run existed. Distinct by history, crash point and cases."
)
ASSUMPTIONS = [
    "a kill loses what a process has not yet written to the kernel, but nothing that was written "
    "(process death, not power loss)",
]
REQUIRED_EVENTS = (
    "runs", "reused", "replaced", "other_number", "other_species", "file_missing", "metrics_reused",
    "metrics_of_others",
    "cases_lost",
    "killed_at_operation", "killed_in_write", "killed_real", "crash_points", "single_case",
)
MIN_CASES = 60


def tasks(tier, seed):
    f = 1 if tier == "quick" else 30
    out = []
    for kind, n in (("history", 40), ("others", 24), ("operation", 40), ("write", 24), ("real", 6)):
        out += [dict(kind=kind, seed=seed, i=i) for i in range(n * f)]
    return out


def run_task(task, rec):
    # samples with other numbers of rows are never reused
    virtual.SHAPE.update(ignition=(1, 20), flame=(1, 20), psr=(3, 3))
    rng = gen.rng_of("r14", task["kind"], task["seed"], task["i"])
    dict(history=history, others=others, operation=crash, write=crash, real=real)[task["kind"]](task, rng, rec)


class Setting:
    """Cases, mechanism and landscape of a sampling run; all its values follow from these."""

    def __init__(self, rng, name, n=None):
        while True:
            case = Case(rng, method="DRG", n_species=(2, 6), modes=["additive"])
            case.cases = n or numbers(rng)
            self.case, self.name = case, name
            case.mechanism_name = f"{name}.yaml"
            case.path = ""
            case.landscape.fatal = frozenset()
            case.prepare()
            break
        gas = gen.solution(case.data)
        self.n_species = gas.n_species
        self.values = {
            kind: np.array(
                [v for i in range(case.cases[kind])
                 for v in case.landscape.metric(kind, i, frozenset(case.species))]
            )
            for kind in case.cases
        }
        self.states = {
            kind: [virtual.states(case.landscape.seed, kind, i, gas)
                   for i in range(case.cases[kind])]
            for kind in case.cases
        }
        self.kinds = [k for k in ("ignition", "psr", "flame") if case.cases[k]]

    def metrics(self):
        return np.concatenate([self.values[k] for k in self.kinds])

    def data(self):
        return np.concatenate([np.concatenate(self.states[k]) for k in self.kinds])

    def __str__(self):
        return f"{self.name} ({self.n_species} species, {self.case.cases})"


def numbers(rng):
    n = dict(
        ignition=int(rng.choice([0, 1, 1, 2, 3])),
        psr=int(rng.choice([0, 0, 1, 2])),
        flame=int(rng.choice([0, 0, 1, 2, 3])),
    )
    if not sum(n.values()):
        n[str(rng.choice(["ignition", "psr", "flame"]))] = 1
    return n


def sample(setting, log, metrics_only=False):
    from pymars import sampling

    ign, psr, flame = setting.case.conditions()
    kwargs = dict(psr_conditions=psr, flame_conditions=flame, phase_name=setting.case.phase)
    if os.path.isfile(log):
        os.remove(log)
    with virtual.Virtual(setting.case.landscape, log) as v:
        if metrics_only:
            out = (
                sampling.sample_metrics(
                    setting.case.mechanism_name, ign, reuse_saved=True, **kwargs
                ),
                None,
            )
        else:
            out = sampling.sample(setting.case.mechanism_name, ign, **kwargs)
    simulated = {}
    for e in v.events():
        simulated[e["kind"]] = simulated.get(e["kind"], 0) + 1
    return out, simulated


def files(kind):
    from pymars import sampling

    return sampling.data_files[f"data_{kind}"], sampling.data_files[f"output_{kind}"]


def compare(setting, got, rec, what):
    metrics, data = got
    want = setting.metrics()
    if np.shape(metrics) != want.shape or np.any(np.asarray(metrics) != want):
        rec.violation(f"{what}: metrics {np.asarray(metrics).tolist()}, fresh {want.tolist()}")
        return False
    if data is not None:
        want = setting.data()
        if np.shape(data) != want.shape or np.any(np.asarray(data) != want):
            rec.violation(f"{what}: sampled states differ from those of a fresh run")
            return False
    return True


def different(rng, name, others):
    """A setting in which every phenomenon differs in number of cases or species from others."""
    while True:
        s = Setting(rng, name)
        if all(
            s.n_species != o.n_species or s.case.cases[k] != o.case.cases[k]
            for o in others
            for k in s.kinds
            if k in o.kinds
        ):
            return s


def history(task, rng, rec):
    settings = []
    for k in range(3):
        settings.append(different(rng, f"m{k}", settings))
    rec.count("single_case", sum(s.case.cases[k] == 1 for s in settings for k in s.kinds))
    saved = {}
    trail = []
    for step in range(9):
        s = settings[int(rng.choice([0, 0, 1, 2]))]
        if step and rng.random() < 0.25 and saved:
            kind = str(rng.choice(sorted(saved)))
            name = files(kind)[int(rng.integers(2))]
            if os.path.isfile(name):
                os.remove(name)
                trail.append(f"{name} removed")
                rec.count("file_missing")
                saved[kind] = (saved[kind], name)
                if name == files(kind)[0] and rng.random() < 0.5:
                    os.remove(files(kind)[1])
                    saved.pop(kind)
        whole = sorted(k for k, v in saved.items() if isinstance(v, Setting))
        if step and whole and rng.random() < 0.25:
            kind = str(rng.choice(whole))
            which = cases_lost(rng, kind, saved[kind])
            if which:
                trail.append(f"{which} has other cases")
                rec.count("cases_lost")
                saved[kind] = (saved[kind], which)
        usable = {k: v for k, v in saved.items() if isinstance(v, Setting)}
        metrics_only = rng.random() < 0.25 and all(
            usable.get(k) is s or k not in saved
            or k in usable and usable[k].case.cases[k] != s.case.cases[k]
            for k in s.kinds
        )
        trail.append(f"{'metrics of ' if metrics_only else ''}{s}")
        what = "history " + "; ".join(trail)
        got, simulated = sample(s, "events.log", metrics_only)
        rec.count("runs")
        rec.case((task["seed"], task["i"], step), bool(saved))
        if not compare(s, got, rec, what):
            return
        for kind in s.kinds:
            reuse = usable.get(kind) is s
            n = simulated.get(kind, 0)
            rec.count("reused", reuse)
            rec.count("metrics_reused", reuse and metrics_only)
            rec.count("metrics_of_others", metrics_only and not reuse and kind in usable)
            other = usable.get(kind)
            if other is not None and not reuse:
                rec.count("replaced")
                rec.count("other_number", other.case.cases[kind] != s.case.cases[kind])
                rec.count("other_species", other.n_species != s.n_species)
            if n != (0 if reuse else s.case.cases[kind]):
                rec.violation(
                    f"{what}: {n} {kind} cases were simulated, samples of these cases "
                    f"{'exist' if reuse else 'do not exist'}"
                )
                return
            if not metrics_only:
                saved[kind] = s
                missing = [f for f in files(kind) if not os.path.isfile(f)]
                if missing:
                    rec.violation(f"{what}: {missing} are missing afterwards")
                    return
        if set(simulated) - set(s.kinds):
            rec.violation(f"{what}: simulated {simulated}")


def others(task, rng, rec):
    """The samples of more, or fewer, cases are never reused for metrics alone."""
    kind = ("ignition", "psr", "flame")[task["i"] % 3]
    n = 1 + task["i"] // 3 % 3
    first = Setting(rng, "a", {**dict(ignition=0, psr=0, flame=0), kind: n})
    sample(first, "events.log")
    for m in (1, 2, 3, 4, 6):
        if m == n:
            continue
        second = Setting(rng, f"b{m}", {**dict(ignition=0, psr=0, flame=0), kind: m})
        what = f"metrics of {second} after samples of {first}"
        got, simulated = sample(second, "events.log", True)
        rec.count("metrics_of_others")
        rec.case(what)
        if not compare(second, got, rec, what):
            return
        if simulated != {kind: m}:
            rec.violation(f"{what}: simulated {simulated}")
            return
    got, simulated = sample(first, "events.log", True)
    rec.count("metrics_reused")
    what = f"metrics of {first} after metrics of other numbers of cases"
    if compare(first, got, rec, what) and simulated:
        rec.violation(f"{what}: simulated {simulated} again")


def cases_lost(rng, kind, setting):
    """Leave the rows of a different number of cases in one of the two files; returns its name."""
    n = setting.case.cases[kind]
    which = int(rng.integers(2))
    name = files(kind)[which]
    rows = open(name).read().splitlines()
    if len(rows) % n:
        return None
    per_case = len(rows) // n
    m = int(rng.integers(1, n + 2))
    if m == n:
        m = n + 1
    with open(name, "w") as fh:
        fh.write("\n".join((rows + rows)[: m * per_case]) + "\n")
    return name


def in_child(function, before=None):
    """Run in a forked process; returns its wait status."""
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            signal.setitimer(signal.ITIMER_PROF, 0)
            if before:
                before()
            function()
            code = 0
        except BaseException:
            code = 71
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    return status


def watched(folder):
    """Whether an audited file operation can change the contents of the folder."""

    def is_change(event, args):
        if event in ("os.remove", "os.rename", "os.truncate", "os.link", "os.symlink",
                     "os.rmdir", "shutil.move", "shutil.copyfile"):
            return True
        if event == "open" and isinstance(args[0], (str, bytes)):
            name = os.fsdecode(args[0])
            flags = args[2] if isinstance(args[2], int) else 0
            write = bool(flags & (os.O_WRONLY | os.O_RDWR))
            full = os.path.abspath(name)
            return write and full.startswith(folder) and not full.endswith((".log", ".yaml"))
        return False

    return is_change


def crash(task, rng, rec):
    """A run is killed while it writes; the runs after it return the values of fresh runs."""
    first = Setting(rng, "first")
    killed = different(rng, "killed", [first])
    rec.count("single_case", sum(s.case.cases[k] == 1 for s in (first, killed) for k in s.kinds))
    start = str(rng.choice(["empty", "complete", "complete", "partial"]))
    base = os.getcwd()
    point = 0
    while True:
        os.makedirs(f"at{point}")
        os.chdir(f"at{point}")
        for s in (first, killed):
            s.case.prepare()
        if start != "empty":
            sample(first, "first.log")
        if start == "partial":
            kind = str(rng.choice(first.kinds))
            os.remove(files(kind)[int(rng.integers(2))])
        what = (
            f"{start} start with {first}, run of {killed} killed at {task['kind']} {point}"
        )
        if task["kind"] == "operation":
            before = kill_at(point)
        else:
            size = int(rng.choice([1, 10, 100, 400, 1000, 3000])) + int(rng.integers(20))
            what += f" of {size} bytes"
            before = kill_beyond(size)
        status = in_child(lambda: sample(killed, "killed.log"), before)
        died = os.WIFSIGNALED(status) or os.WEXITSTATUS(status) == 137
        if not died and os.WEXITSTATUS(status) != 0:
            rec.violation(f"{what}: the run was not interrupted, but ended with {status}")
            return
        if died:
            rec.count("killed_at_operation" if task["kind"] == "operation" else "killed_in_write")
            rec.count("crash_points")
        # who comes next: the same run again, or the earlier one
        nxt = [killed, first][int(rng.random() < 0.35)]
        rec.case((what, nxt.name), start != "empty" or died)
        for again in range(2):
            try:
                got, simulated = sample(nxt, "next.log")
            except (Exception, SystemExit) as exc:
                rec.violation(f"{what}: the next run of {nxt} fails: {exc!r}; {listing()}")
                return
            if not compare(nxt, got, rec, f"{what}; next run of {nxt}"):
                return
            if again and simulated:
                rec.violation(f"{what}; {simulated} simulated again although samples were saved")
                return
        os.chdir(base)
        point += 1
        if task["kind"] == "operation":
            if not died:
                return
        elif point >= 6:
            return
        if point > 60:
            raise Inconclusive("too many operations")


def listing():
    return {f: os.path.getsize(f) for f in sorted(os.listdir("."))}


def kill_at(point):
    def before():
        change = watched(os.getcwd())
        state = dict(n=0)

        def hook(event, args):
            if change(event, args):
                if state["n"] == point:
                    os._exit(137)
                state["n"] += 1

        sys.addaudithook(hook)

    return before


def kill_beyond(size):
    def before():
        signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (size, resource.RLIM_INFINITY))

    return before


def real(task, rng, rec):
    """Real ignition runs killed at random times, sizes or operations."""
    from pymars import sampling
    from pymars.sampling import InputIgnition

    file = reactors.model_file("h2o2")
    mix = dict(equivalence_ratio=1.0, fuel={"H2": 1.0}, oxidizer={"O2": 1.0, "N2": 3.76})
    cases = [InputIgnition("constant volume", float(rng.uniform(1000, 1400)), 1.0, **mix)
             for _ in range(3)]
    os.makedirs("fresh")
    os.chdir("fresh")
    fresh = sampling.sample(os.path.join("..", file), cases)
    os.chdir("..")
    for point in range(6):
        os.makedirs(f"r{point}")
        os.chdir(f"r{point}")
        how = ("time", "size", "operation")[point % 3]
        if how == "size":
            before = kill_beyond(int(rng.choice([50, 3000, 20000, 60000])))
        elif how == "operation":
            before = kill_at(int(rng.integers(6)))
        else:
            delay = float(rng.uniform(0.0, 0.4))

            def before():
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.setitimer(signal.ITIMER_REAL, max(delay, 1e-3))

        status = in_child(lambda: sampling.sample(os.path.join("..", file), cases), before)
        rec.count("killed_real", status != 0)
        what = f"real cases {cases}, killed by {how}"
        rec.case((what, point, task["i"], task["seed"]), status != 0)
        left = listing()
        try:
            got = sampling.sample(os.path.join("..", file), cases)
        except (Exception, SystemExit) as exc:
            rec.violation(f"{what}: the next run fails: {exc!r}; files before it {left}")
            return
        for a, b in zip(got, fresh):
            if np.shape(a) != np.shape(b) or np.any(np.asarray(a) != np.asarray(b)):
                rec.violation(f"{what}: the next run gives other values; files before it {left}")
                return
        os.chdir("..")

