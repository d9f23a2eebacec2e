"""Task runner, verdicts, evidence and replay files shared by all checks.

A check is a module ``vp.checks.<id>`` with

* ``LEVEL``, ``RULE``, ``ASSUMPTIONS`` (strings for the evidence file),
* ``tasks(tier, seed)``: list of JSON-serialisable task dicts (each replayable alone),
* ``run_task(task, rec)``: executes the real code under one workload and lets the
  oracle judge what was observed, reporting to ``rec``.

Verdicts are three-valued: a violation (exit 1), held on everything observed (exit 0),
or no answer (exit 2: the harness itself failed or observed too little).
"""

import errno
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import types

HOME = os.environ.get("VP_HOME", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VP_REPO", "/repo")
SCRATCH = os.environ.get("VP_SCRATCH") or tempfile.mkdtemp(prefix="vp.")
NPROC = int(os.environ.get("VP_NPROC", "8"))
CPU_BUDGET = 150
#: errors of the system that say nothing about the code under test
RESOURCES = (errno.ENOSPC, errno.ENOMEM, errno.EAGAIN, errno.EMFILE, errno.ENFILE, errno.EDQUOT)
WALL_LIMIT = {"quick": 780, "thorough": 5400}


class CpuBudget(BaseException):
    """The code under test used more CPU time than any terminating run needs."""


class Inconclusive(Exception):
    """The workload could not be judged (counts as not observed)."""


def digest(obj):
    return hashlib.sha1(repr(obj).encode()).hexdigest()[:16]


class Recorder:
    """Collects what the monitors of one task observed."""

    def __init__(self, task):
        self.task = task
        self.counts = {}
        self.cases = set()
        self.evaluations = 0
        self.violations = []
        self.samples = []
        self.inconclusive = []
        self.maxima = {}

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def maximum(self, name, value):
        value = float(value)
        if value > self.maxima.get(name, float("-inf")):
            self.maxima[name] = value

    def case(self, key, nontrivial=True, n=1):
        """One judged case; ``key`` identifies it, ``nontrivial`` by the check's rule."""
        self.evaluations += n
        if nontrivial:
            self.cases.add(digest(key))

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)

    def violation(self, message, key=None, **data):
        if len(self.violations) < 5:
            self.violations.append(dict(message=str(message)[:2000], key=key, data=data))

    def skip(self, why):
        self.inconclusive.append(str(why)[:400])

    def export(self):
        return dict(
            counts=self.counts,
            cases=sorted(self.cases),
            evaluations=self.evaluations,
            violations=self.violations,
            samples=self.samples,
            inconclusive=self.inconclusive,
            maxima=self.maxima,
            task=self.task,
        )


def from_repo(exc):
    """Whether the exception came out of the code under test (not of the harness)."""
    tb = exc.__traceback__
    src = os.path.join(REPO, "src") + os.sep
    last = None
    while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        if name.startswith(src):
            last = "repo"
        elif name.startswith(HOME + os.sep):
            last = "harness"
        tb = tb.tb_next
    return last == "repo"


class cpu_budget:
    """Raise CpuBudget after ``seconds`` of CPU time in this process."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def handler(signum, frame):
            raise CpuBudget(f"more than {self.seconds} s of CPU time")

        self.old = signal.signal(signal.SIGPROF, handler)
        signal.setitimer(signal.ITIMER_PROF, self.seconds)

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, self.old)
        return False


def describe(exc):
    text = "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))
    return text[-1500:]


def excusable(exc):
    """Whether a failure of the harness says nothing about the code under test.

    That is a lack of resources, or a name the harness needs that is not there. Anything
    else means that what the code under test left behind (a file, a returned object, a
    model) could not even be examined.
    """
    if isinstance(exc, (ImportError, MemoryError, subprocess.SubprocessError)):
        return True
    if isinstance(exc, OSError) and exc.errno in RESOURCES:
        return True
    if isinstance(exc, AttributeError):
        owner = getattr(exc, "obj", None)
        return owner is None or isinstance(owner, (type, types.ModuleType))
    return False


def attempt(module, task, rec):
    """Run the task in a directory of its own; returns the failure of the harness, if any."""
    here = tempfile.mkdtemp(prefix="task.", dir=SCRATCH)
    old = os.getcwd()
    os.chdir(here)
    try:
        with cpu_budget(task.get("cpu", CPU_BUDGET)):
            module.run_task(task, rec)
    except Inconclusive as exc:
        rec.skip(exc)
    except CpuBudget as exc:
        rec.violation(f"the run does not end: {exc}", key="nontermination")
    except MemoryError as exc:
        rec.skip("memory: " + str(exc))
    except (SystemExit, Exception) as exc:
        if from_repo(exc):
            rec.violation(
                f"unexpected failure on a valid input: {type(exc).__name__}: {exc}\n"
                + describe(exc)
            )
        else:
            return exc
    finally:
        os.chdir(old)
        shutil.rmtree(here, ignore_errors=True)
    return None


def run_one(module, task):
    rec = Recorder(task)
    failure = attempt(module, task, rec)
    if failure is not None:
        again = None
        if not excusable(failure) and not rec.violations:
            again = attempt(module, task, Recorder(task))
        if type(again) is type(failure):
            rec.violation(
                "what the run left behind cannot be examined (twice the same): "
                f"{type(failure).__name__}: {failure}\n" + describe(failure)
            )
        else:
            rec.skip("harness: " + describe(failure))
    return rec.export()


def _worker(module_name, tasks, counter, outfile, slot, current):
    import logging

    os.setpgrp()
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    logging.disable(logging.CRITICAL)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VP_DEBUG"):
        os.dup2(devnull, 2)
    module = importlib.import_module(module_name)
    with open(outfile, "ab") as out:
        while True:
            with counter.get_lock():
                i = counter.value
                counter.value += 1
                current[slot] = i
            if i >= len(tasks):
                break
            result = run_one(module, tasks[i])
            pickle.dump((i, result), out)
            out.flush()
            current[slot] = -1


def cpu_seconds(group):
    """CPU time used by the processes of a group, with their reaped children."""
    total = 0.0
    for name in os.listdir("/proc"):
        if not name.isdigit():
            continue
        try:
            with open(f"/proc/{name}/stat") as fh:
                fields = fh.read().rsplit(")", 1)[1].split()
        except OSError:
            continue
        if int(fields[2]) == group:
            total += sum(map(int, fields[11:15])) / os.sysconf("SC_CLK_TCK")
    return total


class Slot:
    """One worker process, watched from outside."""

    def __init__(self, index, module, tasks, counter, current, results):
        self.index, self.module, self.tasks = index, module, tasks
        self.counter, self.current, self.results = counter, current, results
        self.path = os.path.join(SCRATCH, f"out.{index}")
        self.start()

    def start(self):
        self.current[self.index] = -1
        self.task = None
        self.proc = mp.Process(
            target=_worker,
            args=(self.module.__name__, self.tasks, self.counter, self.path, self.index,
                  self.current),
        )
        self.proc.start()

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            self.proc.kill()
        self.proc.join()

    def note(self, task, violation=None, skip=None):
        rec = Recorder(self.tasks[task])
        if violation:
            rec.violation(violation, key="nontermination")
        else:
            rec.skip(skip)
        self.results[task] = rec.export()

    def watch(self):
        """Whether the worker is done; restarts it after a task that does not end."""
        task = self.current[self.index]
        if not self.proc.is_alive():
            self.proc.join()
            if 0 <= task < len(self.tasks) and self.proc.exitcode != 0:
                self.note(task, skip=f"the worker ended with status {self.proc.exitcode}")
                self.start()
                return False
            return True
        if task != self.task:
            self.task, self.since = task, time.time()
            self.used = cpu_seconds(self.proc.pid)
            return False
        wall = time.time() - self.since
        if not 0 <= task < len(self.tasks) or wall < 60:
            return False
        budget = self.tasks[task].get("cpu", CPU_BUDGET)
        used = cpu_seconds(self.proc.pid) - self.used
        if used > 1.3 * budget + 10:
            self.kill()
            self.note(task, f"the run does not end: more than {budget} s of CPU time")
        elif wall > 240 and used < 0.02 * wall:
            self.kill()
            self.note(task, f"the run does not end: idle after {used:.1f} s of CPU time")
        else:
            return False
        self.start()
        return False


def run_tasks(module, tasks, tier):
    """Run all tasks in forked workers; return {index: result} and whether time ran out."""
    start = time.time()
    counter = mp.Value("i", 0)
    number = min(NPROC, len(tasks)) or 1
    current = mp.Array("i", [-1] * number, lock=False)
    results = {}
    slots = [Slot(w, module, tasks, counter, current, results) for w in range(number)]
    running = list(slots)
    pause = 0.02
    while running and time.time() - start < WALL_LIMIT[tier]:
        time.sleep(pause)
        pause = min(pause * 1.2, 0.3)
        running = [slot for slot in running if not slot.watch()]
    for slot in running:
        slot.kill()
    for slot in slots:
        try:
            with open(slot.path, "rb") as fh:
                while True:
                    try:
                        i, result = pickle.load(fh)
                    except (EOFError, pickle.UnpicklingError):
                        break
                    results[i] = result
        except FileNotFoundError:
            pass
    return results, bool(running)


def known_findings(prop):
    path = os.path.join(HOME, "known_findings.json")
    if not os.path.isfile(path):
        return {}
    with open(path) as fh:
        entries = json.load(fh)["findings"]
    return {
        e["key"]: e["what"]
        for e in entries
        if e["property"] == prop and e.get("status") == "open"
    }


def jsonable(obj):
    return json.loads(json.dumps(obj, default=repr))


def write_replay(prop, n, result, violation):
    directory = os.path.join(HOME, "evidence", "replay")
    os.makedirs(directory, exist_ok=True)
    path = os.path.join(directory, f"{prop}-{n}.json")
    with open(path, "w") as fh:
        json.dump(
            jsonable(dict(property=prop, task=result["task"], **violation)), fh, indent=1
        )
    return path


def main(argv):
    prop, tier = argv[0], argv[1]
    replay = argv[argv.index("--replay") + 1] if "--replay" in argv else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    start = time.time()
    try:
        module = importlib.import_module(f"vp.checks.{prop.lower()}")
        if replay:
            with open(replay) as fh:
                tasks = [json.load(fh)["task"]]
        else:
            tasks = module.tasks(tier, seed)
    except Exception as exc:
        print(f"ERROR property={prop} cannot start: {describe(exc)}")
        return 2

    results, expired = run_tasks(module, tasks, tier)

    counts, maxima, cases = {}, {}, set()
    samples, inconclusive, found = [], [], []
    evaluations = 0
    for i in sorted(results):
        r = results[i]
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        for k, v in r["maxima"].items():
            maxima[k] = max(v, maxima.get(k, v))
        cases.update(r["cases"])
        evaluations += r["evaluations"]
        if len(samples) < 4:
            samples += r["samples"][:1]
        inconclusive += r["inconclusive"]
        found += [(r, v) for v in r["violations"]]

    known = known_findings(prop)
    seen_known, violations = {}, []
    for r, v in found:
        if v["key"] in known:
            seen_known.setdefault(v["key"], v["message"])
        else:
            violations.append((r, v))

    evidence = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level=module.LEVEL,
        coverage=dict(
            evaluations=evaluations,
            distinct_nontrivial=len(cases),
            rule=module.RULE,
            samples=jsonable(samples) or ["none"],
            tasks=len(tasks),
            tasks_finished=len(results),
            not_judged=len(inconclusive),
            observed=counts,
            maxima=maxima,
            known_findings_seen=sorted(seen_known),
        ),
        assumptions=list(getattr(module, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - start, 2),
        violations=len(violations),
    )
    if not replay:
        os.makedirs(os.path.join(HOME, "evidence"), exist_ok=True)
        with open(os.path.join(HOME, "evidence", f"{prop}.json"), "w") as fh:
            json.dump(evidence, fh, indent=1)

    print(
        f"{prop} {tier} seed={seed}: {len(results)}/{len(tasks)} tasks, "
        f"{evaluations} evaluations, {len(cases)} distinct non-trivial, "
        f"{len(inconclusive)} not judged, {time.time() - start:.1f} s"
    )
    print("observed: " + json.dumps(counts, sort_keys=True))
    if maxima:
        print("maxima: " + json.dumps(maxima, sort_keys=True))
    for key in sorted(seen_known):
        print(f"KNOWN-FINDING: property={prop} {known[key]}")
    if violations:
        for n, (r, v) in enumerate(violations[:5]):
            path = write_replay(prop, n, r, v)
            print(f"VIOLATION property={prop} replay={path}")
            print("  " + v["message"].replace("\n", "\n  "))
        return 1
    for why in inconclusive[:5]:
        print("not judged: " + why)
    if replay:
        return 0
    missing = len(tasks) - len(results)
    if expired or missing:
        print(f"NO ANSWER: {missing} tasks unfinished (time limit: {expired})")
        return 2
    harness = sum(1 for w in inconclusive if w.startswith("harness"))
    if harness:
        print(f"NO ANSWER: {harness} harness failures")
        return 2
    if len(cases) < getattr(module, "MIN_CASES", 2) or len(inconclusive) > 0.2 * max(
        evaluations, 1
    ):
        print("NO ANSWER: too little was observed")
        return 2
    for name in getattr(module, "REQUIRED_EVENTS", ()):
        if not counts.get(name):
            print(f"NO ANSWER: the monitors never saw '{name}'")
            return 2
    print(f"HELD property={prop}")
    return 0
