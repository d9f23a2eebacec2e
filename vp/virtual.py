"""Virtual chemistry: deterministic stand-ins for the three kinds of simulation.

The search algorithms only see the metrics and sampled states of the simulations, so their
behaviour over *all* error landscapes can be driven by replacing the simulations (public
methods of the simulation classes) by a function of the species in the model file that the
code under test actually wrote and asked to simulate. Every simulated case is logged.
"""

import hashlib
import json
import os
import time

import cantera as ct
import numpy as np

#: numbers of metrics and of sampled states per case
SHAPE = {"ignition": (1, 5), "psr": (3, 3), "flame": (1, 5)}


def unit(*parts):
    """Deterministic number in [0, 1) from the parts."""
    h = hashlib.blake2b(repr(parts).encode(), digest_size=8).digest()
    return int.from_bytes(h, "big") / 2**64


class Landscape:
    """Metrics as a function of (phenomenon, case, species kept)."""

    MODES = ("additive", "additive", "hash", "cliff", "free", "strict", "mixed")

    def __init__(self, seed, species, mode, scale=10.0, fatal=(), zero_cases=()):
        self.seed = seed
        self.species = frozenset(species)
        self.mode = mode
        self.scale = scale
        self.fatal = frozenset(fatal)
        # removing these fails in every case
        self.vital = frozenset()
        # cases that give no metric at all: (phenomenon, index)
        self.zero_cases = frozenset(zero_cases)

    def base(self, kind, idx, comp):
        if kind == "psr" and comp:
            return 1200.0 + 900.0 * unit(self.seed, "base", kind, idx, comp)
        return 10 ** (-4 + 4 * unit(self.seed, "base", kind, idx, comp))

    def deviation(self, kind, idx, comp, kept):
        """Signed relative deviation in percent; None if the metric is lost."""
        removed = self.species - kept
        if (kind, idx) in self.zero_cases:
            return None
        if not removed:
            return 0.0
        if removed & self.vital:
            return None
        for sp in removed & self.fatal:
            if unit(self.seed, "fatal", kind, idx, sp) < 0.6:
                return None
        key = (self.seed, kind, idx, comp)
        sign = 1.0 if unit(*key, "sign") < 0.5 else -1.0
        if self.mode == "free":
            return sign * 1e-3 * unit(*key, sorted(kept))
        if self.mode == "strict":
            return sign * (1e3 if sign > 0 else 99.0)
        if self.mode == "cliff":
            bad = [sp for sp in removed if unit(self.seed, "cliff", sp) < 0.3]
            return sign * (0.01 * len(removed) + 80.0 * bool(bad))
        total = 0.0
        if self.mode == "joint":
            # many removals have no effect at all alone, but have one together
            silent = sorted(sp for sp in removed if unit(self.seed, "silent", sp) < 0.55)
            for i, sp in enumerate(silent):
                for other in silent[:i]:
                    total += sign * self.scale * unit(self.seed, "pair", other, sp) ** 2
            for sp in removed - set(silent):
                total += sign * 0.5 * self.scale * unit(*key, "w", sp) ** 2
        if self.mode in ("additive", "mixed"):
            for sp in removed:
                w = unit(*key, "w", sp)
                s = 1.0 if unit(*key, "s", sp) < 0.7 else -1.0
                total += s * self.scale * w**3
        if self.mode in ("hash", "mixed"):
            total += self.scale * unit(*key, sorted(kept)) ** 2 * min(len(removed), 4) / 4
        return float(np.clip(total, -99.0, 1e6))

    def metric(self, kind, idx, kept):
        out = []
        for comp in range(SHAPE[kind][0]):
            d = self.deviation(kind, idx, comp, kept)
            if d is None:
                return np.zeros(SHAPE[kind][0])
            out.append(self.base(kind, idx, comp) * (1.0 + d / 100.0))
        return np.array(out)

    def metrics(self, cases, kept):
        """All metrics in the documented order: ignition, PSR, flame."""
        out = []
        for kind in ("ignition", "psr", "flame"):
            for idx in range(cases.get(kind, 0)):
                out += list(self.metric(kind, idx, frozenset(kept)))
        return out

    def error(self, cases, kept):
        original = self.metrics(cases, self.species)
        test = self.metrics(cases, kept)
        if any(v == 0.0 for v in test):
            return 100.0
        return max(100.0 * abs(o - t) / abs(o) for o, t in zip(original, test))


def states(seed, kind, idx, gas):
    """Sampled states of a case of the original model: (rows, 2 + n_species)."""
    n = gas.n_species
    words = [int(unit(seed, "states", kind, idx) * 2**32)]
    rng = np.random.default_rng(words)
    rows = []
    # in some landscapes, species have typical abundances over many orders of magnitude
    wide = unit(seed, "wide") < 0.6
    typical = [10 ** (-14 * unit(seed, "abundance", sp)) for sp in gas.species_names]
    # in some, all states have nearly the same temperature and pressure
    alike = unit(seed, "alike") < 0.2
    for _ in range(SHAPE[kind][1]):
        y = rng.dirichlet(np.ones(n) * rng.choice([0.3, 1.0]))
        if wide:
            y = np.array(typical) * 10 ** rng.uniform(-1, 1, n)
            y = y / y.sum()
        elif rng.random() < 0.2:
            y = y * (rng.random(n) < 0.7)
            y = y / y.sum() if y.sum() > 0 else np.ones(n) / n
        t, p = rng.uniform(900, 2600), ct.one_atm * 10 ** rng.uniform(0, 1)
        if alike:
            t, p = 1500.0 + 1e-4 * t, ct.one_atm * (1.0 + 1e-9 * t)
        rows.append(np.concatenate([[t, p], y]))
    return np.array(rows)


class Virtual:
    """Context manager that replaces the simulations and logs every simulated case."""

    def __init__(self, landscape, log=None, delays=None, states_seed=None, ends=False):
        self.landscape = landscape
        self.log = os.path.abspath(log) if log else None
        self.delays = delays
        self.ends = ends
        self.states_seed = landscape.seed if states_seed is None else states_seed
        self.saved = []

    def write(self, **event):
        if not self.log:
            return
        event["pid"] = os.getpid()
        fd = os.open(self.log, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, (json.dumps(event) + "\n").encode())
        os.close(fd)

    def events(self):
        if not self.log or not os.path.isfile(self.log):
            return []
        with open(self.log) as fh:
            return [json.loads(line) for line in fh]

    def most_at_once(self):
        """Largest number of simulations that ran at the same time (with ``ends``)."""
        now = most = 0
        for e in self.events():
            now += -1 if e["ev"] == "end" else 1
            most = max(most, now)
        return most

    def __enter__(self):
        from pymars import simulation

        self.patch(simulation.IgnitionSimulation, "ignition")
        self.patch(simulation.PSRSimulation, "psr")
        self.patch(simulation.FlameSimulation, "flame")
        return self

    def __exit__(self, *exc):
        for cls, name, old in reversed(self.saved):
            if old is None:
                delattr(cls, name)
            else:
                setattr(cls, name, old)
        self.saved = []
        return False

    def patch(self, cls, kind):
        virtual = self
        land = self.landscape

        def pause(sim):
            if virtual.delays:
                time.sleep(virtual.delays(kind, sim.idx))

        def value(metric):
            return metric if kind == "psr" else float(metric[0])

        def setup_case(sim):
            sim.v_gas = ct.Solution(sim.model, sim.phase_name)
            sim.v_species = list(sim.v_gas.species_names)

        def evaluate(sim, what):
            kept = frozenset(sim.v_species)
            metric = land.metric(kind, sim.idx, kept)
            virtual.write(
                ev=what, kind=kind, idx=sim.idx, species=sorted(kept), metric=list(metric),
                case=list(map(repr, sim.properties)),
            )
            pause(sim)
            if virtual.ends:
                virtual.write(ev="end", kind=kind, idx=sim.idx)
            return metric

        def run_case(sim, *args, **kwargs):
            metric = evaluate(sim, "sample")
            if not metric.all():
                raise RuntimeError(f"no metric for {kind} case {sim.idx}")
            sim.v_metric = metric
            return value(metric)

        def calculate(sim, *args, **kwargs):
            return value(evaluate(sim, "metric"))

        def process_results(sim, skip_data=False):
            if not hasattr(sim, "v_metric"):
                run_case(sim)
            if skip_data:
                return value(sim.v_metric)
            return value(sim.v_metric), states(virtual.states_seed, kind, sim.idx, sim.v_gas)

        for name, new in (
            ("setup_case", setup_case),
            ("run_case", run_case),
            ("calculate", calculate),
            ("process_results", process_results),
        ):
            self.saved.append((cls, name, cls.__dict__.get(name)))
            setattr(cls, name, new)
