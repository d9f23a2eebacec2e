"""Workloads of whole reductions over virtual chemistry, with reference algorithms.

``Case`` describes one reduction (JSON-serialisable choices only); ``Case.run`` performs it
with the real code; the ``reference_*`` functions give the set of allowed outcomes from the
definition of the algorithm. Ties within 1e-9 are resolved either way.
"""

import os

import cantera as ct
import numpy as np

from vp import gen, oracle, virtual

METHODS = ("DRG", "DRGEP", "PFA")
MINIMUM = {"DRG": 1e-5, "PFA": 1e-5, "DRGEP": 1e-6}


class Case:
    def __init__(self, rng, method=None, sa=None, n_species=(4, 9), modes=None, small=False):
        self.method = method if method is not None else str(rng.choice([*METHODS, ""]))
        self.sa = bool(rng.random() < 0.5) if sa is None else sa
        if not self.method:
            self.sa = True
        self.algorithm = str(rng.choice(["initial", "greedy"]))
        # without sensitivity analysis, its kind may be left open
        self.untyped = False
        self.data = None
        while self.data is None:
            source = str(rng.choice(["h2o2", "gri30", "gri30", "ohn"]))
            data = gen.submechanism(rng, source, *n_species)
            if rng.random() < 0.2:
                data = gen.with_odd_names(rng, data, share=float(rng.choice([0.4, 1.0])))
            try:
                gas = gen.solution(data)
            except ct.CanteraError:
                continue
            if gas.n_reactions >= 3:
                self.data = data
        self.species = list(gas.species_names)
        names = list(self.species)
        rng.shuffle(names)
        n_target = int(rng.choice([1, 1, 2, 3]))
        self.targets = [str(s) for s in names[:n_target]]
        n_safe = int(rng.choice([0, 0, 1, 2]))
        rest = [str(s) for s in names[n_target:]]
        self.safe = rest[:n_safe]
        if rng.random() < 0.15:
            self.safe.append(self.targets[0])
        self.cases = dict(
            ignition=int(rng.choice([0, 1, 2, 3])),
            psr=int(rng.choice([0, 0, 1, 2])),
            flame=int(rng.choice([0, 0, 1, 2])),
        )
        if not sum(self.cases.values()):
            self.cases[str(rng.choice(["ignition", "psr", "flame"]))] = 1
        mode = str(rng.choice(modes or virtual.Landscape.MODES))
        fatal = [s for s in names if rng.random() < 0.12]
        self.landscape = virtual.Landscape(
            int(rng.integers(2**31)),
            self.species,
            mode,
            scale=float(rng.choice([2.0, 10.0, 60.0])),
            fatal=fatal if rng.random() < 0.6 else (),
        )
        self.limit = float(rng.choice([0.5, 3.0, 10.0, 25.0, 60.0, 97.0]))
        self.upper = float(rng.choice([0.05, 0.1, 0.3, 0.6, 1.0])) if rng.random() < 0.6 else None
        self.phase = "gas" if rng.random() < 0.3 else ""
        self.path = str(rng.choice(["", "", "out", os.path.join("deep", "out.dir")]))
        self.threads = 1
        self.limbo = []
        if not self.method and rng.random() < 0.6:
            pool = [s for s in names if rng.random() < 0.5]
            self.limbo = [str(s) for s in pool]
        #: mixture of every case; its species are retained
        self.mixture = {str(s): 1.0 for s in rng.choice(names, 2, replace=False)} if len(
            names
        ) > 1 else {names[0]: 1.0}
        self.mechanism_name = "mech.yaml"

    def describe(self):
        return dict(
            method=self.method,
            sensitivity_analysis=self.sa and self.algorithm,
            species=self.species,
            targets=self.targets,
            safe=self.safe,
            cases=self.cases,
            landscape=self.landscape.mode,
            limit=self.limit,
            upper=self.upper,
            limbo=self.limbo,
        )

    def conditions(self):
        from pymars.sampling import InputIgnition, InputLaminarFlame, InputPSR

        ign = [
            InputIgnition("constant volume", 1000.0 + i, 1.0, reactants=dict(self.mixture))
            for i in range(self.cases["ignition"])
        ]
        psr = [
            InputPSR(400.0 + i, 1.0, reactants=dict(self.mixture))
            for i in range(self.cases["psr"])
        ]
        flame = [
            InputLaminarFlame(300.0 + i, 1.0, 0.1, reactants=dict(self.mixture))
            for i in range(self.cases["flame"])
        ]
        return ign, psr, flame

    def input_dict(self):
        """The same reduction as an input file."""
        out = dict(
            model=self.mechanism_name,
            error=self.limit,
            targets=list(self.targets),
        )
        out["retained-species"] = list(self.safe)
        if self.method:
            out["method"] = self.method
        if self.sa:
            out["sensitivity-analysis"] = True
            out["sensitivity-type"] = self.algorithm
        if self.upper:
            out["upper-threshold"] = self.upper
        if self.phase:
            out["phase-name"] = self.phase
        mix = dict(self.mixture)
        if self.cases["ignition"]:
            out["autoignition-conditions"] = [
                dict(kind="constant volume", temperature=1000.0 + i, pressure=1.0, reactants=dict(mix))
                for i in range(self.cases["ignition"])
            ]
        if self.cases["psr"]:
            out["psr-conditions"] = [
                dict(temperature=400.0 + i, pressure=1.0, reactants=dict(mix))
                for i in range(self.cases["psr"])
            ]
        if self.cases["flame"]:
            out["laminar-flame-conditions"] = [
                dict(temperature=300.0 + i, pressure=1.0, width=0.1, reactants=dict(mix))
                for i in range(self.cases["flame"])
            ]
        return out

    def tune_limit(self, rng):
        """Choose a limit in between the errors that occur during a search."""
        if not self.method:
            return
        errors = set()
        for threshold in (1e-4, 1e-3, 3e-3, 1e-2, 3e-2, 0.1, 0.2, 0.4, 0.7, 0.95):
            errors.add(round(self.error(self.kept_at(threshold)), 9))
        errors = sorted(e for e in errors if 0 < e < 100)
        if errors:
            self.limit = float(rng.choice(errors)) * float(rng.choice([0.9, 1.001, 1.3]))
            self.limit = min(self.limit, 99.5)

    def protected(self):
        return set(self.targets) | set(self.safe)

    def prepare(self):
        if self.path:
            os.makedirs(self.path, exist_ok=True)
        gen.write(self.data, self.mechanism_name)

    def run(self, log=None, delays=None):
        """Run with the library's driver; returns (ReducedModel or None, virtual)."""
        from pymars.pymars import main

        ign, psr, flame = self.conditions()
        with virtual.Virtual(self.landscape, log, delays) as v:
            try:
                model = main(
                    self.mechanism_name,
                    self.limit,
                    ign,
                    psr_conditions=psr,
                    flame_conditions=flame,
                    method=self.method,
                    target_species=list(self.targets),
                    safe_species=list(self.safe),
                    phase_name=self.phase,
                    run_sensitivity_analysis=self.sa,
                    upper_threshold=self.upper,
                    sensitivity_type=self.algorithm if self.sa or not self.untyped else None,
                    path=self.path,
                    num_threads=self.threads,
                )
            except SystemExit:
                model = None
        return model, v

    def run_graph(self, log=None):
        """Run only the graph method, through its own function."""
        import pymars.drg
        import pymars.drgep
        import pymars.pfa

        run = {
            "DRG": pymars.drg.run_drg,
            "DRGEP": pymars.drgep.run_drgep,
            "PFA": pymars.pfa.run_pfa,
        }[self.method]
        kwargs = dict(
            phase_name=self.phase, num_threads=self.threads, path=self.path,
            threshold_upper=self.upper,
        )
        ign, psr, flame = self.conditions()
        with virtual.Virtual(self.landscape, log) as v:
            try:
                model = run(
                    self.mechanism_name,
                    ign,
                    psr,
                    flame,
                    self.limit,
                    list(self.targets),
                    list(self.safe),
                    **kwargs,
                )
            except SystemExit:
                model = None
        return model, v

    def run_sa(self, model_file, error, limbo, safe, log=None, limit=None):
        from pymars.sensitivity_analysis import run_sa

        ign, psr, flame = self.conditions()
        with virtual.Virtual(self.landscape, log) as v:
            model = run_sa(
                model_file,
                error,
                ign,
                psr,
                flame,
                self.limit if limit is None else limit,
                safe,
                phase_name=self.phase,
                algorithm_type=self.algorithm,
                species_limbo=limbo,
                num_threads=self.threads,
                path=self.path,
            )
        return model, v

    # reference ------------------------------------------------------------

    def error(self, kept):
        return self.landscape.error(self.cases, frozenset(kept))

    def matrices(self):
        if not hasattr(self, "_matrices"):
            self._matrices = {}
        kind = self.method.lower()
        if kind not in self._matrices:
            gas = gen.solution(self.data)
            out = []
            for phen in ("ignition", "psr", "flame"):
                for idx in range(self.cases[phen]):
                    for row in virtual.states(self.landscape.seed, phen, idx, gas):
                        rates = oracle.StateRates(gas, (row[0], row[1], row[2:]))
                        out.append(oracle.COEFFICIENTS[kind](rates))
            self._matrices[kind] = out
        return self._matrices[kind]

    def importance(self):
        index = {s: i for i, s in enumerate(self.species)}
        targets = [index[t] for t in self.targets]
        return np.max([oracle.importance(m, targets) for m in self.matrices()], axis=0)

    def kept_at(self, threshold, slack=0.0):
        """Species kept by the graph method at a threshold."""
        index = {s: i for i, s in enumerate(self.species)}
        limit = threshold * (1.0 + slack)
        if self.method == "DRGEP":
            coeff = self.importance()
            kept = {s for s in self.species if coeff[index[s]] >= limit}
        else:
            kept = set()
            for m in self.matrices():
                kept |= {
                    self.species[i]
                    for i in oracle.reachable(m, [index[t] for t in self.targets], limit)
                }
        return frozenset(kept | set(self.safe) | set(self.targets))

    def largest(self):
        if self.method == "DRGEP":
            return 1.0
        return max(float(m.max()) for m in self.matrices())

    def reference_graph(self, slack=0.0, cap=np.inf, minimum=True):
        """Outcome of the threshold search: (kept, error) or None for an exit.

        No threshold above ``cap`` is tried; ``minimum`` is whether the search may start
        at the documented minimum itself.
        """
        start = 1e-2
        smallest = MINIMUM[self.method]
        cache = {}

        def evaluate(t):
            kept = self.kept_at(t, slack)
            if kept not in cache:
                cache[kept] = self.error(kept)
            return kept, cache[kept]

        while True:
            kept, error = evaluate(start)
            if error <= self.limit:
                break
            start /= 10.0
            if start <= smallest * (1 - 1e-9 if minimum else 1 + 1e-9):
                return None
        best = (kept, error)
        largest = self.largest()
        points = sorted(self.breakpoints())
        k = 1
        while True:
            k += 1
            threshold = start * k
            # nothing changes before the next coefficient
            nxt = next((p for p in points if p > threshold * (1 - 2e-9)), None)
            if nxt is not None and nxt > threshold * (1 + 4e-9):
                skip = int((nxt / start) * (1 - 3e-9)) - k
                if skip > 1:
                    k += skip - 1
                    threshold = start * k
            if threshold > largest * (1 + 4e-9) + start or threshold > cap:
                return best
            kept, error = evaluate(threshold)
            if error > self.limit:
                return best
            best = (kept, error)

    def breakpoints(self):
        if not hasattr(self, "_points"):
            self._points = {}
        if self.method not in self._points:
            if self.method == "DRGEP":
                values = self.importance()
            else:
                values = np.unique(np.concatenate([m.ravel() for m in self.matrices()]))
            self._points[self.method] = [float(v) for v in values if v > 0]
        return self._points[self.method]

    def references_graph(self):
        # the importance of a target is one: whether DRGEP tries the threshold one itself,
        # or removes species as important as the targets, is not specified
        caps = (1 - 1e-7, 1 + 1e-7, np.inf) if self.method == "DRGEP" else (np.inf,)
        # whether a search may start at the documented minimum itself is not specified either
        return [
            self.reference_graph(s, c, m)
            for m in (True, False)
            for c in caps
            for s in (0.0, -1e-9, 1e-9)
        ]

    def limbo_at(self, kept, upper, slack=0.0):
        needed = self.kept_at(upper, slack)
        return {s for s in kept if s not in needed and s not in self.protected()}


def reference_sa(evaluate, start, start_error, limit, candidates, algorithm):
    """All outcomes {(kept, error)} that the definition of the analysis allows.

    ``evaluate(kept)`` is the error of a model against the original one.
    """
    start = frozenset(start)
    memo = {}
    initial = {s: evaluate(start - {s}) for s in candidates}

    def go(kept, error, left):
        key = (kept, left)
        if key in memo:
            return memo[key]
        out = set()
        if not left:
            out.add((kept, error))
        else:
            if algorithm == "greedy":
                errors = {s: evaluate(kept - {s}) for s in left}
                if min(errors.values()) > limit:
                    memo[key] = {(kept, error)}
                    return memo[key]
            else:
                errors = {s: initial[s] for s in left}
            best = min(abs(errors[s] - error) for s in left)
            for s in left:
                if abs(errors[s] - error) <= best + 1e-9:
                    new = evaluate(kept - {s})
                    if new > limit:
                        out.add((kept, error))
                    else:
                        out |= go(kept - {s}, new, left - {s})
        memo[key] = out
        return out

    return go(start, start_error, frozenset(candidates))
