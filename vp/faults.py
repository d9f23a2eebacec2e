"""Faults injected into the real simulations, at chosen cases, steps and models.

Cases are told apart by their temperature, which the workloads make unique. The hooks sit at
the borders of the simulations (one integrator step, the continuation solver, Cantera's flame
solver), so everything that handles a failure is the real code.
"""

import json
import os

import cantera as ct


class Fault:
    """When a hook fails: at the k-th call of a case, for models without some species."""

    def __init__(self, at=0, error="cantera", speed=None, lacking=None):
        self.at = at
        self.error = error
        self.speed = speed
        self.lacking = lacking

    def applies(self, names):
        return self.lacking is None or self.lacking not in names

    def throw(self):
        if self.error == "runtime":
            raise RuntimeError("injected: no solution")
        raise ct.CanteraError("injected: the integrator failed")


class Faults:
    """Context manager; ``cases`` maps (kind, temperature) to a Fault.

    With ``quick_flames`` flames are not solved: they get an initial profile and the speed
    given by ``speeds`` (temperature -> m/s).
    """

    def __init__(self, cases=(), speeds=None, log=None):
        self.cases = dict(cases)
        self.speeds = speeds
        self.log = os.path.abspath(log) if log else None
        self.saved = []

    def write(self, **event):
        if self.log:
            event["pid"] = os.getpid()
            fd = os.open(self.log, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
            os.write(fd, (json.dumps(event) + "\n").encode())
            os.close(fd)

    def events(self):
        if not self.log or not os.path.isfile(self.log):
            return []
        with open(self.log) as fh:
            return [json.loads(line) for line in fh]

    def fault(self, kind, temperature, names):
        found = self.cases.get((kind, round(temperature, 3)))
        return found if found is not None and found.applies(names) else None

    def replace(self, owner, name, new):
        self.saved.append((owner, name, getattr(owner, name)))
        setattr(owner, name, new)

    def __enter__(self):
        from pymars import simulation

        faults = self
        step = simulation.IgnitionSimulation._step
        trace = simulation.trace_extinction_curve
        solve = ct.FreeFlame.solve

        def new_step(sim, *args, **kwargs):
            n = sim.__dict__["v_steps"] = sim.__dict__.get("v_steps", -1) + 1
            t = sim.properties.temperature
            fault = faults.fault("ignition", t, sim.gas.species_names)
            if n == 0:
                faults.write(kind="ignition", t=t)
            if fault is not None and n >= fault.at:
                faults.write(kind="ignition", t=t, fault=n)
                fault.throw()
            return step(sim, *args, **kwargs)

        def new_trace(gas, *args, **kwargs):
            t = gas.T
            faults.write(kind="psr", t=t)
            fault = faults.fault("psr", t, gas.species_names)
            if fault is not None:
                faults.write(kind="psr", t=t, fault=0)
                gas.TP = 0.5 * t, gas.P  # the solver leaves its own state behind
                fault.throw()
            return trace(gas, *args, **kwargs)

        def new_solve(flame, *args, **kwargs):
            t = flame.inlet.T
            faults.write(kind="flame", t=t)
            fault = faults.fault("flame", t, flame.gas.species_names)
            if fault is not None and fault.speed is None:
                faults.write(kind="flame", t=t, fault=0)
                fault.throw()
            if faults.speeds is None and fault is None:
                return solve(flame, *args, **kwargs)
            speed = fault.speed if fault is not None else faults.speeds[round(t, 3)]
            if fault is not None:
                faults.write(kind="flame", t=t, fault=0)
            flame.gas.TPY = flame.inlet.T, flame.P, flame.inlet.Y
            flame.set_initial_guess()
            flame.flame.set_profile("velocity", [0.0, 1.0], [speed, speed])

        self.replace(simulation.IgnitionSimulation, "_step", new_step)
        self.replace(simulation, "trace_extinction_curve", new_trace)
        self.replace(ct.FreeFlame, "solve", new_solve)
        return self

    def __exit__(self, *exc):
        for owner, name, old in reversed(self.saved):
            setattr(owner, name, old)
        self.saved = []
        return False
