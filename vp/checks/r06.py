"""R06: PFA coefficients equal their published definition."""

from vp import coefs
from vp.coefs import ASSUMPTIONS, LEVEL, NOTE, RULE, TECHNIQUE, run_task  # noqa: F401

REQUIRED_EVENTS = ("rows_compared", "states_equilibrium", "states_pure", "repeated_states")
MIN_CASES = 500


def tasks(tier, seed):
    return coefs.tasks(tier, seed, "pfa")
