"""Random coefficient matrices for the graph-search checks."""

import numpy as np

KINDS = (
    "dense", "sparse", "dyadic", "grid", "cycle", "chain", "blocks", "layers", "ones", "zero",
    "tiny", "star", "ladder",
)


def matrix(rng, n, kind, top=1.0):
    """n x n matrix with zero diagonal and entries in [0, top]."""
    m = np.zeros((n, n))
    if kind == "dense":
        m = rng.random((n, n))
    elif kind == "sparse":
        m = rng.random((n, n)) * (rng.random((n, n)) < 1.5 / n)
    elif kind == "dyadic":
        m = 2.0 ** -rng.integers(0, 6, (n, n)) * (rng.random((n, n)) < 2.5 / n)
    elif kind == "grid":
        m = rng.integers(0, 11, (n, n)) / 10.0 * (rng.random((n, n)) < 2.0 / n)
    elif kind == "cycle":
        order = rng.permutation(n)
        for a, b in zip(order, np.roll(order, -1)):
            m[a, b] = rng.random()
        m += rng.random((n, n)) * (rng.random((n, n)) < 0.5 / n)
        m = np.minimum(m, 1.0)
    elif kind == "chain":
        order = rng.permutation(n)
        for a, b in zip(order[:-1], order[1:]):
            m[a, b] = rng.choice([1.0, 0.9, 0.5, rng.random()])
    elif kind == "blocks":
        half = rng.random(n) < 0.5
        m = rng.random((n, n)) * (half[:, None] == half[None, :]) * (rng.random((n, n)) < 0.4)
    elif kind == "layers":
        layer = rng.integers(0, 4, n)
        m = rng.random((n, n)) * (layer[None, :] == layer[:, None] + 1)
    elif kind == "ones":
        m = 1.0 * (rng.random((n, n)) < 1.5 / n)
    elif kind == "tiny":
        m = 10.0 ** rng.uniform(-12, 0, (n, n)) * (rng.random((n, n)) < 0.5)
    elif kind == "star":
        hub = int(rng.integers(n))
        m[hub, :] = rng.random(n)
        m[:, hub] = rng.random(n)
    elif kind == "ladder":
        # many detours: a long path of large steps beats short paths of small ones
        for i in range(n - 1):
            m[i, i + 1] = rng.uniform(0.9, 1.0)
            for j in range(i + 2, min(n, i + 4)):
                m[i, j] = rng.uniform(0.3, 0.9)
        order = rng.permutation(n)
        m = m[np.ix_(order, order)]
    m = np.clip(m, 0.0, 1.0) * top
    np.fill_diagonal(m, 0.0)
    return m


def names(rng, n):
    pool = [f"S{i}" for i in range(n)]
    if rng.random() < 0.3:
        pool = ["H2", "h2", "CH2(S)", "N-C", "1", "0", "A+", "e_"] + pool
    rng.shuffle(pool)
    return [str(s) for s in pool[:n]]
