"""Workload generators: kinetic mechanisms, thermochemical states, small files.

Mechanisms are plain dictionaries in Cantera's YAML input format (SI units), written as
JSON, which is YAML. They are made from real species data with either real reactions
(sub-mechanisms of published mechanisms) or made-up balanced reactions of every rate type.
"""

import functools
import itertools
import json
import os

import cantera as ct
import numpy as np

REAL = {
    "h2o2": "h2o2.yaml",
    "ohn": "ohn.yaml",
    "gri30": "gri30.yaml",
    "air": "air.yaml",
    "ion": "gri30_ion.yaml",
    "nh3": "example_data/ammonia-CO-H2-Alzueta-2023.yaml",
}


def rng_of(*parts):
    """Generator seeded by any mix of integers and strings, stable over processes."""
    words = []
    for p in parts:
        if isinstance(p, str):
            words += list(p.encode())
        else:
            words.append(int(p) & 0xFFFFFFFF)
    return np.random.default_rng(words)


@functools.lru_cache(None)
def real(name):
    return ct.Solution(REAL[name])


@functools.lru_cache(None)
def real_data(name):
    """Species and reaction data of a real mechanism, as plain dictionaries."""
    gas = real(name)
    species = {sp.name: plain(sp.input_data) for sp in gas.species()}
    reactions = []
    for r in gas.reactions():
        tb = r.third_body
        collider = None
        if tb is not None and not tb.default_efficiency:
            collider = sorted(tb.efficiencies)
        members = set(r.reactants) | set(r.products) | set(r.orders)
        reactions.append((members, collider, plain(r.input_data)))
    return species, reactions


def plain(obj):
    if isinstance(obj, dict):
        return {str(k): plain(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [plain(v) for v in obj]
    if isinstance(obj, np.ndarray):
        return obj.tolist()
    if isinstance(obj, np.generic):
        return obj.item()
    return obj


def elements_of(species):
    out = []
    for sp in species:
        for el in sp["composition"]:
            if el not in out:
                out.append(el)
    return out


def mechanism(species, reactions, transport="mixture-averaged", name="gas", extra=None):
    phase = dict(
        name=name,
        thermo="ideal-gas",
        elements=elements_of(species),
        species=[sp["name"] for sp in species],
        kinetics="bulk",
        reactions="all" if reactions else "none",
        state=dict(T=300.0, P=101325.0),
    )
    if transport and all("transport" in sp for sp in species):
        phase["transport"] = transport
    if not reactions:
        phase.pop("kinetics")
        phase.pop("reactions")
    data = dict(
        phases=[phase] + list(extra or []), species=list(species), reactions=list(reactions)
    )
    if not reactions:
        data.pop("reactions")
    return data


def write(data, filename):
    with open(filename, "w") as fh:
        json.dump(data, fh)
    return filename


def solution(data, phase=""):
    if phase:
        return ct.Solution(yaml=json.dumps(data), name=phase)
    return ct.Solution(yaml=json.dumps(data))


def submechanism(rng, name, n_min=4, n_max=14, must=(), transport="mixture-averaged"):
    """Random sub-mechanism of a real one: a species subset with all its reactions."""
    species, reactions = real_data(name)
    names = list(species)
    size = int(rng.integers(n_min, min(n_max, len(names)) + 1))
    chosen = set(must)
    others = [sp for sp in names if sp not in chosen]
    rng.shuffle(others)
    # prefer species that come with reactions
    pool = [m for m, c, _ in reactions if len(m) <= 4]
    for _ in range(200):
        if len(chosen) >= size or not pool:
            break
        m = pool[int(rng.integers(len(pool)))]
        if len(chosen | m) <= size:
            chosen |= m
    for sp in others:
        if len(chosen) >= size:
            break
        chosen.add(sp)
    order = [sp for sp in names if sp in chosen]
    if rng.random() < 0.5:
        rng.shuffle(order)
    keep = []
    for members, collider, data in reactions:
        if not members <= chosen:
            continue
        if collider is not None and not set(collider) <= chosen:
            continue
        data = dict(data)
        if "efficiencies" in data:
            data["efficiencies"] = {
                k: v for k, v in data["efficiencies"].items() if k in chosen
            }
            if not data["efficiencies"]:
                del data["efficiencies"]
        keep.append(data)
    return mechanism([species[sp] for sp in order], keep, transport=transport)


def side(stoich):
    parts = []
    for sp, nu in stoich:
        if nu == 1:
            parts.append(sp)
        elif nu == int(nu):
            parts.append(f"{int(nu)} {sp}")
        else:
            parts.append(f"{nu} {sp}")
    return " + ".join(parts)


@functools.lru_cache(None)
def _combos(compositions):
    """All balanced (reactant multiset, product multiset) pairs with <= 2 species a side."""
    comp = dict(compositions)
    groups = {}
    names = list(comp)
    for n in (1, 2):
        for multi in itertools.combinations_with_replacement(names, n):
            total = {}
            for sp in multi:
                for el, v in comp[sp]:
                    total[el] = total.get(el, 0) + v
            key = tuple(sorted(total.items()))
            groups.setdefault(key, []).append(multi)
    out = []
    for group in groups.values():
        for a, b in itertools.permutations(group, 2):
            out.append((a, b))
    return out


FEATURES_ALL = (
    "arr",
    "irrev",
    "3b",
    "3b-collider",
    "3b-default0",
    "lind",
    "troe3",
    "troe4",
    "sri3",
    "sri5",
    "ca-lind",
    "ca-troe",
    "plog",
    "cheb",
    "orders",
    "dup",
    "dup-negative",
    "frac",
    "falloff-collider",
    "catalyst",
    "bm",
    "tsang",
    "dup-collider",
    "burke",
    "plog-3b",
    "cheb-3b",
)


def arrhenius(rng, n_reac, scale=0.0):
    """Rate constants of sensible size for n_reac concentrations (kmol/m^3)."""
    b = float(np.round(rng.uniform(-2, 3), int(rng.integers(1, 4))))
    a = 10 ** (rng.uniform(2, 7) + 3.5 * (n_reac - 1) + scale)
    a = float(f"{a * 1500.0 ** (-b):.4e}")
    ea = float(f"{rng.uniform(0, 2.2e8):.6g}") if rng.random() < 0.85 else 0.0
    if rng.random() < 0.05:
        ea = -float(f"{rng.uniform(1e5, 2e7):.5g}")
    return dict(A=a, b=b, Ea=ea)


def efficiencies(rng, names, zero=True):
    out = {}
    for sp in names:
        if rng.random() < 0.35:
            out[sp] = float(rng.choice([0.0, 0.4, 0.7, 2.0, 3.5, 6.0, 15.4] if zero else [0.4, 2.0, 6.0]))
    return out


def troe(rng, n):
    d = dict(
        A=float(np.round(rng.uniform(0.1, 0.95), 4)),
        T3=float(np.round(10 ** rng.uniform(1, 3.5), 3)),
        T1=float(np.round(10 ** rng.uniform(2, 3.5), 3)),
    )
    if n == 4:
        d["T2"] = float(np.round(10 ** rng.uniform(2.5, 4), 3))
    return d


def sri(rng, n):
    d = dict(
        A=float(np.round(rng.uniform(0.1, 1.5), 4)),
        B=float(np.round(rng.uniform(10, 800), 3)),
        C=float(np.round(rng.uniform(200, 3000), 3)),
    )
    if n == 5:
        d["D"] = float(np.round(rng.uniform(0.5, 2), 4))
        d["E"] = float(np.round(rng.uniform(-0.5, 0.5), 4))
    return d


def synthetic_reaction(rng, kind, names, combos):
    """One or two reactions of the given kind, or [] if none fits the species."""

    def pick(test=lambda a, b: True):
        for _ in range(60):
            a, b = combos[int(rng.integers(len(combos)))]
            if test(a, b):
                return a, b
        return None

    def stoich(multi):
        return [(sp, multi.count(sp)) for sp in dict.fromkeys(multi)]

    def text(a, b, arrow="<=>", tail=""):
        return side(stoich(a)) + tail + f" {arrow} " + side(stoich(b)) + tail

    if kind in ("arr", "irrev", "bm"):
        ab = pick()
        if not ab:
            return []
        a, b = ab
        arrow = "=>" if kind == "irrev" else "<=>"
        r = dict(equation=text(a, b, arrow))
        r["rate-constant"] = arrhenius(rng, len(a))
        if kind == "bm":
            r["type"] = "Blowers-Masel"
            rc = r.pop("rate-constant")
            r["rate-constant"] = dict(A=rc["A"], b=rc["b"], Ea0=abs(rc["Ea"]) + 1e6, w=5e8)
        return [r]
    if kind == "catalyst":
        ab = pick(lambda a, b: len(a) < 2 and len(b) < 2)
        if not ab:
            return []
        a, b = ab
        c = names[int(rng.integers(len(names)))]
        if c in a or c in b:
            return []
        r = dict(equation=f"{side(stoich(a))} + {c} + {c} <=> {side(stoich(b))} + {c} + {c}")
        r["equation"] = f"{side(stoich(a))} + 2 {c} <=> {side(stoich(b))} + 2 {c}"
        r["rate-constant"] = arrhenius(rng, 3)
        return [r]
    if kind == "frac":
        ab = pick()
        if not ab:
            return []
        a, b = ab
        f = float(rng.choice([0.5, 1.5, 0.25]))
        r = dict(
            equation=side([(s, n * f) for s, n in stoich(a)])
            + " => "
            + side([(s, n * f) for s, n in stoich(b)])
        )
        r["rate-constant"] = arrhenius(rng, len(a) * f)
        return [r]
    if kind == "orders":
        ab = pick()
        if not ab:
            return []
        a, b = ab
        r = dict(equation=text(a, b, "=>"))
        orders = {}
        for sp in sorted(set(a)):
            if rng.random() < 0.7:
                orders[sp] = float(rng.choice([0.5, 1.0, 1.5, 0.7, 2.0]))
        if rng.random() < 0.5:
            other = names[int(rng.integers(len(names)))]
            if other not in a:
                orders[other] = float(rng.choice([0.5, 1.0]))
                r["nonreactant-orders"] = True
        if not orders:
            orders[a[0]] = 0.5
        r["orders"] = {k: orders[k] for k in sorted(orders)}
        n = sum(v for v in orders.values()) + sum(1 for sp in a if sp not in orders)
        r["rate-constant"] = arrhenius(rng, n)
        return [r]
    if kind in ("3b", "3b-collider", "3b-default0", "dup-collider"):
        ab = pick(lambda a, b: len(a) + len(b) <= 3) or pick(lambda a, b: len(a) <= 2)
        if not ab:
            return []
        a, b = ab
        rate = arrhenius(rng, len(a) + 1)
        if kind == "3b-collider":
            c = names[int(rng.integers(len(names)))]
            if c in a or c in b:
                return []
            return [{"equation": text(a, b, tail=" + " + c), "rate-constant": rate}]
        r = dict(equation=text(a, b, tail=" + M"), type="three-body")
        r["rate-constant"] = rate
        eff = efficiencies(rng, names)
        if kind == "3b-default0":
            eff = {k: v for k, v in eff.items() if v} or {names[0]: 1.0}
            if len(eff) == 1:
                eff[names[-1]] = 2.0
            r["default-efficiency"] = 0.0
        if eff:
            r["efficiencies"] = eff
        if kind == "dup-collider":
            c = names[int(rng.integers(len(names)))]
            if c in a or c in b:
                return []
            r.pop("default-efficiency", None)
            return [
                dict(r, duplicate=True),
                {
                    "equation": text(a, b, tail=" + " + c),
                    "rate-constant": arrhenius(rng, len(a) + 1),
                    "duplicate": True,
                },
            ]
        return [r]
    if kind in ("lind", "troe3", "troe4", "sri3", "sri5", "tsang", "falloff-collider", "ca-lind", "ca-troe"):
        ab = pick(lambda a, b: len(a) + len(b) <= 3) or pick()
        if not ab:
            return []
        a, b = ab
        chem = kind.startswith("ca-")
        n = len(a)
        r = dict(type="chemically-activated" if chem else "falloff")
        tail = " (+M)"
        if kind == "falloff-collider":
            tail = f" (+{names[int(rng.integers(len(names)))]})"
        r["equation"] = text(a, b, tail=tail)
        if chem:
            r["low-P-rate-constant"] = arrhenius(rng, n)
            r["high-P-rate-constant"] = arrhenius(rng, n - 1, scale=3.5)
        else:
            r["low-P-rate-constant"] = arrhenius(rng, n + 1, scale=-1)
            r["high-P-rate-constant"] = arrhenius(rng, n)
        if kind == "troe3" or (kind in ("falloff-collider", "ca-troe") and rng.random() < 0.5):
            r["Troe"] = troe(rng, 3)
        elif kind in ("troe4", "ca-troe"):
            r["Troe"] = troe(rng, 4)
        elif kind == "sri3":
            r["SRI"] = sri(rng, 3)
        elif kind == "sri5":
            r["SRI"] = sri(rng, 5)
        elif kind == "tsang":
            r["Tsang"] = dict(A=0.95, B=-1.0e-4)
        if tail == " (+M)":
            eff = efficiencies(rng, names)
            if eff:
                r["efficiencies"] = eff
        return [r]
    if kind in ("plog-3b", "cheb-3b"):
        # pressure-dependent, and with the same species on both sides
        found = synthetic_reaction(rng, kind[:4], names, combos)
        c = names[int(rng.integers(len(names)))]
        if not found or c in found[0]["equation"].split():
            return []
        left, arrow, right = found[0]["equation"].rpartition(" <=> ")
        found[0]["equation"] = f"{left} + {c}{arrow}{right} + {c}"
        return found
    if kind == "burke":
        ab = pick(lambda a, b: len(a) + len(b) <= 3) or pick()
        if not ab:
            return []
        a, b = ab

        def pressure_dependence():
            choice = int(rng.integers(3))
            if choice == 0:
                n = len(a)
                return {
                    "type": "falloff",
                    "low-P-rate-constant": arrhenius(rng, n + 1, scale=-1),
                    "high-P-rate-constant": arrhenius(rng, n),
                    "Troe": troe(rng, 3),
                }
            kind = ("plog", "cheb")[choice - 1]
            r = synthetic_reaction(rng, kind, names, [(a, b)])[0]
            del r["equation"]
            return r

        colliders = [dict(name="M", **pressure_dependence())]
        for sp in names:
            if rng.random() < 0.4:
                eff = dict(
                    A=float(np.round(10 ** rng.uniform(-1, 1.5), 4)),
                    b=float(np.round(rng.uniform(-0.5, 0.5), 3)),
                    Ea=float(np.round(rng.uniform(-1e6, 1e6), 1)),
                )
                more = pressure_dependence() if rng.random() < 0.3 else {}
                colliders.append(dict(name=sp, efficiency=eff, **more))
        return [
            {"equation": text(a, b, tail=" (+M)"), "type": "linear-Burke", "colliders": colliders}
        ]
    if kind == "plog":
        ab = pick()
        if not ab:
            return []
        a, b = ab
        pressures = sorted(rng.choice([1e3, 1e4, 101325.0, 1e6, 5e6, 1e7], 3, replace=False))
        rates = [dict(P=float(p), **arrhenius(rng, len(a))) for p in pressures]
        if rng.random() < 0.3:
            # two rate expressions at one pressure are summed
            rates.insert(1, dict(P=rates[0]["P"], **arrhenius(rng, len(a))))
        return [
            {
                "equation": text(a, b),
                "type": "pressure-dependent-Arrhenius",
                "rate-constants": rates,
            }
        ]
    if kind == "cheb":
        ab = pick()
        if not ab:
            return []
        a, b = ab
        nt, np_ = int(rng.integers(2, 5)), int(rng.integers(1, 4))
        data = rng.normal(0, 0.4, (nt, np_))
        data[0][0] = rng.uniform(2, 7) + 3.0 * (len(a) - 1)
        data[0][1:] *= 0.5
        return [
            {
                "equation": text(a, b),
                "type": "Chebyshev",
                "temperature-range": [290.0, 3000.0],
                "pressure-range": [1000.0, 1.0e7],
                "data": np.round(data, 6).tolist(),
            }
        ]
    if kind == "dup-negative":
        ab = pick()
        if not ab:
            return []
        a, b = ab
        rate = arrhenius(rng, len(a))
        less = dict(rate, A=-float(f"{rate['A'] * rng.uniform(0.1, 0.6):.4e}"))
        return [
            {"equation": text(a, b), "rate-constant": rate, "duplicate": True},
            {
                "equation": text(a, b),
                "rate-constant": less,
                "duplicate": True,
                "negative-A": True,
            },
        ]
    if kind == "dup":
        ab = pick()
        if not ab:
            return []
        a, b = ab
        n = int(rng.integers(2, 4))
        return [
            {
                "equation": text(a, b),
                "rate-constant": arrhenius(rng, len(a)),
                "duplicate": True,
            }
            for _ in range(n)
        ]
    raise ValueError(kind)


def synthetic(
    rng,
    n_species=(4, 10),
    n_reactions=(5, 25),
    features=FEATURES_ALL,
    pool="gri30",
    transport="mixture-averaged",
    must=(),
    rename=False,
):
    """Mechanism of real species with made-up reactions of the given kinds."""
    species, _ = real_data(pool)
    names = list(species)
    n = int(rng.integers(n_species[0], n_species[1] + 1))
    # species with few distinct elements balance more often
    light = [s for s in names if sum(species[s]["composition"].values()) <= 5]
    for _ in range(50):
        chosen = list(must)
        source = light if rng.random() < 0.8 else names
        for sp in rng.permutation(source):
            sp = str(sp)
            if len(chosen) >= n:
                break
            if sp not in chosen:
                chosen.append(sp)
        combos = _combos(
            tuple(
                (s, tuple(sorted(species[s]["composition"].items()))) for s in sorted(chosen)
            )
        )
        if len(combos) >= 4:
            break
    rng.shuffle(chosen)
    reactions = []
    seen = set()
    target = int(rng.integers(n_reactions[0], n_reactions[1] + 1))
    if combos:
        for _ in range(target * 4):
            if len(reactions) >= target:
                break
            kind = features[int(rng.integers(len(features)))]
            new = synthetic_reaction(rng, kind, chosen, combos)
            if not new:
                continue
            # undeclared duplicates are errors: one reaction per pair of sides
            sig = _signature(new[0]["equation"])
            if sig in seen:
                continue
            seen.add(sig)
            reactions += new
    data = mechanism([species[s] for s in chosen], reactions, transport=transport)
    if rename:
        data = renamed(data, {s: f"X{i}" for i, s in enumerate(chosen)})
    return data


def _signature(equation):
    import re

    eq = re.sub(r"\(\+[^ ]*\)", "", equation.replace("<=>", "=").replace("=>", "="))
    left, right = eq.split("=")
    norm = []
    for part in (left, right):
        terms = []
        for t in part.split(" + "):
            t = t.strip()
            if t in ("M", ""):
                continue
            bits = t.split()
            nu, sp = (float(bits[0]), bits[1]) if len(bits) == 2 else (1.0, bits[0])
            terms.append((sp, nu))
        norm.append(tuple(sorted(x[0] for x in terms)))
    return tuple(sorted(norm))


def renamed(data, mapping):
    """The same mechanism with other species names."""
    import re

    keys = sorted(mapping, key=len, reverse=True)
    pattern = re.compile(
        r"(?<![^\s+(])(" + "|".join(re.escape(k) for k in keys) + r")(?![^\s+)])"
    )

    del pattern
    new = json.loads(json.dumps(data))
    for ph in new["phases"]:
        ph["species"] = [mapping.get(s, s) for s in ph["species"]]
    for sp in new["species"]:
        sp["name"] = mapping.get(sp["name"], sp["name"])
    for r in new.get("reactions", []):
        rename_in(r, mapping)
    return new


def rename_in(reaction, mapping):
    """Replace names of species in a reaction."""

    def eq(text):
        out = []
        for token in text.split(" "):
            core = token
            pre = post = ""
            if core.startswith("(+") and core.endswith(")"):
                pre, core, post = "(+", core[2:-1], ")"
            out.append(pre + mapping.get(core, core) + post)
        return " ".join(out)

    reaction["equation"] = eq(reaction["equation"])
    for key in ("efficiencies", "orders"):
        if key in reaction:
            reaction[key] = {mapping.get(k, k): v for k, v in reaction[key].items()}


def with_other_case(rng, data):
    """The mechanism with reactions that spell some species in another case, as Cantera allows."""
    names = data["phases"][0]["species"]
    lower = [s.lower() for s in names]
    known = {s.lower() for sp in data["species"] for s in [sp["name"]]}
    mapping = {}
    for s in names:
        other = str(rng.choice([s.lower(), s.upper(), s.capitalize()]))
        if lower.count(s.lower()) == 1 and other not in names and other not in ("m", "M"):
            mapping[s] = other
    if len(known) != len(data["species"]) or not mapping:
        return data
    new = json.loads(json.dumps(data))
    for r in new.get("reactions", []):
        if rng.random() < 0.5:
            rename_in(r, {k: v for k, v in mapping.items() if rng.random() < 0.6})
    try:
        before, after = solution(data), solution(new)
    except ct.CanteraError:
        return data
    if before.n_reactions != after.n_reactions:
        return data
    return new


#: species names that are awkward in YAML, in equations or in file names
ODD = (
    "NO", "Y", "N", "yes", "null", "1CH2", "CH2(S)", "C2H4-OH", "n-C4H10", "~", "1e3",
    "0x1F", "A'", "X*", "H2O_2", "C#C", "O=O", "O2'", "off", "1.5", "i.C3H7", "CH3[1]", "e-",
    "C3H6/2", "/X", "..", "a\\b", "C&H", "$A", "%s", "{x}", "x" * 60, "h_2", "reduced_5",
)


def with_odd_names(rng, data, share=1.0):
    """The mechanism with (some of) its species renamed to odd names, if Cantera takes it."""
    names = data["phases"][0]["species"]
    new = [str(s) for s in rng.choice(ODD, min(len(ODD), len(names)), replace=False)]
    odd = renamed(
        data, {a: b for a, b in zip(names, new) if b not in names and rng.random() < share}
    )
    try:
        before, after = solution(data), solution(odd)
    except ct.CanteraError:
        return data
    return odd if before.n_reactions == after.n_reactions else data


def with_transport(rng, data):
    """The mechanism with any of the transport models for gases."""
    phase = data["phases"][0]
    if phase.get("transport") == "mixture-averaged":
        phase["transport"] = str(
            rng.choice(
                ["mixture-averaged", "multicomponent", "unity-Lewis-number", "none",
                 "mixture-averaged-CK", "multicomponent-CK"],
                p=[0.4, 0.25, 0.15, 0.1, 0.05, 0.05],
            )
        )
    return data


def with_twin(rng, data):
    """The mechanism with one species renamed to another one's name in the other case."""
    names = data["phases"][0]["species"]
    pairs = [
        (a, b.swapcase()) for a in names for b in names if a != b and b.swapcase() not in names
    ]
    if not pairs:
        return data
    old, new = pairs[int(rng.integers(len(pairs)))]
    return renamed(data, {old: new})


def any_mechanism(
    rng, features=FEATURES_ALL, n_species=(4, 10), real_share=0.35, twins=0.0, **kw
):
    """A sub-mechanism of a real one or a synthetic one; always loads in Cantera."""
    for _ in range(20):
        if rng.random() < real_share:
            name = str(rng.choice(["h2o2", "ohn", "gri30", "gri30", "nh3"]))
            data = submechanism(rng, name, n_species[0], n_species[1] + 6)
        else:
            data = synthetic(rng, n_species=n_species, features=features, **kw)
        if twins and rng.random() < twins:
            data = with_twin(rng, data)
        try:
            solution(data)
        except ct.CanteraError:
            continue
        return data
    raise RuntimeError("no loadable mechanism generated")


def random_state(rng, gas, kind=None):
    """(T, P, Y): kinds dense, sparse, trace, pure, equilibrium."""
    kind = kind or str(
        rng.choice(["dense", "sparse", "trace", "pure", "equilibrium"], p=[0.4, 0.3, 0.15, 0.05, 0.1])
    )
    n = gas.n_species
    temperature = float(rng.uniform(300, 3000))
    pressure = float(ct.one_atm * 10 ** rng.uniform(-1, 1.7))
    y = rng.dirichlet(np.ones(n))
    if kind == "sparse":
        mask = rng.random(n) < 0.4
        if not mask.any():
            mask[int(rng.integers(n))] = True
        y = y * mask
    elif kind == "trace":
        y = y ** (6 * rng.random() + 1)
    elif kind == "pure":
        y = np.zeros(n)
        y[int(rng.integers(n))] = 1.0
    y = y / y.sum()
    if kind == "equilibrium":
        gas.TPY = temperature, pressure, y
        try:
            gas.equilibrate("TP")
            temperature, pressure, y = gas.T, gas.P, gas.Y.copy()
        except ct.CanteraError:
            pass
    return kind, (temperature, pressure, np.asarray(y))
