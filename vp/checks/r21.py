"""R21: model comparison says 'equal' exactly for models with the same chemistry."""

import copy
import json

import cantera as ct
import numpy as np

from vp import gen

LEVEL = "exploration"
TECHNIQUE = (
    "metamorphic monitor: the comparison is observed on pairs related by known equalities and "
    "by single-datum mutations, in both argument orders"
)
NOTE = (
    "Pairs are made by construction equal (self, reload, reorder) or different in one datum, so "
    "the right answer is known without a second comparator. Mutations are 0.1 % or larger and "
    "are kept only if the loaded Cantera objects really differ."
)
RULE = (
    "One case = one pair of models compared in both orders. Equal pairs: reloaded, species "
    "and/or reactions reordered, sides of equations reordered, written and read back. Different "
    "pairs: one mutation of 30 kinds on one randomly chosen species or reaction. Non-trivial: "
    "the pair are different objects. Distinct by mechanism, mutation and place."
)
ASSUMPTIONS = ["differences below 1e-5 relative count as roundoff and are not generated"]
REQUIRED_EVENTS = ("equal_pairs", "different_pairs")
MIN_CASES = 200


def tasks(tier, seed):
    n = 40 if tier == "quick" else 500
    out = [dict(seed=seed, i=i) for i in range(n)]
    out += [dict(seed=seed, i=j, real=r) for j, r in enumerate(("h2o2", "gri30", "nh3"))]
    return out


def reordered(rng, data, what):
    new = copy.deepcopy(data)
    if "species" in what:
        order = [new["species"][int(k)] for k in rng.permutation(len(new["species"]))]
        new["species"] = order
        new["phases"][0]["species"] = [sp["name"] for sp in order]
    if "reactions" in what and "reactions" in new:
        new["reactions"] = [
            new["reactions"][int(k)] for k in rng.permutation(len(new["reactions"]))
        ]
    if "sides" in what:
        for r in new.get("reactions", []):
            r["equation"] = shuffled_equation(rng, r["equation"])
    return new


def shuffled_equation(rng, eq):
    arrow = "<=>" if "<=>" in eq else "=>"
    sides = []
    for side in eq.split(f" {arrow} "):
        tail = ""
        if side.endswith(")") and " (+" in side:
            k = side.rindex(" (+")
            side, tail = side[:k], side[k:]
        terms = side.split(" + ")
        fixed = [t for t in terms if t == "M"]
        free = [t for t in terms if t != "M"]
        free = [free[int(k)] for k in rng.permutation(len(free))]
        sides.append(" + ".join(free + fixed) + tail)
    return f" {arrow} ".join(sides)


def scaled(rng, x):
    return x * (1.0 + float(rng.choice([-1, 1])) * float(rng.choice([0.001, 0.01, 0.3])))


def rate_dicts(r):
    out = []
    for key in ("rate-constant", "low-P-rate-constant", "high-P-rate-constant"):
        if key in r:
            out.append(r[key])
    out += r.get("rate-constants", [])
    for collider in r.get("colliders", []):
        out += rate_dicts(collider)
        out += [collider["efficiency"]] if "efficiency" in collider else []
    return out


def mutate(rng, data):
    """(kind, mutated data) or None; one datum is changed."""
    reactions = data.get("reactions", [])
    kinds = SPECIES_KINDS if not reactions or rng.random() < 0.35 else REACTION_KINDS
    kind = str(rng.choice(kinds))
    for k in rng.permutation(len(reactions))[:40] if reactions else [None]:
        found = mutate_one(rng, copy.deepcopy(data), kind, k)
        if found is not None:
            return found
    return None


def mutate_one(rng, new, kind, k):
    sp = new["species"][int(rng.integers(len(new["species"])))]
    reactions = new.get("reactions", [])
    r = None if k is None else reactions[int(k)]
    if kind == "composition":
        # an atom more of an element in an inert species
        used = {w for q in reactions for w in q["equation"].replace("(+", " ").replace(")", " ").split()}
        if sp["name"] in used:
            return None
        el = next(iter(sp["composition"]))
        sp["composition"][el] += 1
    elif kind == "thermo":
        row = sp["thermo"]["data"][int(rng.integers(len(sp["thermo"]["data"])))]
        k = int(rng.integers(7))
        row[k] = scaled(rng, row[k]) + (1e-3 if k == 0 else 0.0)
    elif kind == "temperature range":
        tr = sp["thermo"]["temperature-ranges"]
        k = int(rng.integers(len(tr)))
        inner = 0 < k < len(tr) - 1
        tr[k] *= float(rng.choice([0.85, 1.2])) if inner else scaled(rng, 1.0)
        if inner and not tr[k - 1] < tr[k] < tr[k + 1]:
            return None
    elif kind.startswith("transport"):
        if "transport" not in sp:
            return None
        name = kind.split(":")[1]
        if name == "geometry":
            options = [g for g in ("atom", "linear", "nonlinear") if g != sp["transport"]["geometry"]]
            sp["transport"]["geometry"] = options[int(rng.integers(2))]
        else:
            old = sp["transport"].get(name, 0.0)
            sp["transport"][name] = scaled(rng, old) if old else 0.5
    elif kind == "species name":
        name = sp["name"]
        new = gen.renamed(new, {name: name + "x"})
    elif kind in ("A", "b", "Ea", "Ea0", "w"):
        ds = [d for d in rate_dicts(r) if kind in d]
        if not ds:
            return None
        d = ds[int(rng.integers(len(ds)))]
        if not isinstance(d[kind], (int, float)):
            return None
        if kind == "A":
            d["A"] = scaled(rng, d["A"])
        else:
            d[kind] = scaled(rng, d[kind]) if d[kind] else (0.01 if kind == "b" else 1e4)
    elif kind in ("Troe", "SRI", "Tsang"):
        if kind not in r:
            return None
        key = str(rng.choice(list(r[kind])))
        r[kind][key] = scaled(rng, r[kind][key])
    elif kind == "Troe T2":
        if "Troe" not in r:
            return None
        if "T2" in r["Troe"]:
            del r["Troe"]["T2"]
        else:
            r["Troe"]["T2"] = 1234.5
    elif kind == "drop falloff function":
        gone = [k for k in ("Troe", "SRI", "Tsang") if k in r]
        if not gone:
            return None
        del r[gone[0]]
    elif kind == "Chebyshev datum":
        if "data" not in r:
            return None
        row = r["data"][int(rng.integers(len(r["data"])))]
        k = int(rng.integers(len(row)))
        row[k] += float(rng.choice([0.01, 0.5]))
    elif kind == "Chebyshev shape":
        if "data" not in r:
            return None
        r["data"].append([0.1] * len(r["data"][0]))
    elif kind == "Chebyshev range":
        if "data" not in r:
            return None
        key = str(rng.choice(["temperature-range", "pressure-range"]))
        k = int(rng.integers(2))
        r[key][k] = scaled(rng, r[key][k])
    elif kind == "PLOG pressure":
        if "rate-constants" not in r:
            return None
        d = r["rate-constants"][0]
        if not isinstance(d["P"], (int, float)):
            return None
        d["P"] = scaled(rng, d["P"])
    elif kind == "PLOG length":
        if "rate-constants" not in r:
            return None
        r["rate-constants"].pop()
    elif kind == "efficiency":
        if not r.get("efficiencies"):
            return None
        key = str(rng.choice(list(r["efficiencies"])))
        r["efficiencies"][key] = scaled(rng, r["efficiencies"][key]) or 0.25
    elif kind == "new efficiency":
        if "M" not in r["equation"].replace("(+M)", " M ").split():
            return None
        eff = r.setdefault("efficiencies", {})
        free = [s["name"] for s in new["species"] if s["name"] not in eff]
        if not free:
            return None
        eff[str(rng.choice(free))] = 2.25
    elif kind == "default efficiency":
        if "M" not in r["equation"].split():
            return None
        r["default-efficiency"] = 0.5 if r.get("default-efficiency", 1.0) != 0.5 else 2.0
    elif kind == "direction":
        if r.get("orders"):
            return None
        eq = r["equation"]
        r["equation"] = eq.replace("<=>", "=>") if "<=>" in eq else eq.replace("=>", "<=>")
    elif kind == "reverse direction":
        eq = r["equation"]
        if r.get("orders") or "=>" not in eq:
            return None
        arrow = "<=>" if "<=>" in eq else "=>"
        a, b = eq.split(f" {arrow} ")
        if a == b:
            return None
        r["equation"] = f"{b} {arrow} {a}"
    elif kind == "orders":
        if "<=>" in r["equation"] or r.get("type", "elementary") not in ("elementary",):
            return None
        name = r["equation"].split()[0]
        if name.replace(".", "").isdigit():
            name = r["equation"].split()[1]
        orders = r.setdefault("orders", {})
        orders[name] = 0.75 if orders.get(name) != 0.75 else 1.25
    elif kind == "duplicate flag":
        if r.get("duplicate"):
            return None
        r["duplicate"] = True
    elif kind == "drop reaction":
        if r.get("duplicate"):
            return None
        reactions.remove(r)
    elif kind == "double rate":
        # duplicate pairs: change one of the two
        dup = [q for q in reactions if q.get("duplicate") and "rate-constant" in q]
        if not dup or not isinstance(dup[0]["rate-constant"].get("A"), float):
            return None
        dup[-1]["rate-constant"]["A"] *= 2
    else:
        raise ValueError(kind)
    return kind, new


SPECIES_KINDS = (
    "composition",
    "thermo",
    "thermo",
    "temperature range",
    "transport:geometry",
    "transport:diameter",
    "transport:well-depth",
    "transport:dipole",
    "transport:polarizability",
    "transport:rotational-relaxation",
    "species name",
)
REACTION_KINDS = (
    "A",
    "A",
    "A",
    "b",
    "b",
    "Ea",
    "Ea",
    "Ea0",
    "w",
    "Troe",
    "SRI",
    "Tsang",
    "Troe T2",
    "drop falloff function",
    "Chebyshev datum",
    "Chebyshev shape",
    "Chebyshev range",
    "PLOG pressure",
    "PLOG length",
    "efficiency",
    "new efficiency",
    "default efficiency",
    "direction",
    "reverse direction",
    "orders",
    "duplicate flag",
    "drop reaction",
    "double rate",
)


def load(data):
    text = json.dumps(data)
    try:
        gas = ct.Solution(yaml=text)
    except ct.CanteraError:
        return None
    return gas


def really_different(kind, a, b):
    """Whether the mutation shows in the loaded objects (by more than roundoff)."""
    if kind in ("thermo", "temperature range"):
        for x, y in zip(a.species(), b.species()):
            u, v = x.thermo, y.thermo
            if abs(u.min_temp - v.min_temp) > 1e-4 * u.min_temp:
                return True
            if abs(u.max_temp - v.max_temp) > 1e-4 * u.max_temp:
                return True
        for x, y in zip(a.species(), b.species()):
            # anywhere in the range of the data, not just at a few temperatures
            ends = x.thermo.min_temp, min(x.thermo.max_temp, y.thermo.max_temp)
            for t in (500.0, 1000.0, 2000.0, *np.linspace(*ends, 40)):
                for f, unit in (("cp", 8314.0), ("h", 8314.0 * t), ("s", 8314.0)):
                    u, v = getattr(x.thermo, f)(t), getattr(y.thermo, f)(t)
                    if abs(u - v) > 1e-4 * abs(u):
                        return True
        return False
    if kind == "default efficiency":
        # only a difference if some species is not listed
        for x, y in zip(a.reactions(), b.reactions()):
            if x.third_body and y.third_body:
                ex, ey = x.third_body, y.third_body
                for sp in a.species_names:
                    if abs(
                        ex.efficiencies.get(sp, ex.default_efficiency)
                        - ey.efficiencies.get(sp, ey.default_efficiency)
                    ) > 1e-4:
                        return True
        return False
    if kind == "reverse direction":
        return any(
            x.reactants != y.reactants for x, y in zip(a.reactions(), b.reactions())
        )
    return True


def ask(compare, a, b, rec, label):
    """Both argument orders; None if they disagree or fail."""
    out = []
    for x, y in ((a, b), (b, a)):
        try:
            out.append(bool(compare(x, y)))
        except Exception as exc:
            rec.violation(f"comparison fails on {label}: {type(exc).__name__}: {exc}")
            return None
    if out[0] != out[1]:
        rec.violation(f"the answer depends on the argument order for {label}: {out}")
        return None
    return out[0]


def run_task(task, rec):
    from pymars import soln2yaml
    from pymars.tools import compare_models as compare

    rng = gen.rng_of("r21", task["seed"], task["i"], task.get("real", ""))
    n_mech, n_mut = (4, 14) if "real" not in task else (1, 12)
    for m in range(n_mech):
        if "real" in task:
            species, reactions = gen.real_data(task["real"])
            data = gen.mechanism(
                list(species.values()), [d for _, _, d in reactions], transport=None
            )
            data = json.loads(json.dumps(data))
        else:
            data = gen.any_mechanism(rng, n_species=(3, 9), real_share=0.3, twins=0.15)
            data = json.loads(json.dumps(data))
            spread_duplicates(rng, data)
        base = load(data)
        if base is None:
            raise RuntimeError(f"base model does not load {json.dumps(data)[:0]} {task} {m}")
        key = (json.dumps(data, sort_keys=True)[:4000], m)

        equal = [("itself", base)]
        bare = copy.deepcopy(data)
        for sp in bare["species"]:
            sp.pop("transport", None)
        bare["phases"][0].pop("transport", None)
        equal.append(("a copy without transport data", load(bare)))
        equal.append(("a reloaded copy", load(data)))
        for what in (["species"], ["reactions"], ["species", "reactions"], ["sides"]):
            equal.append((f"a copy with {what} reordered", load(reordered(rng, data, what))))
        name = soln2yaml.write(base, f"copy{m}.yaml")
        equal.append(("a written copy", ct.Solution(name)))
        for label, other in equal:
            if other is None:
                continue
            answer = ask(compare, base, other, rec, label)
            rec.count("equal_pairs")
            rec.case((key, label), other is not base)
            if answer is False:
                rec.violation(f"a model and {label} are said to differ")

        for _ in range(n_mut):
            found = mutate(rng, data)
            if found is None:
                continue
            kind, new = found
            if rng.random() < 0.4:
                # the mutated model may also be listed in another order
                shuffled = reordered(rng, new, [str(rng.choice(["species", "reactions"]))])
            else:
                shuffled = None
            other = load(new)
            if other is None or not really_different(kind, base, other):
                continue
            if shuffled is not None:
                other = load(shuffled) or other
            answer = ask(compare, base, other, rec, f"a model with another {kind}")
            rec.count("different_pairs")
            rec.count(f"mutation {kind}")
            rec.case((key, kind, json.dumps(new, sort_keys=True)))
            if answer:
                rec.violation(f"a model with another {kind} is said to be equal")
    rec.sample(dict(species=len(data["species"]), reactions=len(data.get("reactions", []))))


def spread_duplicates(rng, data):
    """Give duplicate reactions clearly different rates (so that pairing them is defined)."""
    for r in data.get("reactions", []):
        if r.get("duplicate") and isinstance(r.get("rate-constant", {}).get("A"), float):
            r["rate-constant"]["A"] = float(f"{r['rate-constant']['A']:.3e}")
