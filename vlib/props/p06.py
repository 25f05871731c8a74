"""Filters, copies and their independence."""

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.core import SubCheck, arr, close, ensure, fail

# name -> (function of MatrixParameter, function of the matrix, symmetric under the transposition)
def dmi_of(m):
    a = (m - m.T) / 2
    return np.array([a[1, 2], a[2, 0], a[0, 1]])


FILTERS = {
    "iso>": (lambda p, c: p.iso > c, lambda m, c: np.trace(m) / 3 > c, True),
    "|iso|<": (lambda p, c: abs(p.iso) < c, lambda m, c: abs(np.trace(m) / 3) < c, True),
    "dmi<": (lambda p, c: p.dmi_module < c, lambda m, c: np.linalg.norm(dmi_of(m)) < c, True),
    "max>": (lambda p, c: np.abs(p.matrix).max() > c, lambda m, c: np.abs(m).max() > c, True),
    "zz>": (lambda p, c: p.zz > c, lambda m, c: m[2, 2] > c, True),
    "xy>": (lambda p, c: p.xy > c, lambda m, c: m[0, 1] > c, False),
    "dmi_z<": (lambda p, c: p.dmi[2] < c, lambda m, c: dmi_of(m)[2] < c, False),
    "xz<zx": (lambda p, c: p.xz < p.zx + c, lambda m, c: m[0, 2] < m[2, 0] + c, False),
    "yx<": (lambda p, c: np.array(p.matrix)[1][0] < c, lambda m, c: m[1, 0] < c, False),
    "all": (lambda p, c: True, lambda m, c: True, True),
    "none": (lambda p, c: False, lambda m, c: False, True),
}


@st.composite
def exact_model(draw):
    """Cell and positions for which distances are exact numbers."""
    spec = draw(gen.model(min_bonds=2, max_bonds=6, notation=False, r_max=2))
    spec["cell"] = np.diag([float(draw(st.sampled_from([2, 4, 6]))) for _ in range(3)]).tolist()
    for a in spec["atoms"]:
        a["pos"] = [0.5 * draw(st.integers(0, 1)), 0.0, 0.0]
    seen, bonds = set(), []
    for i, j, r, m in spec["bonds"]:
        ax = draw(st.integers(0, 2))
        r = [x if k == ax else 0 for k, x in enumerate(r)]
        if ax != 0:
            # along one axis only
            spec["atoms"][j]["pos"] = spec["atoms"][i]["pos"]
        if i == j and r == [0, 0, 0]:
            r = [1, 0, 0]
        key, _ = gen.pair_key(i, j, r)
        if key not in seen:
            seen.add(key)
            bonds.append([i, j, r, m])
    spec["bonds"] = bonds
    return spec


NOTATION = st.one_of(st.none(), gen.notation4(), gen.notation4())


LIMIT = st.tuples(
    st.integers(0, 8), st.sampled_from(["between", "exact", 1e-2, -1e-2, 1e-3, -1e-3, 1e-5, -1e-5, 1e-7, -1e-7])
).map(list)


@st.composite
def filter_cases(draw):
    exact = draw(st.booleans())
    if exact:
        spec = draw(exact_model())
    else:
        spec = draw(gen.model(min_bonds=1, max_bonds=7, notation=False, wide=True))
    spec["notation"] = draw(NOTATION)
    return {
        "model": spec,
        "exact": exact,
        "max": draw(st.one_of(st.none(), LIMIT)),
        "min": draw(st.one_of(st.none(), st.none(), LIMIT)),
        "min_zero": draw(st.integers(0, 9)) <= 1,
        # filter that keeps everything in another cell
        "earlier": draw(st.sampled_from([None, None, None, "filter", "filtered", "distance"])),
        "filter": draw(
            st.one_of(st.none(), st.tuples(st.sampled_from(sorted(FILTERS)), gen.grid(-3, 3, 4).map(lambda x: x + 0.0131)).map(list))
        ),
    }


def distance(spec, i, j, r):
    cell = np.array(spec["cell"])
    d = (np.array(r, dtype=float) + np.array(spec["atoms"][j]["pos"]) - np.array(spec["atoms"][i]["pos"])) @ cell
    return float(np.linalg.norm(d))


def threshold(choice, distances, exact):
    """Number that is safely between distances, or exactly one of them."""
    if choice is None:
        return None
    k, how = choice
    ds = sorted(set(round(d, 9) for d in distances))
    merged = []
    for d in ds:
        if not merged or d - merged[-1] > 1e-5:
            merged.append(d)
    whole = [d for d in merged if d == int(d)]
    if exact and how == "exact" and whole:
        return whole[k % len(whole)]
    if isinstance(how, float) and merged:
        # close to a distance, on either side of it
        x = merged[k % len(merged)] + how
        if x > 0 and min(abs(x - d) for d in ds) > 3e-8:
            return x
    points = []
    if merged:
        points.append(merged[0] / 2)
        points += [(a + b) / 2 for a, b in zip(merged, merged[1:])]
        points.append(merged[-1] + 1.0)
    else:
        points = [1.0]
    return points[k % len(points)]


def run_filter(case, ctx):
    spec = case["model"]
    h = ref.build(spec)
    distances = [distance(spec, i, j, r) for i, j, r, _ in spec["bonds"]]
    hi = threshold(case["max"], distances, case["exact"])
    lo = threshold(case["min"], distances, case["exact"])
    if case["min_zero"]:
        lo = 0.0
    f = case["filter"]
    dc = spec["notation"][0] if spec["notation"] is not None else None
    if f is not None and dc and not FILTERS[f[0]][2]:
        f = ["max>", f[1]]
    kwargs = {}
    if hi is not None:
        kwargs["max_distance"] = hi
    if lo is not None:
        kwargs["min_distance"] = lo
    if f is not None:
        kwargs["custom_filter"] = lambda p: FILTERS[f[0]][0](p, f[1])
    expected = {}
    for (i, j, r), m in ref.expected_bonds(spec).items():
        d = distance(spec, i, j, r)
        keep = True
        if hi is not None and d > hi + 1e-9:
            keep = False
        if lo is not None and d < lo - 1e-9:
            keep = False
        if f is not None and not FILTERS[f[0]][1](m, f[1]):
            keep = False
        if keep:
            expected[(i, j, r)] = m
    expected_os = {}
    for k, m in spec["onsite"]:
        m = np.array(m, dtype=float)
        keep = lo is None or lo <= 0
        if f is not None and not FILTERS[f[0]][1](m, f[1]):
            keep = False
        if keep:
            expected_os[k] = m
    if case["earlier"] is not None:
        wide = np.array(h.cell)
        h.cell = 1.75 * wide + 0.25 * np.eye(3) if abs(np.linalg.det(1.75 * wide + 0.25 * np.eye(3))) > 0.1 else 2.0 * wide
        if case["earlier"] == "distance":
            for a, b, r, _ in h.exchange:
                h.get_distance(a, b, r)
                h.get_vector(a, b, r)
        else:
            getattr(h, case["earlier"])(max_distance=1e9)
        h.cell = wide
        ctx.label("after " + case["earlier"] + " in another cell")
    before = ref.snapshot(h)
    new = h.filtered(**kwargs)
    ref.same_snapshot(before, ref.snapshot(h), "original after filtered")
    ensure(new is not h, "filtered returned the same object")
    h.filter(**kwargs)
    for obj, name in ((new, "filtered"), (h, "filter")):
        ref.compare_bonds(ref.read_bonds(obj), expected, name, tol=1e-13)
        ref.compare_bonds(ref.read_onsite(obj), expected_os, name + " on-site", tol=1e-13)
        after = ref.snapshot(obj)
        for key in ("cell", "atoms", "notation", "cone_axis", "spiral_vector"):
            ensure(after[key] == before[key], f"{name}: {key} changed from {before[key]} to {after[key]}")
    n = len(ref.expected_bonds(spec)) + len(spec["onsite"])
    kept = len(expected) + len(expected_os)
    ctx.label("kept all" if kept == n else "kept none" if kept == 0 else "kept some")
    for key in kwargs:
        ctx.label(key)
    if case["exact"]:
        ctx.label("exact distances")


MUTATION = st.one_of(
    st.tuples(st.just("notation"), gen.notation4()),
    st.tuples(st.just("dc"), st.booleans()),
    st.tuples(st.just("factor"), gen.factor()),
    st.tuples(st.just("scale bond"), st.integers(0, 9)),
    st.tuples(st.just("set component"), st.integers(0, 9)),
    st.tuples(st.just("add bond"), st.integers(0, 9)),
    st.tuples(st.just("remove bond"), st.integers(0, 9)),
    st.tuples(st.just("scale on-site"), st.integers(0, 9)),
    st.tuples(st.just("add on-site"), st.integers(0, 9)),
    st.tuples(st.just("remove on-site"), st.integers(0, 9)),
    st.tuples(st.just("atom spin"), st.integers(0, 9)),
    st.tuples(st.just("atom position"), st.integers(0, 9)),
    st.tuples(st.just("atom position in place"), st.integers(0, 9)),
    st.tuples(st.just("atom g"), st.integers(0, 9)),
    st.tuples(st.just("atom name"), st.integers(0, 9)),
    st.tuples(st.just("add atom"), st.integers(0, 9)),
    st.tuples(st.just("remove atom"), st.integers(0, 9)),
    st.tuples(st.just("cell"), st.integers(0, 9)),
    st.tuples(st.just("cone axis"), st.integers(0, 9)),
    st.tuples(st.just("cone axis in place"), st.integers(0, 9)),
    st.tuples(st.just("spiral vector"), st.integers(0, 9)),
    st.tuples(st.just("spiral vector in place"), st.integers(0, 9)),
    st.tuples(st.just("filter"), st.integers(0, 9)),
).map(list)


def mutate(obj, op, value):
    """Change one thing of a Hamiltonian or a crystal. Returns False if not applicable."""
    is_h = hasattr(obj, "exchange")
    if op in ("notation", "dc", "factor", "scale bond", "set component", "add bond", "remove bond", "scale on-site", "add on-site", "remove on-site", "cone axis", "cone axis in place", "spiral vector", "spiral vector in place", "filter") and not is_h:
        return False
    atoms = list(obj.atoms)
    if not atoms and op != "add atom":
        return False
    if op == "notation":
        obj.notation = tuple(value)
    elif op == "dc":
        obj.double_counting = value
    elif op == "factor":
        obj.exchange_factor = value
        obj.on_site_factor = -value
    elif op in ("scale bond", "set component", "remove bond"):
        bonds = [(a, b, r) for a, b, r, _ in obj.exchange]
        if not bonds:
            return False
        key = bonds[value % len(bonds)]
        if op == "scale bond":
            obj[key].matrix *= 3.0
        elif op == "set component":
            obj[key].xy = 77.0
        else:
            del obj[key]
    elif op == "add bond":
        obj.add_exchange(atoms[0], atoms[-1], (4, value % 3, 1), iso=5.0, dmi=(1, 2, 3))
    elif op == "add on-site":
        obj.add_on_site(atoms[value % len(atoms)], matrix=np.diag([1.0, 2.0, 9.0]))
    elif op in ("scale on-site", "remove on-site"):
        sites = [a for a, _ in obj.on_site]
        if not sites:
            return False
        key = sites[value % len(sites)]
        if op == "scale on-site":
            obj[key].matrix *= 3.0
        else:
            del obj[key]
    elif op == "atom spin":
        atoms[value % len(atoms)].spin_vector = (0.3, 0.4, 1.7)
    elif op == "atom position":
        atoms[value % len(atoms)].position = (0.33, 0.44, 0.77)
    elif op == "atom position in place":
        p = atoms[value % len(atoms)].position
        p += 0.01
    elif op == "atom g":
        atoms[value % len(atoms)].g_factor = 1.234
    elif op == "atom name":
        atoms[value % len(atoms)].name = "Zz"
    elif op == "add atom":
        # equal names may get equal indices after the removal of atoms
        used = {a.name for a in obj.atoms}
        name = next(f"Y{letter}" for letter in "abcdefghij" if f"Y{letter}" not in used)
        obj.add_atom(name=name, position=(0.9, 0.9, 0.9), spin=(0, 0, 1))
    elif op == "remove atom":
        obj.remove_atom(atoms[value % len(atoms)])
    elif op == "cell":
        obj.cell = np.array(obj.cell) * 1.5
    elif op == "cone axis":
        obj.cone_axis = [1.0, 2.0, 2.0]
    elif op == "cone axis in place":
        if obj.cone_axis is None:
            return False
        obj.cone_axis[0] += 0.25
    elif op == "spiral vector":
        obj.spiral_vector = [0.1, 0.2, 0.3]
    elif op == "spiral vector in place":
        if obj.spiral_vector is None:
            return False
        obj.spiral_vector[0] += 0.25
    elif op == "filter":
        obj.filter(max_distance=0.5 + value)
    return True


@st.composite
def copy_cases(draw):
    return {
        "model": draw(gen.model(min_bonds=1, max_bonds=5, vectors=True, charge=True)),
        "how": draw(st.sampled_from(["copy", "copy", "filtered", "filtered-max", "crystal"])),
        "side": draw(st.sampled_from(["copy", "original"])),
        "mutations": draw(st.lists(MUTATION, min_size=1, max_size=5)),
    }


def snap(obj):
    if hasattr(obj, "exchange"):
        return ref.snapshot(obj)
    return {"cell": arr(obj.cell, (3, 3), "cell").tolist(), "atoms": [ref.atom_data(a) for a in obj.atoms]}


def run_copy(case, ctx):
    h = ref.build(case["model"])
    before = snap(h)
    how = case["how"]
    if how == "copy":
        new = h.copy()
    elif how == "filtered":
        new = h.filtered()
    elif how == "filtered-max":
        new = h.filtered(max_distance=1e6)
    else:
        new = h.crystal
        ensure(not hasattr(new, "exchange"), "crystal returned a Hamiltonian")
    after = snap(new)
    for key in after:
        ensure(after[key] == before[key], f"{how}: {key} is {after[key]}, expected {before[key]}")
    target, other = (new, h) if case["side"] == "copy" else (h, new)
    names = []
    for op, value in case["mutations"]:
        if op == "atom name" and "remove atom" in names:
            continue
        reference = snap(other)
        if mutate(target, op, value):
            names.append(op)
            ref.same_snapshot(reference, snap(other), f"{how}: '{op}' on the {case['side']}; the other side")
            ctx.label(op)
        if op == "atom name":
            # renamed atoms can not be found in the tables of parameters
            break
    ctx.label(how)


SUBCHECKS = [
    SubCheck(
        "filter",
        filter_cases(),
        run_filter,
        quick=9000,
        thorough=50000,
        rule="model x distance window x predicate, thresholds between or exactly at distances; non-trivial: at least one condition and two bonds",
        nontrivial=lambda c: (c["max"] or c["min"] or c["filter"]) is not None and len(c["model"]["bonds"]) >= 2,
    ),
    SubCheck(
        "independence",
        copy_cases(),
        run_copy,
        quick=4000,
        thorough=50000,
        rule="model, way of copying, 1-5 modifications of one side; non-trivial: every case with a bond",
        nontrivial=lambda c: len(c["model"]["bonds"]) > 0,
    ),
]
ASSUMPTIONS = [
    "under double counting the predicate does not distinguish a matrix and its transpose",
    "max_distance is not negative",
]
