"""The same crystal described with another unit cell has the same energies and spectra."""

import itertools
import math

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.core import SubCheck, arr, close, num
from vlib.gen import rotation_from
from vlib.props.p11 import prepare

DIAGONAL = [[2, 1, 1], [1, 2, 1], [1, 1, 2], [3, 1, 1], [1, 3, 1], [1, 1, 3], [2, 2, 1], [1, 2, 2], [4, 1, 1], [1, 1, 4]]


@st.composite
def supercells(draw):
    """Integer matrices (rows are the new lattice vectors) with a small determinant."""
    m = np.diag(draw(st.sampled_from(DIAGONAL + [[1, 1, 1]] * 4)))
    for i, j, x in draw(st.lists(st.tuples(st.integers(0, 2), st.integers(0, 2), st.sampled_from([1, -1, 2])), max_size=3)):
        if i != j:
            m[i] += x * m[j]
    m = m[list(draw(st.permutations(range(3))))]
    if draw(st.booleans()):
        m[draw(st.integers(0, 2))] *= -1
    return m.tolist()


def representatives(m):
    """One integer vector per class of Z^3 modulo the rows of m."""
    m = np.array(m)
    n = abs(round(np.linalg.det(m)))
    found = {}
    for t in itertools.product(range(n), repeat=3):
        key = reduce(t, m)
        if key not in found:
            found[key] = t
        if len(found) == n:
            break
    return found


def reduce(t, m):
    """Canonical name of the class: numerators of the fractional coordinates."""
    n = abs(round(np.linalg.det(m)))
    x = np.rint(np.array(t) @ np.linalg.inv(m) * n).astype(int)
    return tuple(int(v) for v in x % n)


def enlarge(spec, m, offsets):
    """Spec in the new cell; atoms of class c are those of the original cell t_c."""
    m = np.array(m)
    inv = np.linalg.inv(m)
    classes = representatives(m)
    keys = list(classes)
    # other representatives of the classes
    cells = [np.array(classes[k]) + np.array(offsets[n % len(offsets)]) @ m for n, k in enumerate(keys)]
    number = {k: n for n, k in enumerate(keys)}
    na, nc = len(spec["atoms"]), len(keys)
    new = ref.deep(spec)
    new["cell"] = (m @ np.array(spec["cell"])).tolist()
    new["atoms"], new["bonds"], new["onsite"] = [], [], []
    for n, t in enumerate(cells):
        for a in spec["atoms"]:
            new["atoms"].append(dict(a, name=f"{a['name']}c{n}", pos=((np.array(a["pos"]) + t) @ inv).tolist()))
        for i, j, r, mat in spec["bonds"]:
            end = t + np.array(r)
            c = number[reduce(end, m)]
            shift = np.rint((end - cells[c]) @ inv).astype(int)
            new["bonds"].append([n * na + i, c * na + j, [int(x) for x in shift], mat])
        for k, mat in spec["onsite"]:
            new["onsite"].append([n * na + k, mat])
    return new, cells


@st.composite
def cases(draw):
    spec = draw(gen.model(min_atoms=1, max_atoms=3, min_bonds=1, max_bonds=5, wide=True))
    have = {k for k, _ in spec["onsite"]} | set(gen.magnetic_ids(spec))
    for k in range(len(spec["atoms"])):
        if k not in have:
            spec["onsite"].append([k, draw(gen.matrix())])
    return {
        "model": spec,
        "kind": "positive",
        "gap": draw(gen.grid(0.5, 3, 8)),
        "cell": draw(supercells()),
        "offsets": draw(st.lists(gen.vec(st.integers(-1, 1)), min_size=1, max_size=4)),
        "dirs": draw(gen.directions(len(spec["atoms"]))),
        "axis": draw(gen.unit_like()),
        "q": draw(gen.vec(gen.real(-1, 1, 16))),
        "qa": draw(gen.vec(st.integers(-1, 1)).filter(lambda q: any(q))),
        "k": draw(gen.vec(gen.real(-1, 1, 16))),
        "field": draw(st.one_of(st.none(), gen.vec(gen.real(-20, 20)))),
        "notation": draw(st.one_of(st.none(), gen.notation4())),
    }


def objects(spec, case):
    from magnopy import Energy, MagnonDispersion

    h = ref.build(spec)
    e = Energy(h)
    if case["field"] is not None:
        e.magnetic_field = case["field"]
    return h, e, MagnonDispersion(h)


def turned(dirs, axis, q, cells, cell):
    """Spins of the original cells t_c: rotated about the axis by q.t"""
    return np.concatenate([dirs @ rotation_from(axis, float(np.dot(q, t @ cell))).T for t in cells])


def scale_with_field(spec, case):
    scale = ref.scale_of(spec)
    if case["field"] is not None:
        scale += sum(abs(x) for x in case["field"]) * sum(x * abs(t["g"]) for x, t in zip(ref.spins_of(spec), spec["atoms"])) * 0.06
    return scale


def run(case, ctx):
    spec = prepare(case)
    big, cells = enlarge(spec, case["cell"], case["offsets"])
    n = len(cells)
    if case["notation"] is not None:
        # the large cell is given in another notation
        h = ref.build(big)
        h.notation = tuple(case["notation"])
        from magnopy import Energy, MagnonDispersion

        e2, md2 = Energy(h), MagnonDispersion(h)
        if case["field"] is not None:
            e2.magnetic_field = case["field"]
    else:
        _, e2, md2 = objects(big, case)
    _, e1, md1 = objects(spec, case)
    cell = np.array(spec["cell"], dtype=float)
    rec = ref.reciprocal(cell)
    dirs, axis = ref.normed(case["dirs"]), np.array(case["axis"], dtype=float)
    scale = scale_with_field(spec, case)
    what = f"in the cell {case['cell']}"
    close(num(e2.ferro(np.tile(dirs, (n, 1)))) / n, num(e1.ferro(dirs)), f"ferro energy {what}", 1e-9, scale)
    q = np.array(case["q"]) @ rec
    close(
        num(e2.spiral(turned(dirs, axis, q, cells, cell), axis, q)) / n,
        num(e1.spiral(dirs, axis, q)),
        f"spiral energy {what}",
        1e-9,
        scale,
    )
    qa = np.array(case["qa"]) @ rec / 2
    one = num(e1.antiferro(dirs, axis, qa))
    many = turned(dirs, axis, qa, cells, cell)
    # in the coordinates of the new reciprocal cell
    rel = qa @ np.linalg.inv(ref.reciprocal(big["cell"]))
    if np.allclose(rel, np.rint(rel), atol=1e-9):
        # all spins of the alternating state are in the new cell
        close(num(e2.ferro(many)) / n, one, f"antiferro energy as the ferro energy {what}", 1e-9, scale)
        ctx.label("antiferro within the cell")
    else:
        close(num(e2.antiferro(many, axis, qa)) / n, one, f"antiferro energy {what}", 1e-9, scale)
        ctx.label("antiferro")
    # spectra: wave vectors are folded
    k = np.array(case["k"]) @ rec
    rec2 = ref.reciprocal(big["cell"])
    folded = [np.array(g) @ rec2 for g in representatives(np.array(case["cell"]).T).values()]
    w1 = np.concatenate([arr(md1.omega(k + g), (len(spec["atoms"]),), "spectrum") for g in folded])
    w2 = arr(md2.omega(k), (len(big["atoms"]),), f"spectrum {what}")
    close(np.sort(w2), np.sort(w1), f"spectrum {what}", 1e-6, scale)
    ctx.label(f"{n} cells")


# ------------------------------------------------------------------ commensurate spirals
@st.composite
def spirals(draw):
    spec = draw(gen.model(min_atoms=1, max_atoms=2, min_bonds=1, max_bonds=4))
    order = draw(st.sampled_from([3, 4, 5, 6, 7]))
    q = draw(gen.vec(st.integers(-order, order)).filter(lambda q: math.gcd(*q, order) == 1))
    return {
        "model": spec,
        "order": order,
        "q": q,
        "dirs": draw(gen.directions(len(gen.magnetic_ids(spec)) )),
        "axis": draw(gen.unit_like()),
        "field": draw(st.one_of(st.none(), gen.vec(gen.real(-20, 20)))),
        "offsets": draw(st.lists(gen.vec(st.integers(-1, 1)), min_size=1, max_size=4)),
    }


def lattice_of(q, order):
    """Rows: basis of the integer vectors R with q.R = 0 (mod order); index is the order."""
    q = [x % order for x in q]
    # Hermite form by brute force
    for d3 in range(1, order + 1):
        if (d3 * q[2]) % order == 0:
            break
    rows = [[0, 0, d3]]
    found = None
    for d2 in range(1, order + 1):
        for x in range(d3):
            if (d2 * q[1] + x * q[2]) % order == 0:
                found = [0, d2, x]
                break
        if found:
            break
    rows.insert(0, found)
    found2 = None
    for d1 in range(1, order + 1):
        for y in range(found[1]):
            for x in range(d3):
                if (d1 * q[0] + y * q[1] + x * q[2]) % order == 0:
                    found2 = [d1, y, x]
                    break
            if found2:
                break
        if found2:
            break
    rows.insert(0, found2)
    return rows


def run_spirals(case, ctx):
    from magnopy import Energy

    spec = ref.deep(case["model"])
    # only magnetic atoms, in the order of the directions
    ids = gen.magnetic_ids(spec)
    number = {a: n for n, a in enumerate(ids)}
    spec["atoms"] = [spec["atoms"][a] for a in ids]
    spec["bonds"] = [[number[i], number[j], r, m] for i, j, r, m in spec["bonds"]]
    spec["onsite"] = [[number[k], m] for k, m in spec["onsite"]]
    m = lattice_of(case["q"], case["order"])
    big, cells = enlarge(spec, m, case["offsets"])
    n = len(cells)
    cell = np.array(spec["cell"], dtype=float)
    q = np.array(case["q"]) / case["order"] @ ref.reciprocal(cell)
    dirs, axis = ref.normed(case["dirs"]), np.array(case["axis"], dtype=float)
    e1, e2 = Energy(ref.build(spec)), Energy(ref.build(big))
    if case["field"] is not None:
        e1.magnetic_field = e2.magnetic_field = case["field"]
    spins = turned(dirs, axis, q, cells, cell)
    scale = scale_with_field(spec, case)
    close(num(e2.ferro(spins)) / n, num(e1.spiral(dirs, axis, q)), f"spiral of {case['order']} cells as one ferro cell", 1e-9, scale)
    ctx.label(f"{n} cells")


SUBCHECKS = [
    SubCheck(
        "cells",
        cases(),
        run,
        quick=2500,
        thorough=30000,
        rule="model x another unit cell (of up to four cells, skewed, permuted, inverted) with arbitrary representatives of the atoms, in the same or another notation; non-trivial: more than one original cell",
        nontrivial=lambda c: abs(round(np.linalg.det(c["cell"]))) > 1,
    ),
    SubCheck(
        "spirals",
        spirals(),
        run_spirals,
        quick=2000,
        thorough=30000,
        rule="spirals of three to seven cells against one large cell; non-trivial: a bond between cells",
        nontrivial=lambda c: any(b[2] != [0, 0, 0] for b in c["model"]["bonds"]),
    ),
]
ASSUMPTIONS = ["the quadratic form of magnons is made definite by on-site terms along the spins", "spectra are not affected by the field (as in magnopy)"]
