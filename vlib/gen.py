"""Hypothesis strategies. Every generated value is plain JSON-serialisable data."""

import math

import numpy as np
from hypothesis import strategies as st

# names that look like something else in the files, or are long
ODD_NAMES = [
    "Matrix", "DMI", "Isotropic", "Symmetric-anisotropy", "Cell", "Atoms", "Notation", "Exchange", "On-site",
    "Cone-axis", "Spiral-vector", "Spin-normalized", "e1", "1e5", "True", "nan", "10", "1", "Name", "Vector",
    "absolute", "Angstrom", "Fe.1", "Fe*", "Fe'", "Fe1_apical_site_of_the_second_layer_42", "a,b", "x", "X'", "fe1",
]
NAMES = ["Fe1", "Fe2", "Cr1", "Cr2", "Mn", "Ni", "Co3", "Br1", "X", "Gd10", "O2", "Cu"]


def grid(lo, hi, den=8):
    """Numbers n/den in [lo, hi], exact in binary for powers of two."""
    return st.integers(int(lo * den), int(hi * den)).map(lambda n: n / den)


def real(lo, hi, den=8):
    """Mostly short binary fractions, sometimes arbitrary floats."""
    return st.one_of(
        grid(lo, hi, den),
        st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False).map(
            lambda x: 0.0 if abs(x) < 1e-6 else x
        ),
    )


def vec(elements):
    return st.tuples(elements, elements, elements).map(list)


@st.composite
def nonzero_vec(draw, lo=-3, hi=3):
    v = draw(vec(real(lo, hi)))
    if max(abs(x) for x in v) < 0.2:
        v[draw(st.integers(0, 2))] = draw(st.sampled_from([1.0, -1.0, 0.5, -2.0]))
    return v


@st.composite
def unit_like(draw):
    """Direction: axes, diagonals and generic vectors; not normalised."""
    kind = draw(st.integers(0, 3))
    if kind == 0:
        v = [0.0, 0.0, 0.0]
        v[draw(st.integers(0, 2))] = draw(st.sampled_from([1.0, -1.0]))
        return v
    if kind == 1:
        th = draw(st.floats(0.0, math.pi))
        ph = draw(st.floats(0.0, 2 * math.pi))
        return [math.sin(th) * math.cos(ph), math.sin(th) * math.sin(ph), math.cos(th)]
    if kind == 2:
        # almost of unit length
        v = draw(nonzero_vec())
        s = (1 + draw(st.sampled_from([1e-2, -1e-2, 4e-3, -1e-3, 1e-4, -1e-6, 1e-9]))) / math.sqrt(sum(x * x for x in v))
        return [s * x for x in v]
    return draw(nonzero_vec())


ENTRY = grid(-4, 4, 16)


@st.composite
def matrix(draw, kinds=("full", "iso", "dmi", "iso+dmi", "symm", "diag", "float")):
    kind = draw(st.sampled_from(list(kinds)))
    if kind == "iso":
        return (np.eye(3) * draw(real(-4, 4))).tolist()
    if kind in ("dmi", "iso+dmi"):
        d = draw(vec(ENTRY))
        m = np.array([[0, d[2], -d[1]], [-d[2], 0, d[0]], [d[1], -d[0], 0]], dtype=float)
        if kind == "iso+dmi":
            m = m + np.eye(3) * draw(ENTRY)
        return m.tolist()
    if kind == "diag":
        return np.diag(draw(vec(ENTRY))).tolist()
    if kind == "float":
        x = draw(st.lists(st.floats(-5, 5, allow_subnormal=False), min_size=9, max_size=9))
        return [[0.0 if abs(v) < 1e-6 else v for v in x[3 * i : 3 * i + 3]] for i in range(3)]
    x = draw(st.lists(ENTRY, min_size=9, max_size=9))
    m = np.array(x).reshape(3, 3)
    if kind == "symm":
        m = (m + m.T) / 2
    return m.tolist()


@st.composite
def cell(draw, kinds=("cubic", "tet", "orc", "hex", "tri", "tri", "left", "rot")):
    kind = draw(st.sampled_from(list(kinds)))
    a = draw(grid(2, 7, 8))
    if kind == "cubic":
        c = np.eye(3) * a
    elif kind == "tet":
        c = np.diag([a, a, a + draw(grid(0.5, 4, 8))])
        p = draw(st.permutations([0, 1, 2]))
        c = c[list(p)]
    elif kind == "orc":
        c = np.diag([a, a + draw(grid(0.5, 2, 8)), a + draw(grid(2.5, 4, 8))])
        p = draw(st.permutations([0, 1, 2]))
        c = c[list(p)]
    elif kind == "hex":
        c = np.array([[a, 0, 0], [-a / 2, a * math.sqrt(3) / 2, 0], [0, 0, draw(grid(3, 9, 8))]])
    else:
        b, cc = draw(grid(2, 7, 8)), draw(grid(2, 7, 8))
        o = draw(vec(grid(-1.5, 1.5, 8)))
        c = np.array([[a, 0, 0], [o[0], b, 0], [o[1], o[2], cc]])
        if kind == "left":
            c = c[[1, 0, 2]] if draw(st.booleans()) else -c
        if kind == "rot":
            c = c @ rotation_from(draw(unit_like()), draw(grid(-3, 3, 8))).T
    return c.tolist()


def rotation_from(axis, angle):
    n = np.array(axis, dtype=float)
    n = n / np.linalg.norm(n)
    k = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
    return np.eye(3) + math.sin(angle) * k + (1 - math.cos(angle)) * (k @ k)


FACTORS = [1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 0.25, 3.0, -0.7, 1.3]


def factor():
    return st.sampled_from(FACTORS)


def notation4():
    return st.tuples(st.booleans(), st.booleans(), factor(), factor()).map(list)


SPIN_LENGTHS = [0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 0.75, 1.37]


@st.composite
def spin_vector(draw, zero=False):
    if zero and draw(st.integers(0, 7)) == 0:
        return [0.0, 0.0, 0.0]
    s = draw(st.sampled_from(SPIN_LENGTHS))
    v = np.array(draw(unit_like()))
    v = v / np.linalg.norm(v) * s
    return [float(x) for x in v]


def atom(zero_spin=False, charge=False):
    return st.fixed_dictionaries(
        {
            "pos": vec(st.one_of(grid(0, 0.9375, 16), st.floats(-0.5, 1.5, allow_subnormal=False).map(lambda x: round(x, 6)))),
            "spin": spin_vector(zero=zero_spin),
            "g": st.one_of(st.just(2.0), grid(0.5, 3, 8), grid(-3, 3, 8)),
            "q": st.one_of(st.none(), grid(-3, 3, 8)) if charge else st.none(),
        }
    )


def mirror(i, j, r):
    return (j, i, (-r[0], -r[1], -r[2]))


def pair_key(i, j, r):
    """One key for (i,j,R) and (j,i,-R), and whether the orientation was changed."""
    a, b = (i, j, tuple(r)), mirror(i, j, r)
    return (a, False) if a <= b else (b, True)


RCOMP = st.one_of(st.integers(-1, 1), st.integers(-3, 3))
# for everything that stores cell indices without using them as a phase
RFAR = st.one_of(
    RCOMP, RCOMP, RCOMP, st.sampled_from([10, -10, 100, -100, 127, -128, 128, -129, 255, 256, -1000, 32768, -32769, 65536, 10**6])
)


@st.composite
def model(
    draw,
    min_atoms=1,
    max_atoms=4,
    min_bonds=0,
    max_bonds=6,
    max_onsite=None,
    notation=True,
    zero_spin=False,
    charge=False,
    vectors=False,
    cells=None,
    matrices=None,
    r_max=None,
    far=False,
    wide=False,
):
    """A spin Hamiltonian as data: one entry per physical pair of sites.

    notation None means undefined (then not drawn)."""
    if wide and draw(st.integers(0, 15)) == 15:
        # sometimes much more than the few atoms of the usual case
        min_atoms, max_atoms, min_bonds, max_bonds = 5, len(NAMES), 4, 3 * max_bonds
    n = draw(st.integers(min_atoms, max_atoms))
    names = draw(st.permutations(NAMES))[:n]
    if draw(st.integers(0, 5)) == 5:
        names = draw(st.lists(st.sampled_from(ODD_NAMES + NAMES), min_size=n, max_size=n, unique=True))
    atoms = [dict(draw(atom(zero_spin, charge)), name=names[k]) for k in range(n)]
    m = matrices if matrices is not None else matrix()
    rc = RFAR if far else RCOMP if r_max is None else st.integers(-r_max, r_max)
    raw = draw(
        st.lists(
            st.tuples(st.integers(0, n - 1), st.integers(0, n - 1), vec(rc), m),
            min_size=min_bonds,
            max_size=max_bonds,
        )
    )
    bonds, seen = [], set()
    for i, j, r, mat in raw:
        if i == j and r == [0, 0, 0]:
            r = [1, 0, 0]
        key, _ = pair_key(i, j, r)
        if key in seen:
            continue
        seen.add(key)
        bonds.append([i, j, r, mat])
    mo = n if max_onsite is None else min(n, max_onsite)
    sites = draw(st.lists(st.integers(0, n - 1), unique=True, max_size=mo)) if mo else []
    onsite = [[k, draw(m)] for k in sites]
    result = {
        "cell": draw(cell(cells) if cells else cell()),
        "atoms": atoms,
        "bonds": bonds,
        "onsite": onsite,
        "notation": draw(notation4()) if notation else None,
    }
    if vectors:
        result["cone_axis"] = draw(st.one_of(st.none(), unit_like()))
        result["spiral_vector"] = draw(st.one_of(st.none(), vec(grid(-1, 1, 16))))
    return result


def directions(n):
    return st.lists(unit_like(), min_size=n, max_size=n)


def magnetic_ids(spec):
    """Indices of magnetic atoms in the order of the crystal."""
    ids = set()
    for i, j, _, _ in spec["bonds"]:
        ids |= {i, j}
    for k, _ in spec["onsite"]:
        ids.add(k)
    return sorted(ids)
