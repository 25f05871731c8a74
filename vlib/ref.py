"""Reference semantics of spin Hamiltonians, independent of magnopy."""

import copy
import os

import numpy as np

from vlib.core import Violation, arr, close, ensure, fail, num
from vlib.gen import magnetic_ids, mirror, pair_key, rotation_from

MEV = 1.602176634e-22  # Joule
MU_B = 9.2740100783e-24 / MEV  # meV / Tesla


# ---------------------------------------------------------------- building
def build(spec, notation_first=True, reverse_bonds=False):
    """Construct magnopy's object from data through the public interface."""
    from magnopy import SpinHamiltonian

    h = SpinHamiltonian(cell=np.array(spec["cell"], dtype=float))
    for a in spec["atoms"]:
        kw = {}
        if a.get("q") is not None:
            kw["charge"] = a["q"]
        h.add_atom(
            name=a["name"],
            position=list(a["pos"]),
            spin=list(a["spin"]),
            g_factor=a["g"],
            relative=True,
            **kw,
        )
    if notation_first and spec.get("notation") is not None:
        h.notation = tuple(spec["notation"])
    names = [a["name"] for a in spec["atoms"]]
    for i, j, r, m in spec["bonds"]:
        h.add_exchange(names[i], names[j], tuple(r), matrix=np.array(m, dtype=float))
    for k, m in spec["onsite"]:
        h.add_on_site(names[k], matrix=np.array(m, dtype=float))
    if not notation_first and spec.get("notation") is not None:
        h.notation = tuple(spec["notation"])
    if spec.get("cone_axis") is not None:
        h.cone_axis = spec["cone_axis"]
    if spec.get("spiral_vector") is not None:
        h.spiral_vector = spec["spiral_vector"]
    return h


# ---------------------------------------------------------------- physics from data
def spins_of(spec):
    return [float(np.linalg.norm(a["spin"])) for a in spec["atoms"]]


def physical(spec):
    """Tensors of the energy for unit vectors: {pair: T}, {site: T}.

    E = sum_pairs e_i T e_j + sum_sites e T e (per unit cell)."""
    dc, sn, fe, fo = spec["notation"]
    s = spins_of(spec)
    pairs, sites = {}, {}
    for i, j, r, m in spec["bonds"]:
        key, flipped = pair_key(i, j, r)
        t = fe * (2 if dc else 1) * (1 if sn else s[i] * s[j]) * np.array(m, dtype=float)
        pairs[key] = pairs.get(key, 0) + (t.T if flipped else t)
    for k, m in spec["onsite"]:
        sites[k] = fo * (1 if sn else s[k] ** 2) * np.array(m, dtype=float)
    return pairs, sites


def scale_of(spec):
    pairs, sites = physical(spec)
    return 1.0 + sum(np.abs(t).max() * 3 for t in pairs.values()) + sum(
        np.abs(t).max() * 3 for t in sites.values()
    )


def normed(vs):
    vs = np.array(vs, dtype=float)
    return vs / np.linalg.norm(vs, axis=-1)[..., None]


def ferro_energy(spec, dirs, field=None):
    """dirs: one direction per magnetic atom (order of the crystal)."""
    ids = magnetic_ids(spec)
    e = dict(zip(ids, normed(dirs)))
    pairs, sites = physical(spec)
    s = spins_of(spec)
    en = 0.0
    for (i, j, _), t in pairs.items():
        en += e[i] @ t @ e[j]
    for k, t in sites.items():
        en += e[k] @ t @ e[k]
    if field is not None:
        for k in ids:
            en += MU_B * spec["atoms"][k]["g"] * s[k] * np.dot(field, e[k])
    return float(en)


def rotated_energy(spec, dirs, axis, q, phases, field=None):
    """Average over the given phases of the origin cell; q absolute."""
    ids = magnetic_ids(spec)
    e = dict(zip(ids, normed(dirs)))
    pairs, sites = physical(spec)
    s = spins_of(spec)
    cell = np.array(spec["cell"], dtype=float)
    total = 0.0
    for phi in phases:
        en = 0.0
        r0 = rotation_from(axis, phi)
        for (i, j, r), t in pairs.items():
            r1 = rotation_from(axis, phi + np.dot(q, np.array(r, dtype=float) @ cell))
            en += (r0 @ e[i]) @ t @ (r1 @ e[j])
        for k, t in sites.items():
            en += (r0 @ e[k]) @ t @ (r0 @ e[k])
        if field is not None:
            for k in ids:
                en += MU_B * spec["atoms"][k]["g"] * s[k] * np.dot(field, r0 @ e[k])
        total += en
    return float(total / len(phases))


def reciprocal(cell):
    return 2 * np.pi * np.linalg.inv(np.array(cell, dtype=float)).T


# ---------------------------------------------------------------- reading magnopy's objects
def charge_of(atom):
    try:
        return atom.charge
    except ValueError:
        return None


def atom_data(atom):
    return {
        "name": atom.name,
        "index": atom.index,
        "pos": [float(x) for x in arr(atom.position, (3,), "position")],
        "spin": [float(x) for x in arr(atom.spin_vector, (3,), "spin vector")],
        "g": float(atom.g_factor),
        "q": None if charge_of(atom) is None else float(charge_of(atom)),
    }


def notation_part(h, name):
    from magnopy.exceptions import NotationError

    try:
        return getattr(h, name)
    except NotationError:
        return None


NOTATION_PARTS = ("double_counting", "spin_normalized", "exchange_factor", "on_site_factor")


def snapshot(h):
    """Everything observable of a Hamiltonian, as plain data."""
    sn = {
        "cell": arr(h.cell, (3, 3), "cell").tolist(),
        "atoms": [atom_data(a) for a in h.atoms],
        "notation": [
            (None if v is None else (bool(v) if k < 2 else float(v)))
            for k, v in enumerate(notation_part(h, n) for n in NOTATION_PARTS)
        ],
        "exchange": [
            (
                (a.name, a.index),
                (b.name, b.index),
                tuple(int(x) for x in r),
                arr(p.matrix, (3, 3), "matrix").tolist(),
            )
            for a, b, r, p in h.exchange
        ],
        "on_site": [
            ((a.name, a.index), arr(p.matrix, (3, 3), "matrix").tolist()) for a, p in h.on_site
        ],
        "cone_axis": None if h.cone_axis is None else arr(h.cone_axis, (3,), "cone axis").tolist(),
        "spiral_vector": None
        if h.spiral_vector is None
        else arr(h.spiral_vector, (3,), "spiral vector").tolist(),
    }
    return sn


def same_snapshot(a, b, what):
    for key in a:
        if a[key] != b[key]:
            fail(f"{what}: {key} changed from {str(a[key])[:600]} to {str(b[key])[:600]}")


def read_bonds(h):
    """{(i, j, R): matrix} with indices of atoms in the crystal."""
    index = {(a.name, a.index): k for k, a in enumerate(h.atoms)}
    result = {}
    for a, b, r, p in h.exchange:
        key = (index[(a.name, a.index)], index[(b.name, b.index)], tuple(int(x) for x in r))
        if key in result:
            fail(f"bond {key} is listed twice")
        result[key] = arr(p.matrix, (3, 3), f"matrix of {key}")
    return result


def read_onsite(h):
    index = {(a.name, a.index): k for k, a in enumerate(h.atoms)}
    result = {}
    for a, p in h.on_site:
        key = index[(a.name, a.index)]
        if key in result:
            fail(f"on-site term {key} is listed twice")
        result[key] = arr(p.matrix, (3, 3), f"on-site matrix of {key}")
    return result


def expected_bonds(spec, canonical=False):
    """Bonds that the Hamiltonian has to list for the data (representation included).

    With double counting both members; otherwise the member that was given."""
    dc = spec["notation"][0] if spec.get("notation") is not None else None
    result = {}
    for i, j, r, m in spec["bonds"]:
        m = np.array(m, dtype=float)
        result[(i, j, tuple(r))] = m
        if dc:
            result[mirror(i, j, r)] = m.T
    return result


def is_canonical(i, j, r, atoms):
    """Documented member of the pair kept without double counting."""
    r = tuple(r)
    if r > (0, 0, 0):
        return True
    if r < (0, 0, 0):
        return False
    return i <= j


def compare_bonds(got, expected, what, tol=1e-9):
    if set(got) != set(expected):
        missing = sorted(set(expected) - set(got))[:5]
        extra = sorted(set(got) - set(expected))[:5]
        fail(f"{what}: missing bonds {missing}, extra bonds {extra}")
    for k in expected:
        close(got[k], expected[k], f"{what}: matrix of {k}", tol=tol)


def physical_of(h):
    """Physical tensors read from magnopy's object (needs defined notation)."""
    dc, sn, fe, fo = h.notation
    atoms = list(h.atoms)
    s = [float(a.spin) for a in atoms]
    pairs, sites = {}, {}
    for (i, j, r), m in read_bonds(h).items():
        key, flipped = pair_key(i, j, r)
        t = fe * (1 if sn else s[i] * s[j]) * m
        pairs[key] = pairs.get(key, 0) + (t.T if flipped else t)
    for k, m in read_onsite(h).items():
        sites[k] = fo * (1 if sn else s[k] ** 2) * m
    return pairs, sites


def compare_physical(got, expected, what, tol=1e-9):
    compare_bonds(got[0], expected[0], what + " (pair tensors)", tol)
    compare_bonds(got[1], expected[1], what + " (site tensors)", tol)


def check_notation(h, notation, what):
    got = h.notation
    ensure(len(got) == 4, f"{what}: notation {got!r}")
    ensure(
        bool(got[0]) == notation[0] and bool(got[1]) == notation[1],
        f"{what}: notation {got}, expected {notation}",
    )
    close([float(got[2]), float(got[3])], [notation[2], notation[3]], f"{what}: factors", tol=1e-12)


def deep(spec):
    return copy.deepcopy(spec)


# ---------------------------------------------------------------- linear spin-wave theory
def absolute_positions(spec):
    return np.array([a["pos"] for a in spec["atoms"]], dtype=float) @ np.array(spec["cell"], dtype=float)


def lswt(spec, k):
    """Linearised precession S_i de_i/dt = dE/de_i x e_i around the spins of the atoms.

    Deviations exp(i k.r - i w t) with absolute positions r.  Returns the Hessian of the energy in
    canonical coordinates (2N x 2N Hermitian) and the 2N frequencies."""
    ids = magnetic_ids(spec)
    index = {a: n for n, a in enumerate(ids)}
    n = len(ids)
    cell = np.array(spec["cell"], dtype=float)
    r = absolute_positions(spec)
    s = np.array([spins_of(spec)[a] for a in ids])
    e = normed([spec["atoms"][a]["spin"] for a in ids])
    pairs, sites = physical(spec)
    kk = np.zeros((n, n, 3, 3), dtype=complex)
    field = np.zeros((n, 3))
    for (a, b, rr), t in pairs.items():
        i, j = index[a], index[b]
        d = r[b] + np.array(rr, dtype=float) @ cell - r[a]
        ph = np.exp(1j * np.dot(k, d))
        kk[i, j] += t * ph
        kk[j, i] += t.T * np.conj(ph)
        field[i] += t @ e[j]
        field[j] += t.T @ e[i]
    for a, t in sites.items():
        i = index[a]
        kk[i, i] += t + t.T
        field[i] += (t + t.T) @ e[i]
    basis = np.zeros((n, 2, 3))
    for i in range(n):
        m = np.argmin(np.abs(e[i]))
        x = np.cross(e[i], np.eye(3)[m])
        basis[i, 0] = x / np.linalg.norm(x)
        basis[i, 1] = np.cross(e[i], basis[i, 0])
    hess = np.zeros((2 * n, 2 * n), dtype=complex)
    dyn = np.zeros((2 * n, 2 * n), dtype=complex)
    turn = np.array([[0.0, -1.0], [1.0, 0.0]])  # n x in the basis (b0, b1)
    for i in range(n):
        lam = e[i] @ field[i]
        for j in range(n):
            b = basis[i] @ kk[i, j] @ basis[j].T
            if i == j:
                b = b - lam * np.eye(2)
            hess[2 * i : 2 * i + 2, 2 * j : 2 * j + 2] = b / np.sqrt(s[i] * s[j])
            # S_i de_i/dt = -n_i x (hessian . delta)
            dyn[2 * i : 2 * i + 2, 2 * j : 2 * j + 2] = -turn @ b / s[i]
    w = 1j * np.linalg.eigvals(dyn)
    return hess, w


# ---------------------------------------------------------------- comparison with loaded models
def oriented(bonds):
    """One entry per pair of sites, in the fixed orientation."""
    result = {}
    for (i, j, r), m in bonds.items():
        key, flipped = pair_key(i, j, r)
        m = np.array(m, dtype=float)
        result[key] = m.T if flipped else m
    return result


def compare_model(h, spec, what, tol_cell=1e-9, tol_pos=1e-9, tol_spin=1e-9, tol_g=1e-9, tol_par=1e-9,
                  tol_vec=1e-9, relative=False, default_charge=0.0, notation=True, tol_par_rel=0.0):
    """Everything of the loaded object against the data.

    spec["notation"] may contain None for parts that must stay undefined."""
    close(arr(h.cell, (3, 3), "cell"), np.array(spec["cell"], dtype=float), f"{what}: cell", tol_cell)
    atoms = list(h.atoms)
    names = [a.name for a in atoms]
    ensure(names == [a["name"] for a in spec["atoms"]], f"{what}: atoms {names}, expected {[a['name'] for a in spec['atoms']]}")
    for a, b in zip(atoms, spec["atoms"]):
        d = atom_data(a)
        close(d["pos"], b["pos"], f"{what}: position of {b['name']}", tol_pos)
        close(d["spin"], b["spin"], f"{what}: spin of {b['name']}", tol_spin)
        close(d["g"], b["g"], f"{what}: g-factor of {b['name']}", tol_g)
        q = default_charge if b.get("q") is None else b["q"]
        if q is None:
            ensure(d["q"] is None, f"{what}: charge of {b['name']} is {d['q']}, expected undefined")
        else:
            ensure(d["q"] is not None, f"{what}: charge of {b['name']} is undefined, expected {q}")
            close(d["q"], q, f"{what}: charge of {b['name']}", tol_g)
    if notation:
        for part, expected, k in zip(NOTATION_PARTS, spec["notation"], range(4)):
            got = notation_part(h, part)
            if expected is None:
                ensure(got is None, f"{what}: {part} is {got}, expected undefined")
            elif k < 2:
                ensure(got is not None and bool(got) == expected, f"{what}: {part} is {got}, expected {expected}")
            else:
                ensure(got is not None, f"{what}: {part} is undefined, expected {expected}")
                close(float(got), expected, f"{what}: {part}", 1e-12)
    got, expected = read_bonds(h), expected_bonds(spec)
    scale = max([np.abs(m).max() for m in expected.values()] + [np.abs(np.array(m)).max() for _, m in spec["onsite"]] + [1.0])
    tol = tol_par + tol_par_rel * scale
    if not spec["notation"] or not spec["notation"][0]:
        ensure(len(got) == len(oriented(got)), f"{what}: a pair is listed twice without double counting")
        got, expected = oriented(got), oriented(expected)

    def same(a, b, text):
        if set(a) != set(b):
            fail(f"{what}: {text}: missing {sorted(set(b) - set(a))[:5]}, extra {sorted(set(a) - set(b))[:5]}")
        for k in b:
            close(a[k], b[k], f"{what}: {text} of {k}", tol, 1.0)

    same(got, expected, "bonds")
    same(read_onsite(h), {k: np.array(m, dtype=float) for k, m in spec["onsite"]}, "on-site terms")
    for name in ("cone_axis", "spiral_vector"):
        got, expected = getattr(h, name), spec.get(name)
        if expected is None:
            ensure(got is None, f"{what}: {name} is {got}, expected undefined")
        else:
            ensure(got is not None, f"{what}: {name} is undefined, expected {expected}")
            e = np.array(expected, dtype=float)
            if name == "cone_axis":
                e = e / np.linalg.norm(e)
            close(arr(got, (3,), name), e, f"{what}: {name}", tol_vec)


def spec_of_snapshot(s):
    """Data with the same meaning as a snapshot, for compare_model."""
    index = {(a["name"], a["index"]): k for k, a in enumerate(s["atoms"])}
    return {
        "cell": s["cell"],
        "atoms": s["atoms"],
        "notation": list(s["notation"]),
        "bonds": [[index[a], index[b], list(r), m] for a, b, r, m in s["exchange"]],
        "onsite": [[index[a], m] for a, m in s["on_site"]],
        "cone_axis": s["cone_axis"],
        "spiral_vector": s["spiral_vector"],
    }


def storable(spec):
    """Parts of the notation that files keep: only those needed by the stored parameters."""
    spec = deep(spec)
    if not spec["bonds"]:
        spec["notation"][0] = spec["notation"][2] = None
    if not spec["onsite"]:
        spec["notation"][3] = None
    if not spec["bonds"] and not spec["onsite"]:
        spec["notation"][1] = None
    return spec


# ---------------------------------------------------------------- files that are written again
DECOYS = {
    "txt": """================================================================================
Cell
9.5 0.0 0.0
0.0 9.25 0.0
0.0 0.0 9.125
================================================================================
Atoms
Name r1 r2 r3 sx sy sz
Xe7 0.0 0.0 0.0 0.0 0.0 3.5
Xe8 0.5 0.5 0.5 0.0 3.5 0.0
================================================================================
Notation
Double-counting false
Spin-normalized false
Exchange-factor 7.0
================================================================================
Exchange
--------------------------------------------------------------------------------
Xe7 Xe8 0 0 0
Isotropic 77.0
--------------------------------------------------------------------------------
================================================================================
""",
    "tb2j": """================================================================================
Cell (Angstrom):
9.500 0.000 0.000
0.000 9.250 0.000
0.000 0.000 9.125
================================================================================
Atoms:
(Note: charge and magmoms only count the wannier functions.)
Atom_number x y z w_charge M(x) M(y) M(z)
Xe7 0.0000 0.0000 0.0000 3.0000 0.0000 0.0000 3.5000
Xe8 1.0000 0.0000 0.0000 3.0000 0.0000 0.0000 3.5000
Total 6.0000 0.0000 0.0000 7.0000
================================================================================
Exchange:
i j R J_iso(meV) vector distance(A)
----------------------------------------------------------------------------------------
Xe7 Xe8 (0, 0, 0) 77.0000 (1.000, 0.000, 0.000) 1.000
J_iso: 77.0000
----------------------------------------------------------------------------------------
""",
}


def after_other(path, kind, load):
    """Load another file that had this name before: the content of files must not be
    remembered. The date of the file is the same for both contents."""
    with open(path, "rb") as f:
        content = f.read()
    # only for a half of the cases
    if sum(content) % 2:
        return
    stat = os.stat(path)
    with open(path, "wb") as f:
        f.write(DECOYS[kind].encode("utf-8"))
    os.utime(path, ns=(stat.st_atime_ns, stat.st_mtime_ns))
    names = [a.name for a in load(path).atoms]
    if names != ["Xe7", "Xe8"]:
        fail(f"atoms of the other file are {names}")
    with open(path, "wb") as f:
        f.write(content)
    os.utime(path, ns=(stat.st_atime_ns, stat.st_mtime_ns))


def write_text(path, text):
    """Text with line ends of another system or without the last one, chosen by the text."""
    k = sum(text.encode("utf-8")) // 2 % 5
    with open(path, "w", encoding="utf-8", newline="\r\n" if k == 1 else "\n") as f:
        f.write(text.rstrip("\n") if k == 2 else text)
