import math

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.core import SubCheck, arr, close, num
from vlib.gen import rotation_from
from vlib.props.p11 import prepare

KINDS = ["rotate", "permute", "shift", "flip", "scale", "reverse", "notation", "lattice", "rename", "origin"]


@st.composite
def cases(draw):
    spec = draw(gen.model(min_atoms=1, max_atoms=4, min_bonds=1, max_bonds=6, wide=True))
    # all atoms take part, so the order of magnetic atoms follows the list of atoms
    have = {k for k, _ in spec["onsite"]} | set(gen.magnetic_ids(spec))
    for k in range(len(spec["atoms"])):
        if k not in have:
            spec["onsite"].append([k, draw(gen.matrix())])
    n = len(spec["atoms"])
    steps = []
    for kind in draw(st.lists(st.sampled_from(KINDS), min_size=1, max_size=4, unique=True)):
        if kind == "rotate":
            steps.append([kind, draw(gen.unit_like()), draw(gen.grid(-3, 3, 8))])
        elif kind == "permute":
            steps.append([kind, list(draw(st.permutations(range(n))))])
        elif kind == "shift":
            steps.append([kind, [draw(gen.vec(st.integers(-2, 2))) for _ in range(n)]])
        elif kind == "flip":
            steps.append([kind, draw(st.lists(st.booleans(), min_size=18, max_size=18))])
        elif kind == "scale":
            steps.append([kind, draw(st.sampled_from([2.0, 0.5, 3.0, 10.0, 0.25, 1.7, 1e-2, 1e-3, 1e2, 1e3]))])
        elif kind == "notation":
            steps.append([kind, draw(gen.notation4())])
        elif kind == "lattice":
            steps.append([kind, draw(gen.unit_like()), draw(gen.grid(-3, 3, 8)), draw(st.sampled_from([1.0, 2.0, 0.5, 1.25]))])
        elif kind == "origin":
            steps.append([kind, draw(gen.vec(gen.grid(-1, 1, 8)))])
        else:
            steps.append([kind])
    return {
        "model": spec,
        "kind": "positive",
        "gap": draw(gen.grid(0.5, 3, 8)),
        "steps": steps,
        "dirs": draw(gen.directions(n)),
        "axis": draw(gen.unit_like()),
        "q": draw(gen.vec(gen.real(-1, 1, 16))),
        "qa": draw(gen.vec(st.integers(-1, 1)).filter(lambda q: any(x % 2 for x in q))),
        "k": draw(gen.vec(gen.real(-1, 1, 16))),
        "field": draw(st.one_of(st.none(), gen.vec(gen.real(-20, 20)))),
    }


class State:
    """Model together with everything that is transformed with it."""

    def __init__(self, spec, case):
        self.spec = ref.deep(spec)
        self.dirs = {m: ref.normed(case["dirs"]) for m in ("ferro", "antiferro", "spiral")}
        self.axis = np.array(case["axis"], dtype=float)
        # relative to the reciprocal cell
        self.q = np.array(case["q"], dtype=float)
        self.qa = np.array(case["qa"], dtype=float) / 2
        self.k = np.array(case["k"], dtype=float)
        self.field = None if case["field"] is None else np.array(case["field"], dtype=float)
        self.factor = 1.0
        self.reversed = False
        self.notation = None

    def apply(self, step):
        kind, s = step[0], self.spec
        if kind == "rotate":
            r = rotation_from(step[1], step[2])
            for a in s["atoms"]:
                a["spin"] = (r @ np.array(a["spin"])).tolist()
            for b in s["bonds"]:
                b[3] = (r @ np.array(b[3]) @ r.T).tolist()
            for b in s["onsite"]:
                b[1] = (r @ np.array(b[1]) @ r.T).tolist()
            self.dirs = {m: d @ r.T for m, d in self.dirs.items()}
            self.axis = r @ self.axis
            if self.field is not None:
                self.field = r @ self.field
        elif kind == "permute":
            p = step[1]  # new position k holds old atom p[k]
            inv = {old: new for new, old in enumerate(p)}
            s["atoms"] = [s["atoms"][old] for old in p]
            s["bonds"] = [[inv[i], inv[j], r, m] for i, j, r, m in s["bonds"]][::-1]
            s["onsite"] = [[inv[k], m] for k, m in s["onsite"]][::-1]
            self.dirs = {m: d[p] for m, d in self.dirs.items()}
        elif kind == "shift":
            t = step[1]
            for a, x in zip(s["atoms"], t):
                a["pos"] = [u + v for u, v in zip(a["pos"], x)]
            for b in s["bonds"]:
                b[2] = [r + x - y for r, x, y in zip(b[2], t[b[0]], t[b[1]])]
            # atoms of the central cell are now the ones of the cell t
            for name, q in (("spiral", self.q), ("antiferro", self.qa)):
                self.dirs[name] = np.array(
                    [rotation_from(self.axis, 2 * math.pi * np.dot(q, x)) @ d for d, x in zip(self.dirs[name], t)]
                )
        elif kind == "flip":
            s["bonds"] = [
                [j, i, [-x for x in r], np.array(m).T.tolist()] if f else [i, j, r, m]
                for (i, j, r, m), f in zip(s["bonds"], step[1])
            ]
        elif kind == "scale":
            for b in s["bonds"]:
                b[3] = (np.array(b[3]) * step[1]).tolist()
            for b in s["onsite"]:
                b[1] = (np.array(b[1]) * step[1]).tolist()
            if self.field is not None:
                self.field = self.field * step[1]
            self.factor *= step[1]
        elif kind == "reverse":
            self.dirs = {m: -d for m, d in self.dirs.items()}
            for a in s["atoms"]:
                a["spin"] = [-x for x in a["spin"]]
            if self.field is not None:
                self.field = -self.field
            self.reversed = not self.reversed
        elif kind == "notation":
            self.notation = step[1]
        elif kind == "lattice":
            # rigid rotation and scaling of the lattice only, wave vectors are relative to it
            r = rotation_from(step[1], step[2]) * step[3]
            s["cell"] = (np.array(s["cell"]) @ r.T).tolist()
        elif kind == "rename":
            for n, a in enumerate(s["atoms"]):
                a["name"] = f"At{9 - n}"
        elif kind == "origin":
            for a in s["atoms"]:
                a["pos"] = [u + v for u, v in zip(a["pos"], step[1])]

    def evaluate(self):
        from magnopy import Energy, MagnonDispersion

        h = ref.build(self.spec)
        if self.notation is not None:
            h.notation = tuple(self.notation)
        e = Energy(h)
        if self.field is not None:
            e.magnetic_field = self.field
        rec = ref.reciprocal(self.spec["cell"])
        k = self.k
        md = MagnonDispersion(h)
        w = md.omega((-k if self.reversed else k) @ rec)
        w2 = md.omega((k if self.reversed else -k) @ rec)
        return {
            "ferro energy": num(e.ferro(self.dirs["ferro"]), "ferro energy"),
            "antiferro energy": num(e.antiferro(self.dirs["antiferro"], self.axis, self.qa @ rec), "antiferro energy"),
            "spiral energy": num(e.spiral(self.dirs["spiral"], self.axis, self.q @ rec), "spiral energy"),
            "spectrum": arr(w, (len(self.spec["atoms"]),), "spectrum"),
            "spectrum at -k": arr(w2, (len(self.spec["atoms"]),), "spectrum"),
        }


def run(case, ctx):
    spec = prepare(case)
    a = State(spec, case)
    before = a.evaluate()
    for step in case["steps"]:
        a.apply(step)
        ctx.label(step[0])
    after = a.evaluate()
    scale = ref.scale_of(spec)
    if case["field"] is not None:
        scale += sum(abs(x) for x in case["field"]) * sum(x * abs(t["g"]) for x, t in zip(ref.spins_of(spec), spec["atoms"])) * 1e-3
    what = " + ".join(s[0] for s in case["steps"])
    for key in before:
        tol = 1e-9 if "energy" in key else 1e-6
        close(
            np.array(after[key]) / a.factor,
            np.array(before[key]),
            f"{key} after {what}",
            tol,
            scale,
        )
    ctx.label("field" if case["field"] is not None else "no field")


# ------------------------------------------------------------------ standardization of the cell
@st.composite
def standard(draw):
    spec = draw(
        gen.model(min_atoms=1, max_atoms=3, min_bonds=1, max_bonds=5, vectors=True, wide=True, cells=("tet", "orc", "hex", "cubic"))
    )
    n = len(gen.magnetic_ids(spec))
    return {
        "model": spec,
        "kind": "positive",
        "gap": 1.0,
        # another basis of the same lattice
        "basis": draw(st.sampled_from([[0, 1, 2], [1, 0, 2], [2, 1, 0], [1, 2, 0], [2, 0, 1], [0, 2, 1]])),
        "dirs": draw(gen.directions(n)),
        "axis": draw(gen.unit_like()),
        "q": draw(gen.vec(gen.real(-1, 1, 16))),
        "k": draw(gen.vec(gen.real(-1, 1, 16))),
        "first": draw(st.booleans()),
    }


PRIMITIVE = {
    "FCC": [[0, 1, 1], [1, 0, 1], [1, 1, 0]],
    "BCC": [[-1, 1, 1], [1, -1, 1], [1, 1, -1]],
    "BCT": [[-1, 1, 1.5], [1, -1, 1.5], [1, 1, -1.5]],
    "ORCI": [[-1, 1.25, 1.5], [1, -1.25, 1.5], [1, 1.25, -1.5]],
    "ORCF": [[0, 1.25, 1.5], [1, 0, 1.5], [1, 1.25, 0]],
    "ORCC": [[1, -1.25, 0], [1, 1.25, 0], [0, 0, 3]],
    "RHL": [[1, 0.25, 0.25], [0.25, 1, 0.25], [0.25, 0.25, 1]],
    "MCL": [[2, 0, 0], [0, 2.5, 0], [0, 0.75, 3]],
    "MCLC": [[1, 1.25, 0], [-1, 1.25, 0], [0, 0.75, 3]],
    "TRI": [[2, 0.25, 0.5], [0, 2.5, -0.25], [0, 0, 3]],
    "any": None,
}


@st.composite
def any_standard(draw):
    """All Bravais lattices, given by any basis."""
    case = draw(standard())
    kind = draw(st.sampled_from(sorted(PRIMITIVE) + ["any"]))
    if PRIMITIVE[kind] is not None:
        cell = np.array(PRIMITIVE[kind], dtype=float) * draw(gen.grid(1, 3, 8))
    else:
        cell = np.array(draw(gen.cell()))
    basis = np.eye(3, dtype=int)
    for i, j, n in draw(st.lists(st.tuples(st.integers(0, 2), st.integers(0, 2), st.sampled_from([-1, 1])), max_size=3)):
        if i != j:
            basis[i] += n * basis[j]
    case["model"] = dict(case["model"], cell=(basis @ cell).tolist())
    case["lattice"] = kind
    return case


def run_standard(case, ctx):
    from magnopy import Energy, MagnonDispersion
    from wulfric.exceptions import StandardizationTypeMismatch

    spec = prepare(case)
    spec["cell"] = np.array(spec["cell"])[case["basis"]].tolist()
    h = ref.build(spec, notation_first=case["first"])
    q, k = np.array(case["q"]), np.array(case["k"])

    def values():
        e = Energy(h)
        return {
            "ferro": num(e.ferro(case["dirs"]), "energy"),
            "spiral": num(e.spiral(case["dirs"], case["axis"], q), "energy"),
            "magnons": arr(MagnonDispersion(h).omega(k), None, "spectrum"),
        }

    before = values()
    cell = np.array(h.cell)
    sv = None if h.spiral_vector is None else np.array(h.spiral_vector) @ ref.reciprocal(cell)
    absolute = [np.array(a.position) @ cell for a in h.atoms]
    try:
        h.standardize()
    except StandardizationTypeMismatch:
        # wulfric is not able to find the standard cell
        ctx.label("not standardized")
        return
    if "lattice" in case:
        ctx.label(f"lattice {case['lattice']}")
    after = values()
    new = arr(h.cell, (3, 3), "cell")
    scale = ref.scale_of(spec)
    t = cell @ np.linalg.inv(new)
    close(t, np.rint(t), "old lattice vectors in the basis of the new cell", 1e-6)
    close(abs(np.linalg.det(t)), 1.0, "volume ratio", 1e-6)
    for key in before:
        # positions may have been moved only by lattice vectors of the same site
        close(after[key], before[key], f"{key} after standardize", 1e-6, scale)
    for a, x in zip(h.atoms, absolute):
        close(np.array(a.position) @ new, x, f"absolute position of {a.name}", 1e-6)
    if sv is not None:
        close(np.array(h.spiral_vector) @ ref.reciprocal(new), sv, "absolute spiral vector", 1e-6)
        ctx.label("spiral vector")
    if not np.allclose(t, np.eye(3)):
        ctx.label("cell changed")


SUBCHECKS = [
    SubCheck(
        "symmetry",
        cases(),
        run,
        quick=4000,
        thorough=50000,
        rule="model x up to four transformations (rotation of spins, matrices, axis and field; reordering; shifts by lattice vectors; bonds from the other end; scaling; reversal; notation; rotation and scaling of the lattice; renaming; origin); non-trivial: at least two transformations",
        nontrivial=lambda c: len(c["steps"]) > 1,
    ),
    SubCheck(
        "standardize",
        standard(),
        run_standard,
        quick=700,
        thorough=6000,
        rule="orthogonal and hexagonal lattices in a permuted basis, standardized; non-trivial: bond between cells",
        nontrivial=lambda c: any(b[2] != [0, 0, 0] for b in c["model"]["bonds"]),
    ),
    SubCheck(
        "standardize-any",
        any_standard(),
        run_standard,
        quick=120,
        thorough=3000,
        rule="all Bravais lattices in any basis, standardized; non-trivial: bond between cells",
        nontrivial=lambda c: any(b[2] != [0, 0, 0] for b in c["model"]["bonds"]),
    ),
]
ASSUMPTIONS = [
    "the quadratic form of magnons is made definite by on-site terms along the spins",
    "reversal of spins is combined with the reversal of the field and of the wave vector of magnons",
]
