"""Histories that mix editing, notation, copies, filters and files, against the physics of the model.

The model keeps the energy of unit vectors (one tensor per pair of sites and per site), so that it does
not know any notation; matrices given to magnopy are translated with the notation of the moment."""

import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.core import SubCheck, arr, close, ensure, fail, raises
from vlib.props.p03 import NAME, PREDEFINED

NAMES = ["Fe1", "Fe2", "Cr", "Mn", "Ni", "Co", "Gd", "Tb"]
IDX = st.integers(0, 7)
R = gen.vec(st.integers(-1, 1))
K = st.integers(0, 11)

OP = st.one_of(
    st.tuples(st.just("add"), IDX, IDX, R, gen.matrix()),
    st.tuples(st.just("add"), IDX, IDX, R, gen.matrix()),
    st.tuples(st.just("add"), IDX, IDX, R, gen.matrix()),
    st.tuples(st.just("rewrite"), K, st.booleans(), gen.matrix()),
    st.tuples(st.just("remove"), K, st.booleans()),
    st.tuples(st.just("onsite"), IDX, gen.matrix()),
    st.tuples(st.just("onsite"), IDX, gen.matrix()),
    st.tuples(st.just("onsite-remove"), IDX),
    st.tuples(st.just("atom"), st.sampled_from(NAMES), gen.atom()),
    st.tuples(st.just("atom-remove"), IDX),
    st.tuples(st.just("spin"), IDX, gen.spin_vector()),
    st.tuples(st.just("cell"), gen.cell()),
    st.tuples(st.just("position"), IDX, gen.vec(gen.grid(-1, 1, 16)), st.booleans()),
    st.tuples(st.just("dc"), st.booleans()),
    st.tuples(st.just("dc"), st.booleans()),
    st.tuples(st.just("sn"), st.booleans()),
    st.tuples(st.just("fe"), gen.factor()),
    st.tuples(st.just("fo"), gen.factor()),
    st.tuples(st.just("name"), NAME),
    st.tuples(st.just("n4"), gen.notation4()),
    st.tuples(st.just("filter"), K),
    st.tuples(st.just("filter-distance"), K),
    st.tuples(st.just("copy"), st.sampled_from(["copy", "filtered", "deepcopy", "pickle"])),
    st.tuples(st.just("file")),
).map(list)

CASE = st.fixed_dictionaries(
    {
        "cell": gen.cell(),
        "atoms": st.lists(gen.atom(), min_size=1, max_size=3),
        "notation": gen.notation4(),
        "ops": st.lists(OP, min_size=4, max_size=16),
        "dirs": gen.directions(11),
        "axis": gen.unit_like(),
        "q": gen.vec(gen.grid(-1, 1, 8)),
    }
)


class Model:
    def __init__(self, case):
        self.cell = case["cell"]
        self.atoms = [dict(a, name=NAMES[k]) for k, a in enumerate(case["atoms"])]
        self.notation = list(case["notation"])
        self.pairs = {}  # (name1, name2, R), first end by pair() -> tensor
        self.sites = {}

    def names(self):
        return [a["name"] for a in self.atoms]

    def spin(self, name):
        a = self.atoms[self.names().index(name)]
        return float(np.linalg.norm(a["spin"]))

    def exchange_unit(self, a, b):
        dc, sn, fe, _ = self.notation
        return fe * (2 if dc else 1) * (1 if sn else self.spin(a) * self.spin(b))

    def onsite_unit(self, a):
        return self.notation[3] * (1 if self.notation[1] else self.spin(a) ** 2)

    def put(self, a, b, r, m):
        key, flipped = gen.pair_key(a, b, r)
        t = self.exchange_unit(a, b) * np.array(m, dtype=float)
        self.pairs[key] = t.T if flipped else t

    def set_spin(self, name, spin):
        old = {n: self.spin(n) for n in self.names()}
        self.atoms[self.names().index(name)]["spin"] = spin
        if self.notation[1]:
            return
        # numbers of the parameters stay
        ratio = self.spin(name) / old[name]
        for k in self.pairs:
            self.pairs[k] = self.pairs[k] * ratio ** ((k[0] == name) + (k[1] == name))
        if name in self.sites:
            self.sites[name] = self.sites[name] * ratio**2

    def item(self, h, key, matrix):
        """Every second assignment goes through the item syntax."""
        from magnopy import MatrixParameter

        self.turn = not getattr(self, "turn", False)
        if isinstance(key, str):
            if self.turn:
                h[h.get_atom(key)] = MatrixParameter(matrix)
            else:
                h.add_on_site(key, matrix=matrix)
            return
        a, b, r = key
        if self.turn:
            h[h.get_atom(a), h.get_atom(b), tuple(r)] = MatrixParameter(matrix)
        else:
            h.add_exchange(a, b, r, matrix=matrix)

    def spec(self):
        """The same model in the notation without any factors."""
        ids = self.names()
        bonds = [[ids.index(a), ids.index(b), list(r), t.tolist()] for (a, b, r), t in self.pairs.items()]
        onsite = [[ids.index(a), t.tolist()] for a, t in self.sites.items()]
        return {"cell": self.cell, "atoms": self.atoms, "bonds": bonds, "onsite": onsite, "notation": [False, True, 1.0, 1.0]}

    def length(self, key):
        a, b, r = key
        ids = self.names()
        d = np.array(r) + np.array(self.atoms[ids.index(b)]["pos"]) - np.array(self.atoms[ids.index(a)]["pos"])
        return float(np.linalg.norm(d @ np.array(self.cell)))


def listed(h):
    return {(a.name, b.name, tuple(int(x) for x in r)): arr(p.matrix, (3, 3)) for a, b, r, p in h.exchange}


def check(h, m, what):
    ref.check_notation(h, m.notation, what)
    ensure([a.name for a in h.atoms] == m.names(), f"{what}: atoms {[a.name for a in h.atoms]}, expected {m.names()}")
    got = listed(h)
    ensure(len(got) == len(h.exchange), f"{what}: a bond is listed twice")
    seen = {}
    for (a, b, r), matrix in got.items():
        key, flipped = gen.pair_key(a, b, r)
        t = m.exchange_unit(a, b) * (matrix.T if flipped else matrix)
        if key in seen:
            ensure(m.notation[0], f"{what}: {key} is listed from both ends without double counting")
            close(t, seen[key], f"{what}: the two ends of {key} differ", 1e-9)
        elif m.notation[0]:
            ensure(gen.mirror(a, b, r) in got, f"{what}: {key} has no mirrored bond under double counting")
        seen[key] = t
    ensure(set(seen) == set(m.pairs), f"{what}: pairs {sorted(seen)}, expected {sorted(m.pairs)}")
    for key, t in m.pairs.items():
        close(seen[key], t, f"{what}: tensor of {key}", 1e-8)
    sites = {a.name: m.onsite_unit(a.name) * arr(p.matrix, (3, 3)) for a, p in h.on_site}
    ensure(set(sites) == set(m.sites), f"{what}: sites {sorted(sites)}, expected {sorted(m.sites)}")
    for key, t in m.sites.items():
        close(sites[key], t, f"{what}: tensor of {key}", 1e-8)


def energies(h, m, case, what):
    from magnopy import Energy

    spec = m.spec()
    ids = gen.magnetic_ids(spec)
    # sorted by the index, atoms with the same index (after removals) as in the crystal
    atoms = list(h.atoms)
    order = sorted(ids, key=lambda k: (atoms[k].index, k))
    listed_atoms = [a.name for a in h.magnetic_atoms]
    ensure(listed_atoms == [m.names()[k] for k in order], f"{what}: magnetic atoms {listed_atoms}, expected {[m.names()[k] for k in order]}")
    if not ids:
        return
    given = np.array(case["dirs"][: len(ids)])
    dirs = np.array([given[order.index(k)] for k in ids])
    scale = ref.scale_of(spec)
    e = Energy(h)
    close(float(e.ferro(given.copy())), ref.ferro_energy(spec, dirs), f"{what}: ferro energy", 1e-8, scale)
    phases = [2 * np.pi * k / 8 for k in range(8)]
    q, axis = np.array(case["q"]), np.array(case["axis"])
    close(
        float(e.spiral(given.copy(), axis.copy(), q.copy())),
        ref.rotated_energy(spec, dirs, axis, q, phases), f"{what}: spiral energy", 1e-8, scale,
    )


def run(case, ctx):
    import copy
    import pickle

    from magnopy import SpinHamiltonian, dump_spinham_hdf5, load_spinham_hdf5

    m = Model(case)
    h = SpinHamiltonian(cell=np.array(m.cell))
    for a in m.atoms:
        h.add_atom(name=a["name"], position=a["pos"], spin=a["spin"], g_factor=a["g"], relative=True)
    h.notation = tuple(m.notation)
    check(h, m, "start")
    left = []
    for n, op in enumerate(case["ops"]):
        kind = op[0]
        what = f"step {n} {op}"
        na = len(m.atoms)
        names = m.names()
        if kind == "add":
            a, b, r = names[op[1] % na], names[op[2] % na], tuple(op[3])
            if a == b and r == (0, 0, 0):
                r = (0, 0, 1)
            if not m.notation[0] and gen.mirror(a, b, r) in listed(h):
                continue
            m.item(h, (a, b, r), op[4])
            m.put(a, b, r, op[4])
        elif kind in ("rewrite", "remove"):
            keys = sorted(listed(h))
            if not keys:
                continue
            a, b, r = keys[op[1] % len(keys)]
            if op[2] and m.notation[0]:
                a, b, r = gen.mirror(a, b, r)
            if kind == "rewrite":
                m.item(h, (a, b, r), op[3])
                m.put(a, b, r, op[3])
            else:
                h.remove_exchange(a, b, r)
                del m.pairs[gen.pair_key(a, b, r)[0]]
        elif kind == "onsite":
            a = names[op[1] % na]
            m.item(h, a, op[2])
            m.sites[a] = m.onsite_unit(a) * np.array(op[2], dtype=float)
        elif kind == "onsite-remove":
            a = names[op[1] % na]
            if a not in m.sites:
                raises(KeyError, lambda: h.remove_on_site(a), what)
            else:
                h.remove_on_site(a)
                del m.sites[a]
        elif kind == "atom":
            if op[1] in names:
                continue
            a = op[2]
            h.add_atom(name=op[1], position=a["pos"], spin=a["spin"], g_factor=a["g"], relative=True)
            m.atoms.append(dict(a, name=op[1]))
        elif kind == "atom-remove":
            if na == 1:
                continue
            a = names[op[1] % na]
            h.remove_atom(a)
            del m.atoms[op[1] % na]
            m.pairs = {k: t for k, t in m.pairs.items() if a not in k[:2]}
            m.sites.pop(a, None)
        elif kind == "spin":
            a = names[op[1] % na]
            h.get_atom(a).spin_vector = op[2]
            m.set_spin(a, op[2])
        elif kind == "cell":
            h.cell = np.array(op[1])
            m.cell = op[1]
        elif kind == "position":
            a = names[op[1] % na]
            if op[3]:
                h.get_atom(a).position = op[2]
            else:
                h.get_atom(a).position[...] = op[2]
            m.atoms[op[1] % na]["pos"] = op[2]
        elif kind == "filter":
            sizes = sorted({round(float(np.abs(p).max()), 6) for p in listed(h).values()} | {0.0})
            sizes.append(sizes[-1] + 1.0)
            k = op[1] % (len(sizes) - 1)
            if sizes[k + 1] - sizes[k] < 1e-4:
                continue
            c = (sizes[k] + sizes[k + 1]) / 2
            keep = {gen.pair_key(*key)[0] for key, p in listed(h).items() if np.abs(p).max() > c}
            here = {a.name for a, p in h.on_site if np.abs(p.matrix).max() > c}
            if any(abs(np.abs(p.matrix).max() - c) < 1e-5 for _, p in h.on_site):
                continue
            h.filter(custom_filter=lambda p: np.abs(p.matrix).max() > c)
            m.pairs = {k: t for k, t in m.pairs.items() if k in keep}
            m.sites = {k: t for k, t in m.sites.items() if k in here}
        elif kind == "filter-distance":
            sizes = sorted({m.length(k) for k in m.pairs})
            if not sizes:
                continue
            k = op[1] % len(sizes)
            top = sizes[k] + 1.0 if k == len(sizes) - 1 else (sizes[k] + sizes[k + 1]) / 2
            if top - sizes[k] < 1e-6:
                continue
            h.filter(max_distance=top)
            m.pairs = {k: t for k, t in m.pairs.items() if m.length(k) <= top}
        elif kind == "copy":
            # the history goes on with the copy, the original stays as it is
            left.append((h, ref.snapshot(h)))
            h = {
                "copy": lambda: h.copy(),
                "filtered": lambda: h.filtered(),
                "deepcopy": lambda: copy.deepcopy(h),
                "pickle": lambda: pickle.loads(pickle.dumps(h)),
            }[op[1]]()
        elif kind == "file":
            with tempfile.TemporaryDirectory() as d:
                path = os.path.join(d, "model.hdf5")
                dump_spinham_hdf5(h, path)
                left.append((h, ref.snapshot(h)))
                h = load_spinham_hdf5(path)
            h.notation = tuple(m.notation)
        else:
            old = list(m.notation)
            if kind == "dc":
                h.double_counting = op[1]
                m.notation[0] = op[1]
            elif kind == "sn":
                h.spin_normalized = op[1]
                m.notation[1] = op[1]
            elif kind == "fe":
                h.exchange_factor = op[1]
                m.notation[2] = op[1]
            elif kind == "fo":
                h.on_site_factor = op[1]
                m.notation[3] = op[1]
            elif kind == "name":
                h.notation = op[1]
                m.notation = list(PREDEFINED[op[1].lower()])
            else:
                h.notation = tuple(op[1])
                m.notation = list(op[1])
            ctx.label("notation changed" if old != m.notation else "notation kept")
        check(h, m, what)
        if n % 4 == 3:
            energies(h, m, case, what)
        ctx.label(kind)
    energies(h, m, case, "end")
    for k, (old, shot) in enumerate(left):
        ref.same_snapshot(shot, ref.snapshot(old), f"object left behind {k}")


SUBCHECKS = [
    SubCheck(
        "history",
        CASE,
        run,
        quick=4000,
        thorough=30000,
        rule="histories of 4-16 operations of 19 kinds (parameters, atoms, spins, positions, cells, notation, filters, copies, files); non-trivial: parameters are added and the notation is changed",
        nontrivial=lambda c: any(o[0] in ("add", "onsite") for o in c["ops"]) and any(o[0] in ("dc", "sn", "fe", "fo", "name", "n4") for o in c["ops"]),
    )
]
ASSUMPTIONS = ["without double counting a pair is not given from both ends", "names of atoms are unique", "spins are non-zero", "factors are non-zero"]
