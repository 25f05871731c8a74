"""An operation that is refused leaves objects and files as they were."""

import os
import tempfile

import h5py
import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.core import SubCheck, Violation, close, ensure, fail

PARTS = ref.NOTATION_PARTS


def refused(call, what):
    """The call raises an exception (which one is a matter of other properties)."""
    try:
        call()
    except Violation:
        raise
    except Exception:
        return
    fail(f"{what} is not refused")


# ---------------------------------------------------------------- Hamiltonians
BAD_IJK = [(1, 2), (), (1, 2, 3, 4), 5, None]
BAD_MATRIX = [
    [[1, 0], [0, 1]],
    [1.0, 2.0, 3.0],
    "abc",
    [[1, 0, 0], [0, 1, 0]],
    [[1, 0, 0], [0, 1, 0], [0, 0, "x"]],
    5.0,
    [],
    np.zeros((3, 3, 3)),
]
BAD_KW = [
    {"dmi": [1.0, 2.0]},
    {"dmi": "abc"},
    {"aniso": [1.0, 2.0, 3.0]},
    {"iso": "abc"},
    {"iso": 1.0, "dmi": [[1, 2, 3]]},
    {"unknown": 3},
    {"matrix": np.eye(3), "dmi": 5.0},
    {"matrix": np.eye(3), "jxx": 5.0},
]
BAD_NOTATION = [
    "abc",
    "",
    "spin w",
    5,
    None,
    (True, True),
    (),
    (True, True, 1.0, 1.0, 1.0),
    (True, False, "x", 1.0),
    (False, True, 1.0, "x"),
    (False, False, 1.0, None),
    (True, True, "x"),
    (False, True, [1.0, 2.0], 3.0),
    (np.array([1, 0]), True, 0.5, 2.0),
    (False, np.array([1, 0]), 0.5, 2.0),
    (True, False, 1j, 2.0),
]
BAD_FACTOR = ["abc", None, [1.0, 2.0], 1j, {}, (), np.array([1.0, 2.0])]
BAD_BOOL = [np.array([1, 0]), np.array([True, True, False])]
BAD_VECTOR = [[1.0, 2.0], [1.0, 2.0, 3.0, 4.0], "abc", None, 5.0, [[1.0, 0.0, 0.0]], [1.0, "x", 2.0], {}, [], np.eye(3)]
BAD_KEY = [5, None, 1.5, ("At1", "At2"), (), ("a", "b", (0, 0, 1), 5), [], ("a",)]

INDEX = st.integers(0, 60)
BAD = st.tuples(
    st.sampled_from(
        "ijk ijk-new matrix matrix-new value value-new site-value set-value kw name site-matrix site-kw site-new site-name key-set key-del key-get "
        "absent absent-site absent-atom del-absent notation exchange_factor on_site_factor bool axis zero-axis spiral "
        "filter filter filter filtered no-notation notation element element element".split()
    ),
    INDEX,
    INDEX,
    gen.vec(gen.RCOMP),
).map(list)
GOOD = st.one_of(
    st.tuples(st.just("add"), INDEX, INDEX, gen.vec(gen.RCOMP), gen.matrix()),
    st.tuples(st.just("site"), INDEX, INDEX, gen.vec(gen.RCOMP), gen.matrix()),
    st.tuples(st.just("remove"), INDEX, INDEX, gen.vec(gen.RCOMP)),
    st.tuples(st.just("notation"), INDEX, INDEX, gen.notation4()),
    st.tuples(st.just("part"), st.integers(0, 3), INDEX, gen.notation4()),
    st.tuples(st.just("vectors"), INDEX, INDEX, gen.unit_like()),
    st.tuples(st.just("atom"), INDEX, INDEX, gen.vec(gen.grid(-1, 1, 16))),
).map(list)


@st.composite
def object_cases(draw):
    spec = draw(gen.model(min_atoms=1, max_atoms=4, min_bonds=0, max_bonds=5, vectors=True, wide=True))
    return {
        "model": spec,
        # which parts of the notation are defined in the beginning
        "defined": draw(st.one_of(st.just([True] * 4), st.lists(st.booleans(), min_size=4, max_size=4))),
        "steps": draw(st.lists(st.one_of(BAD, BAD, GOOD), min_size=1, max_size=9)),
    }


def start(case):
    spec = dict(case["model"])
    notation = spec["notation"]
    spec["notation"] = None
    h = ref.build(spec)
    if all(case["defined"]):
        h.notation = tuple(notation)
    else:
        for name, value, given in zip(PARTS, notation, case["defined"]):
            if given:
                setattr(h, name, value)
    return h


def apply_good(h, step):
    kind, k, l, v = step[:4]
    names = [a.name for a in h.atoms]
    n = len(names)
    if kind == "add":
        i, j, r = k % n, l % n, tuple(v)
        if i == j and r == (0, 0, 0):
            r = (0, 0, 1)
        h.add_exchange(names[i], names[j], r, matrix=step[4])
    elif kind == "site":
        h.add_on_site(names[k % n], matrix=step[4])
    elif kind == "remove":
        bonds = [b[:3] for b in h.exchange]
        if bonds:
            h.remove_exchange(*bonds[k % len(bonds)])
    elif kind == "notation":
        h.notation = tuple(v)
    elif kind == "part":
        setattr(h, PARTS[k], v[k])
    elif kind == "vectors":
        h.cone_axis = v
        h.spiral_vector = v
    elif kind == "atom":
        if n < 6:
            h.add_atom(name=f"Xx{n}q{l}" if f"Xx{n}q{l}" not in names else f"Yy{n}q{k}", position=v, spin=[0, 0, 1.5])


class Refuse(Exception):
    pass


def apply_bad(h, step):
    """Returns the call that has to be refused, or None if the step does not apply."""
    from magnopy import Energy, MagnonDispersion
    from wulfric import Atom

    kind, k, l, v = step
    names = [a.name for a in h.atoms]
    n = len(names)
    a, b, r = names[k % n], names[l % n], tuple(v)
    pick = lambda options: options[(k + l) % len(options)]
    new = Atom("Zz7", position=[0.25, 0.5, 0.125], spin=[0, 0, 2])
    present = {(x.name, y.name, tuple(q)) for x, y, q, _ in h.exchange}
    sites = {x.name for x, _ in h.on_site}
    if kind == "ijk":
        return lambda: h.add_exchange(a, b, pick(BAD_IJK), matrix=np.eye(3))
    if kind == "ijk-new":
        pair = (new, h.atoms[k % n]) if l % 2 else (h.atoms[k % n], new)
        return lambda: h.add_exchange(*pair, pick(BAD_IJK), matrix=np.eye(3))
    if kind == "matrix":
        return lambda: h.add_exchange(a, b, r, matrix=pick(BAD_MATRIX))
    if kind == "matrix-new":
        pair = (new, h.atoms[k % n]) if l % 2 else (h.atoms[k % n], new)
        return lambda: h.add_exchange(*pair, r, matrix=pick(BAD_MATRIX))
    # not a parameter and not a matrix
    if kind == "value":
        return lambda: h.add_exchange(a, b, r, pick(BAD_MATRIX))
    if kind == "value-new":
        return lambda: h.add_exchange(new, h.atoms[k % n], r, pick(BAD_MATRIX))
    if kind == "site-value":
        return lambda: h.add_on_site(a if l % 2 else new, pick(BAD_MATRIX))
    if kind == "set-value":
        return lambda: h.__setitem__((a, b, r) if l % 2 else a, pick(BAD_MATRIX))
    if kind == "kw":
        return lambda: h.add_exchange(a, b, r, **pick(BAD_KW))
    if kind == "name":
        pair = [(a, "Zz9"), ("Zz9", a), ("Zz9", "Zz9"), (new, "Zz9"), ("Zz9", new)][l % 5]
        return lambda: h.add_exchange(*pair, r, matrix=np.eye(3))
    if kind == "site-matrix":
        return lambda: h.add_on_site(a, matrix=pick(BAD_MATRIX))
    if kind == "site-kw":
        return lambda: h.add_on_site(a, **pick(BAD_KW))
    if kind == "site-new":
        return lambda: h.add_on_site(new, **([{"matrix": m} for m in BAD_MATRIX] + BAD_KW)[(k + l) % (len(BAD_MATRIX) + len(BAD_KW))])
    if kind == "site-name":
        return lambda: h.add_on_site("Zz9", matrix=np.eye(3))
    if kind in ("key-set", "key-del", "key-get"):
        from magnopy import MatrixParameter

        key = pick(BAD_KEY)
        if kind == "key-set":
            return lambda: h.__setitem__(key, MatrixParameter(matrix=np.eye(3)))
        if kind == "key-del":
            return lambda: h.__delitem__(key)
        return lambda: h[key]
    if kind in ("absent", "del-absent"):
        if (a, b, r) in present:
            return None
        if kind == "absent":
            return lambda: h.remove_exchange(a, b, r)
        return lambda: h.__delitem__((a, b, r))
    if kind == "absent-site":
        if a in sites:
            return None
        return (lambda: h.remove_on_site(a)) if l % 2 else (lambda: h.__delitem__(a))
    if kind == "absent-atom":
        if l % 3 == 0:
            return lambda: h.remove_atom("Zz9")
        if l % 3 == 1:
            return lambda: h.remove_exchange("Zz9", a, r)
        return lambda: h.remove_on_site("Zz9")
    if kind == "notation":
        return lambda: setattr(h, "notation", pick(BAD_NOTATION))
    if kind in ("exchange_factor", "on_site_factor"):
        return lambda: setattr(h, kind, pick(BAD_FACTOR))
    if kind == "bool":
        return lambda: setattr(h, ["double_counting", "spin_normalized"][k % 2], BAD_BOOL[l % 2])
    if kind == "axis":
        return lambda: setattr(h, "cone_axis", pick(BAD_VECTOR))
    if kind == "zero-axis":
        return lambda: setattr(h, "cone_axis", [0.0, 0.0, 0.0])
    if kind == "spiral":
        return lambda: setattr(h, "spiral_vector", pick(BAD_VECTOR))
    if kind in ("filter", "filtered"):
        # the filter has to see only the parameters of acceptable distances
        near = [b for b in list(h.exchange) if h.get_distance(b[0], b[1], b[2]) < l - 1e-6]
        total = len(near) + (len(sites) if l > 0 else 0)
        if total == 0:
            return None
        # often only the last parameter is refused
        left = [total - 1 if l % 2 else k % total]

        def custom(parameter):
            if left[0] == 0:
                raise Refuse
            left[0] -= 1
            return left[0] % 2 == 0

        return lambda: getattr(h, kind)(custom_filter=custom, max_distance=float(l))
    if kind == "no-notation":
        undefined = [p for p in PARTS if ref.notation_part(h, p) is None]
        if not undefined:
            return None
        if k % 3 == 0:
            return lambda: getattr(h, undefined[l % len(undefined)])
        if k % 3 == 1:
            return lambda: h.notation
        if not set(undefined) & needed(h):
            return None
        return (lambda: Energy(h)) if l % 2 else (lambda: MagnonDispersion(h))
    if kind == "element":
        if not present:
            return None
        p = list(h.exchange)[k % len(present)][3]
        return [
            lambda: setattr(p, "matrix", BAD_MATRIX[k % len(BAD_MATRIX)]),
            lambda: setattr(p, "dmi", [1.0, 2.0]),
            lambda: setattr(p, "dmi", "abc"),
            lambda: setattr(p, "aniso", [1.0, 2.0, 3.0]),
            lambda: setattr(p, "iso", "abc"),
            lambda: setattr(p, "iso", None),
            lambda: setattr(p, "iso", [1.0, 2.0, 3.0]),
            lambda: setattr(p, "xy", "abc"),
            lambda: setattr(p, "zz", [1, 2]),
            lambda: setattr(p, "yx", None),
            lambda: p @ np.eye(4),
            lambda: p + "abc",
            lambda: p * "abc",
            lambda: p / None,
        ][l % 14]
    raise ValueError(kind)


def run_objects(case, ctx):
    h, twin = start(case), start(case)
    for k, step in enumerate(case["steps"]):
        if step[0] in ("add", "site", "remove", "part", "vectors", "atom") or (step[0] == "notation" and isinstance(step[3][0], bool)):
            apply_good(h, step)
            apply_good(twin, step)
            continue
        call = apply_bad(h, step)
        if call is None:
            continue
        before = ref.snapshot(h)
        what = f"step {k}: {step}"
        refused(call, what)
        ref.same_snapshot(before, ref.snapshot(h), what)
        ctx.label(f"refused {step[0]}")
    # nothing hidden remains: both behave the same from now on
    ref.same_snapshot(ref.snapshot(twin), ref.snapshot(h), "Hamiltonian on which only the accepted operations were done")
    for step in (["notation", 0, 0, [True, False, 1.0, 2.0]], ["notation", 0, 0, [False, True, -0.5, 1.0]]):
        apply_good(h, step)
        apply_good(twin, step)
        ref.same_snapshot(ref.snapshot(twin), ref.snapshot(h), f"with {step[3]}, Hamiltonian on which only the accepted operations were done")
    ensure([a.name for a in h.magnetic_atoms] == [a.name for a in twin.magnetic_atoms], "magnetic atoms differ from those of the twin")


# ---------------------------------------------------------------- files
TEXTS = ["", "some text\n", "Cell\n1 0 0\n0 1 0\n", "# comment only\n", "\x00\x01binary\n"]
FILES = ["a.hdf5", "b.hdf5", "c.txt", "d.txt", "v.UCF", "v.mat", "input", "hist"]
STEP = st.one_of(
    st.tuples(st.just("hdf5"), st.sampled_from(["a.hdf5", "b.hdf5", "n.hdf5", "c.txt", "no/n.hdf5"]), st.sampled_from(["g", "other", "x/y", "spinham"]), st.booleans(), INDEX),
    st.tuples(st.just("hdf5"), st.sampled_from(["a.hdf5", "b.hdf5"]), st.sampled_from(["g", "other"]), st.booleans(), INDEX),
    st.tuples(st.just("txt"), st.sampled_from(["c.txt", "d.txt", "n.txt", "a.hdf5", "no/n.txt"]), st.just(""), st.booleans(), INDEX),
    st.tuples(st.just("vampire"), st.sampled_from(["v", "w", "no/v"]), st.sampled_from(["", "short", "mask", "mask late"]), st.booleans(), INDEX),
    st.tuples(st.just("ucf"), st.sampled_from(["v.UCF", "c.txt", "n.UCF"]), st.sampled_from(["", "short", "mask", "mask late"]), st.booleans(), INDEX),
    st.tuples(st.just("mat"), st.sampled_from(["v.mat", "c.txt", "n.mat"]), st.sampled_from(["", "short"]), st.booleans(), INDEX),
    st.tuples(st.just("load"), st.sampled_from(["c.txt", "d.txt", "a.hdf5", "b.hdf5", "none.txt", "none.hdf5", "hist", "c.txt as hdf5", "a.hdf5 as txt", "c.txt as tb2j", "c.txt as odd"]), st.sampled_from(["", "missing group"]), st.booleans(), INDEX),
    st.tuples(st.just("optimize"), st.sampled_from(["hist", "c.txt", "newhist"]), st.sampled_from(["case", "guess", "tolerance", "iterations", "step", "limit"]), st.booleans(), INDEX),
).map(list)


@st.composite
def file_cases(draw):
    models = [draw(gen.model(min_atoms=1, max_atoms=3, min_bonds=0, max_bonds=4, vectors=True, charge=True)) for _ in range(2)]
    return {
        "models": models,
        "defined": draw(st.lists(st.one_of(st.just([True] * 4), st.lists(st.booleans(), min_size=4, max_size=4)), min_size=2, max_size=2)),
        "texts": draw(st.lists(st.sampled_from(range(len(TEXTS))), min_size=5, max_size=5)),
        "old": draw(st.lists(st.sampled_from(["a.hdf5 g", "a.hdf5 other", "a.hdf5 x/y", "b.hdf5 g"]), unique=True, max_size=4)),
        "steps": draw(st.lists(STEP, min_size=1, max_size=6)),
    }


def tree(path):
    """Content of the hdf5 file; None for other files."""
    if not h5py.is_hdf5(path):
        return None
    out = {}

    def attrs(x):
        return sorted((k, str(v)) for k, v in x.attrs.items())

    with h5py.File(path, "r") as f:
        out["/"] = attrs(f)

        def visit(name, x):
            value = None
            if isinstance(x, h5py.Dataset):
                v = x[()]
                value = v.tolist() if isinstance(v, np.ndarray) else str(v)
            out[name] = (value, attrs(x))

        f.visititems(visit)
    return out


def listing(d):
    """Content of every file, and the folders."""
    out = {}
    for root, folders, files in os.walk(d):
        for name in folders:
            out[os.path.relpath(os.path.join(root, name), d) + "/"] = True
        for name in files:
            path = os.path.join(root, name)
            key = os.path.relpath(path, d)
            t = tree(path)
            if t is None:
                with open(path, "rb") as f:
                    t = f.read()
            out[key] = t
    return out


def same_listing(a, b, what, but=()):
    for key in sorted(set(a) | set(b)):
        if key in but:
            continue
        if key not in b:
            fail(f"{what}: {key} disappeared")
        if key not in a:
            fail(f"{what}: {key} was created")
        if a[key] != b[key]:
            if isinstance(a[key], dict) and isinstance(b[key], dict):
                diff = [k for k in sorted(set(a[key]) | set(b[key])) if a[key].get(k) != b[key].get(k)]
                fail(f"{what}: {key} changed: {diff[:6]}")
            fail(f"{what}: {key} changed from {a[key]!r:.300} to {b[key]!r:.300}")


def masks(kind):
    if kind == "mask":
        def mask(m):
            raise Refuse
        return mask
    if kind == "mask late":
        left = [1]

        def mask(m):
            left[0] -= 1
            if left[0] < 0:
                raise Refuse
            return m
        return mask
    return None


def run_files(case, ctx):
    from magnopy import Energy, dump_spinham_hdf5, dump_spinham_txt, load_spinham
    from magnopy.io.txt.vampire import dump_mat, dump_ucf, dump_vampire

    hs, specs = [], case["models"]
    for spec, defined in zip(specs, case["defined"]):
        hs.append(start({"model": spec, "defined": defined}))
    good = ref.build(specs[0])
    here = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            for name, t in zip(("c.txt", "d.txt", "v.UCF", "hist", "input"), case["texts"]):
                with open(name, "w", encoding="utf-8") as f:
                    f.write(TEXTS[t])
            for old in case["old"]:
                name, group = old.split()
                dump_spinham_hdf5(good, name, groupname=group)
            for k, step in enumerate(case["steps"]):
                _file_step(hs, step, f"step {k}: {step}", ctx, good, case)
        finally:
            os.chdir(here)


def needed(h):
    parts = set()
    if len(h.exchange) > 0:
        parts |= {"double_counting", "spin_normalized", "exchange_factor"}
    if len(h.on_site) > 0:
        parts |= {"spin_normalized", "on_site_factor"}
    return parts


def _file_step(hs, step, what, ctx, good, case):
    from magnopy import Energy, dump_spinham_hdf5, dump_spinham_txt, load_spinham
    from magnopy.io.txt.vampire import dump_mat, dump_ucf, dump_vampire

    kind, name, option, flag, index = step
    h = hs[index % 2]
    before, state = listing("."), ref.snapshot(h)
    undefined = {p for p in PARTS if ref.notation_part(h, p) is None}
    incomplete = bool(undefined & needed(h))
    folder = os.path.dirname(name)
    nowhere = bool(folder) and not os.path.isdir(folder)
    changed, ok = (), True
    if kind == "hdf5":
        call = lambda: dump_spinham_hdf5(h, name, groupname=option, overwrite=flag)
        t = before.get(name)
        ok = not incomplete and not nowhere
        if isinstance(t, bytes):
            # h5py takes the empty file as a new one
            if t == b"":
                return
            ok = False
        elif t is not None and option in t and not flag:
            ok = False
        changed = (name,)
    elif kind == "txt":
        call = lambda: dump_spinham_txt(h, name)
        ok = not incomplete and not nowhere
        changed = (name,)
    elif kind in ("vampire", "ucf", "mat"):
        n = len(h.magnetic_atoms)
        kw = {}
        if option == "short":
            if n < 1:
                return
            kw["materials"] = list(range(n - 1))
            # the number of materials is their maximum
            if n == 1:
                kw["materials"] = []
        # both members of every pair are written
        terms = len(h.exchange) * (1 if ref.notation_part(h, "double_counting") else 2) + len(h.on_site)
        if option.startswith("mask"):
            kw["custom_mask"] = masks(option)
        fails = bool(option == "short" or (option == "mask" and terms >= 1) or (option == "mask late" and terms >= 2))
        if kind == "mat":
            call = lambda: dump_mat(h, filename=name, **kw)
            ok = not fails
        else:
            ok = not fails and not undefined and not nowhere
            if kind == "ucf":
                call = lambda: dump_ucf(h, filename=name, **kw)
            else:
                call = lambda: dump_vampire(h, seedname=name, **kw)
        changed = (name,) if kind != "vampire" else (name + ".UCF", name + ".mat", "input")
    elif kind == "load":
        name, _, fmt = name.partition(" as ")
        kw = {"spinham_format": fmt} if fmt else {}
        if option:
            if not (fmt or "txt") == "hdf5" and not name.endswith(".hdf5") or fmt == "txt":
                return
            kw["groupname"] = "missing"
        call = lambda: load_spinham(name, **kw)
        # whether it can be read is a matter of other properties
        try:
            call()
            ctx.label("loaded")
        except Violation:
            raise
        except Exception:
            ctx.label("refused load")
        same_listing(before, listing("."), what)
        return
    elif kind == "optimize":
        if undefined or not needed(h):
            return
        e = Energy(h)
        n = len(h.magnetic_atoms)
        dirs = np.tile([0.0, 0.6, 0.8], (n, 1))
        kw = dict(save_history=True, history_filename=name, max_iterations=2)
        call = {
            "case": lambda: e.optimize("fm", initial_guess=dirs, **kw),
            "guess": lambda: e.optimize("ferro", initial_guess=np.ones((n + 1, 3)), **kw),
            "tolerance": lambda: e.optimize("ferro", initial_guess=dirs, tolerance=(1e-5,) * 5, **kw),
            "limit": lambda: e.optimize("ferro", initial_guess=dirs, tolerance=(1e-5, None), **kw),
            "iterations": lambda: e.optimize("ferro", initial_guess=dirs, **dict(kw, max_iterations="many")),
            "step": lambda: e.optimize("ferro", initial_guess=dirs, **dict(kw, history_step=[0, None, "x"][index % 3])),
        }[option]
        ok = False
    if ok:
        call()
        after = listing(".")
        same_listing(before, after, what, but=changed)
        for f in changed:
            ensure(f in after, f"{what}: {f} was not written")
        if kind == "hdf5":
            t, u = before.get(name) or {}, after[name]
            inside = lambda p: (p + "/").startswith(option + "/") or (option + "/").startswith(p + "/") or p == "/"
            for p in set(t) | set(u):
                if not inside(p):
                    ensure(t.get(p) == u.get(p), f"{what}: {p} of the file has changed")
            back = load_spinham(name, spinham_format="hdf5", groupname=option)
            want, got = (sorted(ref.snapshot(x)["exchange"]) for x in (h, back))
            ensure(want == got, f"{what}: exchange loaded again is {str(got)[:400]} instead of {str(want)[:400]}")
        ctx.label(f"accepted {kind}")
    else:
        refused(call, what)
        same_listing(before, listing("."), what)
        ctx.label(f"refused {kind}")
    ref.same_snapshot(state, ref.snapshot(h), f"{what}: Hamiltonian")


SUBCHECKS = [
    SubCheck(
        "objects",
        object_cases(),
        run_objects,
        quick=5000,
        thorough=120000,
        rule="histories of accepted and refused operations on a Hamiltonian, compared with a twin that never saw the refused ones; non-trivial: both kinds",
        nontrivial=lambda c: len(c["steps"]) > 1 and bool(c["model"]["bonds"]),
    ),
    SubCheck(
        "files",
        file_cases(),
        run_files,
        quick=700,
        thorough=15000,
        rule="histories of accepted and refused readings and writings in a folder with existing files; non-trivial: some Hamiltonian is incomplete or some file existed",
        nontrivial=lambda c: bool(c["old"]) or not all(map(all, c["defined"])),
    ),
]
ASSUMPTIONS = [
    "the factor zero and values that are not parameters (item assignment) are not tried",
    "bonds with lists as the cell index are not tried",
    "materials of Vampire that are not integers are not tried",
]
