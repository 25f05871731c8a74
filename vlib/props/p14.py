import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.core import SubCheck, arr, ensure, fail, raises

EXACT = dict(tol_cell=1e-13, tol_pos=1e-13, tol_spin=1e-13, tol_g=1e-13, tol_par=0.0, tol_par_rel=1e-14, tol_vec=1e-13)
GROUPS = ["spinham", "a", "b/c", "b/d/e", "Hamiltonian 2", "x.y", "b", "b/d"]


@st.composite
def models(draw, top=4, bonds=6, low=1):
    spec = draw(
        gen.model(min_atoms=low, max_atoms=top, min_bonds=0 if low == 1 else 4, max_bonds=bonds, zero_spin=True, charge=True, far=True, vectors=True)
    )
    if spec["notation"][1]:
        for a in spec["atoms"]:
            if not any(a["spin"]):
                a["spin"] = [0.0, 0.0, 1.0]
    f = draw(st.sampled_from([1.0, 1.0, 1 / 3, 1e-7, 1e6]))
    for b in spec["bonds"]:
        b[3] = (np.array(b[3]) * f).tolist()
    if draw(st.booleans()):
        spec["notation"][2] = draw(gen.real(0.125, 4))
        spec["notation"][3] = draw(gen.real(0.125, 4))
    return spec


def expected_of(spec):
    """What has to come back, from the data alone."""
    return ref.storable(spec)


@st.composite
def single(draw):
    big = draw(st.integers(0, 3)) == 0
    return {
        "model": draw(models(top=12, bonds=14, low=10) if big else models()),
        "first": draw(st.booleans()),
        "group": draw(st.one_of(st.none(), st.sampled_from(GROUPS))),
        "by_name": draw(st.booleans()),
    }


def run_single(case, ctx):
    from magnopy import dump_spinham_hdf5, load_spinham_hdf5

    h = ref.build(case["model"], notation_first=case["first"])
    expected = expected_of(case["model"])
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "model.hdf5")
        kw = {} if case["group"] is None else {"groupname": case["group"]}
        dump_spinham_hdf5(h, path, **kw)
        back = load_spinham_hdf5(path, **({"groupname": case["group"] or "spinham"} if case["by_name"] else {}))
        ref.compare_model(back, expected, "after the reading", default_charge=None, **EXACT)
        # the second generation is the same again
        path2 = os.path.join(d, "again.hdf5")
        dump_spinham_hdf5(back, path2)
        ref.compare_model(load_spinham_hdf5(path2), expected, "after the second reading", default_charge=None, **EXACT)
    if len(case["model"]["atoms"]) > 9:
        ctx.label("ten or more atoms")
    if len(case["model"]["bonds"]) * (2 if case["model"]["notation"][0] else 1) > 9:
        ctx.label("ten or more bonds")
    ctx.label("double counting" if case["model"]["notation"][0] else "no double counting")


# ------------------------------------------------------------------ histories of one file
STEP = st.one_of(
    st.tuples(st.just("dump"), st.integers(0, 2), st.sampled_from(GROUPS), st.booleans()),
    st.tuples(st.just("dump"), st.integers(0, 2), st.sampled_from(GROUPS), st.booleans()),
    st.tuples(st.just("load"), st.sampled_from(GROUPS)),
    st.tuples(st.just("load any")),
    st.tuples(st.just("delete"), st.sampled_from(GROUPS)),
    st.tuples(st.just("foreign"), st.sampled_from(["none", "string", "number", "dataset", "other case"])),
).map(list)


@st.composite
def histories(draw):
    return {
        "models": draw(st.lists(models(top=3, bonds=3), min_size=3, max_size=3)),
        "steps": draw(st.lists(STEP, min_size=1, max_size=9)),
    }


def run_history(case, ctx):
    import h5py

    from magnopy import dump_spinham_hdf5, load_spinham_hdf5

    hs = [ref.build(m) for m in case["models"]]
    state = {}
    paths = set()  # every group of the file, with the parents

    def inside(group):
        return {p for p in paths if p == group or p.startswith(group + "/")}

    def forget(group):
        for p in inside(group):
            paths.discard(p)
            state.pop(p, None)

    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "model.hdf5")

        def check(group):
            ref.compare_model(
                load_spinham_hdf5(path, groupname=group), expected_of(case["models"][state[group]]), f"group {group}",
                default_charge=None, **EXACT
            )

        for n, step in enumerate(case["steps"]):
            kind = step[0]
            if kind == "dump":
                _, m, group, overwrite = step
                if group in paths and not overwrite:
                    raises(
                        FileExistsError,
                        lambda: dump_spinham_hdf5(hs[m], path, groupname=group, overwrite=False),
                        f"dump in the existing group {group}",
                    )
                    ctx.label("refused" if group in state else "refused: parent of other groups")
                else:
                    ctx.label("replaced" if group in paths else "new group")
                    dump_spinham_hdf5(hs[m], path, groupname=group, overwrite=overwrite)
                    if group in paths:
                        forget(group)
                    parts = group.split("/")
                    paths |= {"/".join(parts[:k]) for k in range(1, len(parts) + 1)}
                    state[group] = m
                    if len(inside(group)) > 1 or any("/".join(parts[:k]) in state for k in range(1, len(parts))):
                        ctx.label("Hamiltonian inside another one")
            elif kind == "load":
                if step[1] in state:
                    check(step[1])
                elif os.path.exists(path) and step[1] not in paths:
                    raises(KeyError, lambda: load_spinham_hdf5(path, groupname=step[1]), f"absent group {step[1]}")
            elif kind == "load any" and os.path.exists(path):
                if len(state) == 1:
                    (g,) = state
                    ref.compare_model(
                        load_spinham_hdf5(path), expected_of(case["models"][state[g]]), "the only group",
                        default_charge=None, **EXACT
                    )
                    ctx.label("only one")
                else:
                    raises(RuntimeError, lambda: load_spinham_hdf5(path), f"load without the name, {len(state)} Hamiltonians")
                    ctx.label("none" if not state else "several")
            elif kind == "delete" and step[1] in state:
                with h5py.File(path, "a") as f:
                    del f[step[1]]
                forget(step[1])
            elif kind == "foreign":
                # other content of the file; also shows that the file is not left open
                with h5py.File(path, "a") as f:
                    name = f"foreign{n}"
                    if step[1] == "dataset":
                        f.create_dataset(name, data=[1.0, 2.0])
                        f[name].attrs["type"] = "Other"
                    else:
                        g = f.create_group(name)
                        g.create_dataset("cell", data=[1, 2, 3])
                        if step[1] == "string":
                            g.attrs["type"] = "NotSpinHamiltonian"
                        elif step[1] == "number":
                            g.attrs["type"] = 7
                        elif step[1] == "other case":
                            g.attrs["Type"] = "SpinHamiltonian"
        if os.path.exists(path):
            for g in state:
                check(g)


SUBCHECKS = [
    SubCheck(
        "round-trip",
        single(),
        run_single,
        quick=2500,
        thorough=25000,
        rule="model (up to 12 atoms and 28 listed bonds) x group name; non-trivial: has bonds",
        nontrivial=lambda c: bool(c["model"]["bonds"]),
    ),
    SubCheck(
        "history",
        histories(),
        run_history,
        quick=1200,
        thorough=12000,
        rule="histories of dumps (with and without overwrite), loads (by name and without), deletions and foreign groups in one file; non-trivial: at least two dumps",
        nontrivial=lambda c: sum(s[0] == "dump" for s in c["steps"]) > 1,
    ),
]
ASSUMPTIONS = ["a group that only holds other groups is not loaded", "spins are defined"]
