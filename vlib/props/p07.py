import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.core import SubCheck, arr, close, ensure, num

FIELD = st.one_of(st.none(), gen.vec(gen.real(-20, 20)))


@st.composite
def cases(draw):
    spec = draw(gen.model(min_atoms=1, max_atoms=4, min_bonds=0, max_bonds=6, far=True, wide=True))
    if not gen.magnetic_ids(spec):
        spec["onsite"] = [[0, draw(gen.matrix())]]
    n = len(gen.magnetic_ids(spec))
    return {
        "model": spec,
        "dirs": draw(gen.directions(n)),
        "scales": draw(st.lists(st.sampled_from([1.0, 0.5, 3.0, 10.0, 0.01]), min_size=n, max_size=n)),
        "field": draw(FIELD),
        "field2": draw(FIELD),
        "g": draw(st.one_of(st.none(), st.lists(st.one_of(gen.grid(0.5, 4, 8), gen.grid(-4, 4, 8)), min_size=n, max_size=n))),
        "s": draw(st.one_of(st.none(), st.none(), st.lists(gen.grid(0.5, 4, 8), min_size=n, max_size=n))),
        "first": draw(st.booleans()),
        "change": draw(st.one_of(st.none(), gen.notation4())),
        "later": draw(st.integers(0, 5)),
        "bare": draw(st.booleans()),
        "flip_sign": draw(st.booleans()),
    }


def run(case, ctx):
    from magnopy import Energy

    spec = case["model"]
    h = ref.build(spec, notation_first=case["first"])
    if case["change"] is not None:
        h.notation = tuple(case["change"])
        ctx.label("notation changed")
    e = Energy(h)
    ids = gen.magnetic_ids(spec)
    s = ref.spins_of(spec)
    scale = ref.scale_of(spec)
    close(list(e.spins), [s[k] for k in ids], "spins", 1e-12)
    close(list(e.g_factors), [spec["atoms"][k]["g"] for k in ids], "g factors", 1e-12)
    ensure(e.magnetic_field is None, "magnetic field is defined from the start")

    dirs = np.array(case["dirs"], dtype=float) * np.array(case["scales"])[:, None]
    given = dirs.copy()
    arg = given if not (case["bare"] and len(ids) == 1) else given[0]
    expected = ref.ferro_energy(spec, case["dirs"])
    close(num(e.ferro(arg), "energy"), expected, "energy without field", 1e-10, scale)
    ensure((given == dirs).all(), "directions given by the user were modified")
    close(num(e.ferro(dirs.tolist()), "energy"), expected, "energy (list)", 1e-10, scale)
    if case["bare"] and len(ids) == 1:
        ctx.label("bare vector")

    # independent from later changes of the Hamiltonian
    later = case["later"]
    if later == 1:
        h.notation = "SpinW" if not case["model"]["notation"][1] else "magnopy"
    elif later == 2:
        for a, b, r, p in h.exchange:
            p.matrix *= 2.0
        for a, p in h.on_site:
            p.matrix *= 3.0
    elif later == 3:
        for a in h.atoms:
            a.spin_vector = (0.1, 0.2, 5.0)
            a.g_factor = 7.0
    elif later == 4:
        h.cell = np.array(h.cell) * 2
        h.remove_atom(h.magnetic_atoms[0])
    elif later == 5:
        h.exchange_factor = -3.0
        h.on_site_factor = 5.0
    close(num(e.ferro(dirs), "energy"), expected, f"energy after later changes of the Hamiltonian ({later})", 1e-10, scale)

    field = case["field"]
    if field is not None:
        f = np.array(field)
        e.magnetic_field = f
        fscale = scale + 1e-3 * np.abs(f).max() * sum(s[k] * abs(spec["atoms"][k]["g"]) for k in ids)
        f += 3.0
        expected = ref.ferro_energy(spec, case["dirs"], field)
        close(num(e.ferro(dirs), "energy"), expected, "energy in the field", 1e-10, fscale)
        close(e.magnetic_field, np.array(field), "field", 1e-12)
        if case["g"] is not None:
            spec2 = ref.deep(spec)
            for k, g in zip(ids, case["g"]):
                spec2["atoms"][k]["g"] = g
            e.g_factors = case["g"]
            close(list(e.g_factors), case["g"], "assigned g factors", 1e-12)
            close(num(e.ferro(dirs), "energy"), ref.ferro_energy(spec2, case["dirs"], field), "energy with assigned g factors", 1e-10, fscale * 4)
            ctx.label("g assigned")
        e.magnetic_field = case["field2"]
        if case["field2"] is None:
            close(num(e.ferro(dirs), "energy"), ref.ferro_energy(spec, case["dirs"]), "energy after the field was removed", 1e-10, scale)
        ctx.label("field")
    if case["s"] is not None and not spec["notation"][1] and case["change"] is None and later == 0:
        e = Energy(h)
        spec2 = ref.deep(spec)
        for k, x in zip(ids, case["s"]):
            v = np.array(spec2["atoms"][k]["spin"])
            spec2["atoms"][k]["spin"] = (v / np.linalg.norm(v) * x).tolist()
        e.spins = case["s"]
        e.magnetic_field = field
        close(num(e.ferro(dirs), "energy"), ref.ferro_energy(spec2, case["dirs"], field), "energy with assigned spins", 1e-10, ref.scale_of(spec2) * 4)
        ctx.label("spins assigned")
    ctx.label("normalized" if spec["notation"][1] else "not normalized")
    ctx.label("double counting" if spec["notation"][0] else "no double counting")


SUBCHECKS = [
    SubCheck(
        "ferro",
        cases(),
        run,
        quick=5000,
        thorough=60000,
        rule="model x notation x directions x field; non-trivial: has a bond",
        nontrivial=lambda c: len(c["model"]["bonds"]) > 0,
    )
]
ASSUMPTIONS = ["notation is completely defined", "spins are non-zero"]
