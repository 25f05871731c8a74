import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.core import SubCheck, close, ensure, fail

PREDEFINED = {
    "magnopy": [True, False, 0.5, 1.0],
    "tb2j": [True, True, -1.0, -1.0],
    "spinw": [True, False, 1.0, 1.0],
    "vampire": [True, True, -0.5, -1.0],
}
NAME = st.sampled_from(["magnopy", "Magnopy", "tb2j", "TB2J", "spinw", "SpinW", "vampire", "Vampire", "VAMPIRE"])

CHANGE = st.one_of(
    st.tuples(st.just("dc"), st.booleans()),
    st.tuples(st.just("sn"), st.booleans()),
    st.tuples(st.just("fe"), gen.factor()),
    st.tuples(st.just("fo"), gen.factor()),
    # a factor close to the current one
    st.tuples(st.sampled_from(["fe*", "fo*"]), st.sampled_from([1.04, 0.97, 1.004, 0.9996, 1 + 1e-5, 1 - 1e-7, 1 + 1e-9])),
    st.tuples(st.just("name"), NAME),
    st.tuples(st.just("n4"), gen.notation4()),
    st.tuples(st.just("n3"), st.tuples(st.booleans(), st.booleans(), gen.factor()).map(list)),
).map(list)


@st.composite
def cases(draw):
    spec = draw(gen.model(min_bonds=0, max_bonds=5, far=True, wide=True))
    n = len(spec["bonds"])
    # several bonds given the same parameter object
    share = draw(st.lists(st.integers(0, max(n - 1, 0)), min_size=n, max_size=n)) if draw(st.booleans()) else list(range(n))
    for k in range(n):
        if share[k] > k:
            share[k] = k
        spec["bonds"][k][3] = spec["bonds"][share[k]][3]
    return {
        "model": spec,
        "share": share,
        "onsite_shared": draw(st.booleans()),
        "first": draw(st.booleans()),
        "changes": draw(st.lists(CHANGE, min_size=2, max_size=7)),
        "late": draw(st.booleans()),
    }


def construct(case, spec):
    from magnopy import MatrixParameter, SpinHamiltonian

    h = SpinHamiltonian(cell=np.array(spec["cell"]))
    for a in spec["atoms"]:
        h.add_atom(name=a["name"], position=a["pos"], spin=a["spin"], g_factor=a["g"], relative=True)
    names = [a["name"] for a in spec["atoms"]]
    if case["first"]:
        h.notation = spec["notation"]
    pool = {}
    for k, (i, j, r, m) in enumerate(spec["bonds"]):
        s = case["share"][k]
        if s not in pool:
            pool[s] = MatrixParameter(matrix=m)
        h.add_exchange(names[i], names[j], tuple(r), pool[s])
    for n, (k, m) in enumerate(spec["onsite"]):
        if case["onsite_shared"] and n > 0 and spec["onsite"][0][1] == m:
            h.add_on_site(names[k], pool["os"])
        else:
            p = MatrixParameter(matrix=m)
            if n == 0:
                pool["os"] = p
            h.add_on_site(names[k], p)
    if not case["first"]:
        h.notation = spec["notation"]
    return h, pool


def check_form(h, canonical, what):
    bonds = ref.read_bonds(h)
    if h.double_counting:
        for (i, j, r), m in bonds.items():
            k = gen.mirror(i, j, r)
            ensure(k in bonds, f"{what}: {(i, j, r)} has no mirrored bond under double counting")
            close(bonds[k], m.T, f"{what}: mirrored bond of {(i, j, r)}", tol=1e-10)
    else:
        for i, j, r in bonds:
            ensure(
                gen.mirror(i, j, r) not in bonds,
                f"{what}: both {(i, j, r)} and its mirror without double counting",
            )
            if canonical:
                ensure(ref.is_canonical(i, j, r, None), f"{what}: {(i, j, r)} is not the documented member")


def run(case, ctx):
    spec = ref.deep(case["model"])
    if case["onsite_shared"]:
        for x in spec["onsite"]:
            x[1] = spec["onsite"][0][1]
    h, pool = construct(case, spec)
    original = list(spec["notation"])
    expected = ref.physical(spec)
    ref.compare_physical(ref.physical_of(h), expected, "initial")
    start = ref.read_bonds(h)
    start_os = ref.read_onsite(h)
    current = list(original)
    for n, (kind, value) in enumerate(case["changes"]):
        what = f"step {n} {kind}={value}"
        if kind == "dc":
            h.double_counting = value
            current[0] = value
        elif kind == "sn":
            h.spin_normalized = value
            current[1] = value
        elif kind == "fe":
            h.exchange_factor = value
            current[2] = value
        elif kind == "fe*":
            current[2] *= value
            h.exchange_factor = current[2]
        elif kind == "fo*":
            current[3] *= value
            h.on_site_factor = current[3]
        elif kind == "fo":
            h.on_site_factor = value
            current[3] = value
        elif kind == "name":
            h.notation = value
            current = list(PREDEFINED[value.lower()])
        elif kind == "n3":
            h.notation = tuple(value)
            current = [value[0], value[1], value[2], value[2]]
        else:
            h.notation = tuple(value) if n % 2 else list(value)
            current = list(value)
        ref.check_notation(h, current, what)
        ref.compare_physical(ref.physical_of(h), expected, what)
        check_form(h, kind in ("dc", "name", "n3", "n4"), what)
        ctx.label(f"{kind}")
    h.notation = tuple(original)
    back = ref.read_bonds(h)
    if original[0]:
        ref.compare_bonds(back, start, "back in the original notation", tol=1e-9)
    else:
        exp = {}
        for (i, j, r), m in start.items():
            if ref.is_canonical(i, j, r, None):
                exp[(i, j, r)] = m
            else:
                exp[gen.mirror(i, j, r)] = m.T
        ref.compare_bonds(back, exp, "back in the original notation", tol=1e-9)
    ref.compare_bonds(ref.read_onsite(h), start_os, "on-site back in the original notation", tol=1e-9)
    # objects given by the user are not touched
    for s, p in pool.items():
        m = spec["onsite"][0][1] if s == "os" else spec["bonds"][s][3]
        close(p.matrix, np.array(m, dtype=float), "parameter object of the user", tol=1e-12)
    if len(set(case["share"])) < len(case["share"]):
        ctx.label("shared parameter object")
    if any(not ref.is_canonical(i, j, r, None) for i, j, r, _ in spec["bonds"]):
        ctx.label("non-canonical bond given")


SUBCHECKS = [
    SubCheck(
        "notation-history",
        cases(),
        run,
        quick=5000,
        thorough=60000,
        rule="model (1-4 atoms, 0-5 bonds, on-site terms, shared parameter objects) and 1-6 notation changes; non-trivial: has parameters and at least two changes",
        nontrivial=lambda c: len(c["model"]["bonds"]) + len(c["model"]["onsite"]) > 0 and len(c["changes"]) >= 2,
    )
]
ASSUMPTIONS = ["all spins are non-zero", "factors are non-zero", "a pair is given once, not from both ends"]
