import numpy as np
from hypothesis import strategies as st

from vlib.core import SubCheck, close, ensure, fail, num, raises
from vlib.gen import matrix, real, vec

COMPONENTS = ["xx", "xy", "xz", "yx", "yy", "yz", "zx", "zy", "zz"]


@st.composite
def traceless(draw):
    m = np.array(draw(matrix(("full", "float"))))
    m = (m + m.T) / 2
    m = m - np.trace(m) / 3 * np.eye(3)
    return m.tolist()


SCALES = st.sampled_from([1.0, 1.0, 1.0, 1e-3, 1e3, 1e-6])


@st.composite
def scaled(draw, s):
    return (np.array(draw(s)) * draw(SCALES)).tolist()


OPS = st.one_of(
    st.tuples(st.just("matrix"), scaled(matrix())),
    st.tuples(st.just("iso"), real(-5, 5)),
    st.tuples(st.just("aniso"), scaled(traceless())),
    st.tuples(st.just("dmi"), scaled(vec(real(-5, 5)))),
    st.tuples(st.sampled_from(COMPONENTS), real(-5, 5)),
    st.tuples(
        st.sampled_from(["bad-matrix", "bad-aniso", "bad-dmi"]),
        st.sampled_from([[1.0, 2.0], [[1.0, 2.0], [3.0, 4.0]], "text", [[1, 2, 3]], [1.0, 2.0, 3.0, 4.0]]),
    ),
    st.tuples(
        st.sampled_from(["bad-iso"] + ["bad-" + x for x in COMPONENTS]),
        st.sampled_from([[1.0, 2.0, 3.0], [[1.0], [2.0], [3.0]], [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]], [1.0, 2.0], "text", None]),
    ),
)

CASE = st.fixed_dictionaries(
    {
        "matrix": st.one_of(st.none(), scaled(matrix())),
        "iso": st.one_of(st.none(), real(-5, 5)),
        "aniso": st.one_of(st.none(), traceless()),
        "dmi": st.one_of(st.none(), vec(real(-5, 5))),
        "ops": st.lists(OPS, max_size=8).map(lambda x: [list(o) for o in x]),
    }
)


def dmi_matrix(d):
    return np.array([[0, d[2], -d[1]], [-d[2], 0, d[0]], [d[1], -d[0], 0]], dtype=float)


def parts(m):
    sym = (m + m.T) / 2
    iso = np.trace(m) / 3
    asym = (m - m.T) / 2
    return iso, sym - iso * np.eye(3), np.array([asym[1, 2], asym[2, 0], asym[0, 1]])


def check_views(p, m, scale, what):
    tol = 1e-11
    iso, aniso, dmi = parts(m)
    sym, asym = (m + m.T) / 2, (m - m.T) / 2
    close(p.matrix, m, what + "matrix", tol, scale)
    close(p.iso, iso, what + "iso", tol, scale)
    close(p.iso_matrix, iso * np.eye(3), what + "iso_matrix", tol, scale)
    close(p.aniso, aniso, what + "aniso", tol, scale)
    close(p.aniso_diagonal, np.diag(aniso), what + "aniso_diagonal", tol, scale)
    close(p.aniso_diagonal_matrix, np.diag(np.diag(aniso)), what + "aniso_diagonal_matrix", tol, scale)
    close(p.dmi, dmi, what + "dmi", tol, scale)
    close(p.dmi_matrix, dmi_matrix(dmi), what + "dmi_matrix", tol, scale)
    close(p.dmi_module, np.linalg.norm(dmi), what + "dmi_module", tol, scale)
    close(p.symm_matrix, sym, what + "symm_matrix", tol, scale)
    close(p.asymm_matrix, asym, what + "asymm_matrix", tol, scale)
    close(p.I, iso, what + "I", tol, scale)
    close(p.S, aniso, what + "S", tol, scale)
    close(p.A, asym, what + "A", tol, scale)
    close(
        np.array(p.iso_matrix) + np.array(p.aniso) + np.array(p.dmi_matrix),
        m,
        what + "sum of the parts",
        tol,
        scale,
    )
    if abs(iso) > 1e-3 * scale and abs(iso) > 1e-9:
        close(p.rel_dmi, np.linalg.norm(dmi) / abs(iso), what + "rel_dmi", 1e-7, np.linalg.norm(dmi) / abs(iso))
    for n, c in enumerate(COMPONENTS):
        close(getattr(p, c), m[n // 3, n % 3], what + c, tol, scale)


def run(case, ctx):
    from magnopy import MatrixParameter

    given = {k: case[k] for k in ("matrix", "iso", "aniso", "dmi") if case[k] is not None}
    inputs = {k: (np.array(v) if k != "iso" else v) for k, v in given.items()}
    p = MatrixParameter(**inputs)
    m = np.array(case["matrix"], dtype=float) if case["matrix"] is not None else np.zeros((3, 3))
    iso, aniso, dmi = parts(m)
    if case["iso"] is not None:
        iso = case["iso"]
    if case["aniso"] is not None:
        aniso = np.array(case["aniso"])
    if case["dmi"] is not None:
        dmi = np.array(case["dmi"])
    m = iso * np.eye(3) + aniso + dmi_matrix(dmi)
    scale = max(1e-9, np.abs(m).max(), *[np.abs(np.array(v)).max() for v in given.values()] or [0])
    # later changes of the arrays given by the user do not matter
    for v in inputs.values():
        if isinstance(v, np.ndarray):
            v += 17.0
    check_views(p, m, scale, "constructor: ")
    for n, (op, value) in enumerate(case["ops"]):
        what = f"after step {n} ({op}): "
        if op.startswith("bad-"):
            attr = op[4:]
            shape = np.shape(value)
            if attr == "dmi" and shape == (3,):
                continue
            # components are refused with the error of float()
            raises((ValueError, TypeError) if attr in COMPONENTS else ValueError, lambda: setattr(p, attr, value), f"{attr} = {value!r}")
            check_views(p, m, scale, what)
            ctx.label("rejected value")
            continue
        v = np.array(value, dtype=float) if op in ("matrix", "aniso", "dmi") else value
        setattr(p, op, v)
        iso, aniso, dmi = parts(m)
        if op == "matrix":
            m = np.array(value, dtype=float)
        elif op == "iso":
            m = m + (value - iso) * np.eye(3)
        elif op == "aniso":
            m = np.array(value, dtype=float) + iso * np.eye(3) + dmi_matrix(dmi)
        elif op == "dmi":
            m = m - dmi_matrix(dmi) + dmi_matrix(value)
        else:
            k = COMPONENTS.index(op)
            m = m.copy()
            m[k // 3, k % 3] = value
        scale = max(scale, np.abs(m).max(), np.abs(np.array(value)).max())
        if isinstance(v, np.ndarray):
            v += 17.0
        check_views(p, m, scale, what)
        ctx.label(op if op in ("matrix", "iso", "aniso", "dmi") else "component")


SUBCHECKS = [
    SubCheck(
        "parts",
        CASE,
        run,
        quick=12000,
        thorough=80000,
        rule="constructor arguments and a history of up to 8 assignments of parts and components; non-trivial: at least two assignments or two constructor arguments",
        nontrivial=lambda c: len(c["ops"]) >= 2 or sum(c[k] is not None for k in ("matrix", "iso", "aniso", "dmi")) >= 2,
    )
]
ASSUMPTIONS = ["aniso is assigned traceless symmetric matrices, as documented", "comparison within 1e-11 of the largest value in the history"]
