import math

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.core import SubCheck, arr, close, ensure, raises

ANGLE = st.one_of(st.sampled_from([0.0, math.pi / 4, math.pi / 2, math.pi]), gen.grid(-3, 3, 8))


@st.composite
def rotations(draw, size, top):
    """Products of elementary complex rotations of two components."""
    if size < 2:
        return []
    ops = []
    for _ in range(draw(st.integers(0, top))):
        i = draw(st.integers(0, size - 1))
        j = draw(st.integers(0, size - 2))
        j += j >= i
        ops.append([i, j, draw(ANGLE), draw(ANGLE)])
    return ops


@st.composite
def boosts(draw, n, top):
    ops = []
    for _ in range(draw(st.integers(0, top))):
        ops.append(
            [draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1)), draw(gen.grid(-1, 1, 8)), draw(ANGLE)]
        )
    return ops


SCALES = [1.0, 1.0, 1.0, 1e-6, 1e-3, 1e3, 1e6]
VALUE = st.one_of(st.sampled_from([1.0, 1.0, 2.0, 0.5, 5.0]), gen.real(0.125, 20))


@st.composite
def positive(draw):
    n = draw(st.integers(1, 5))
    kind = draw(st.sampled_from(["para", "para", "gram", "gram-real", "unitary", "integer", "diagonal"]))
    case = {"n": n, "kind": kind, "scale": draw(st.sampled_from(SCALES)), "form": draw(st.sampled_from(["array", "list", "fortran", "readonly"])), "rounded": draw(st.booleans())}
    if kind == "para":
        case["values"] = draw(st.lists(VALUE, min_size=2 * n, max_size=2 * n))
        case["left"] = draw(rotations(n, 4))
        case["right"] = draw(rotations(n, 4))
        case["boosts"] = draw(boosts(n, 3))
        case["left2"] = draw(rotations(n, 3))
        case["right2"] = draw(rotations(n, 3))
    elif kind in ("gram", "gram-real", "integer"):
        e = st.integers(-3, 3) if kind == "integer" else gen.grid(-3, 3, 8)
        m = st.lists(e, min_size=4 * n * n, max_size=4 * n * n)
        case["re"] = draw(m)
        case["im"] = draw(m) if kind == "gram" else None
        case["shift"] = draw(st.integers(1, 3)) if kind == "integer" else draw(gen.grid(0.125, 4, 8))
    elif kind == "unitary":
        case["values"] = draw(st.lists(VALUE, min_size=2 * n, max_size=2 * n))
        case["ops"] = draw(rotations(2 * n, 6))
    else:
        case["values"] = draw(st.lists(VALUE, min_size=2 * n, max_size=2 * n))
    return case


def rotation_matrix(ops, size):
    u = np.eye(size, dtype=complex)
    for i, j, th, ph in ops:
        r = np.eye(size, dtype=complex)
        c, s = math.cos(th), math.sin(th)
        r[i, i] = c
        r[j, j] = c
        r[i, j] = s * np.exp(1j * ph)
        r[j, i] = -s * np.exp(-1j * ph)
        u = r @ u
    return u


def block(a, b):
    n = len(a)
    z = np.zeros((n, n))
    return np.block([[a, z], [z, b]])


def para_matrix(case):
    """P with P g P^+ = g by construction."""
    n = case["n"]
    p = block(rotation_matrix(case["left"], n), rotation_matrix(case["right"], n))
    for i, j, th, ph in case["boosts"]:
        b = np.eye(2 * n, dtype=complex)
        b[i, i] = b[n + j, n + j] = math.cosh(th)
        b[i, n + j] = math.sinh(th) * np.exp(1j * ph)
        b[n + j, i] = math.sinh(th) * np.exp(-1j * ph)
        p = b @ p
    return block(rotation_matrix(case["left2"], n), rotation_matrix(case["right2"], n)) @ p


def make(case):
    """The matrix and, when it is known by construction, its spectrum."""
    n, kind = case["n"], case["kind"]
    if kind == "para":
        p = para_matrix(case)
        d = p.conj().T @ np.diag(case["values"]) @ p
        return (d + d.conj().T) / 2, case["values"]
    if kind in ("gram", "gram-real", "integer"):
        m = np.array(case["re"]).reshape(2 * n, 2 * n)
        if case["im"] is not None:
            m = m + 1j * np.array(case["im"]).reshape(2 * n, 2 * n)
        d = m @ m.conj().T + case["shift"] * np.eye(2 * n, dtype=m.dtype)
        return d, None
    if kind == "unitary":
        u = rotation_matrix(case["ops"], 2 * n)
        d = u @ np.diag(case["values"]) @ u.conj().T
        return (d + d.conj().T) / 2, None
    return np.diag(case["values"]), case["values"]


def given_form(d, form):
    if form == "list":
        return d.tolist()
    if form == "fortran":
        return np.asfortranarray(d)
    d = d.copy()
    if form == "readonly":
        d.setflags(write=False)
    return d


def run(case, ctx):
    from magnopy import solve_via_colpa

    n = case["n"]
    d, planned = make(case)
    d = d * case["scale"]
    if case.get("rounded"):
        # elements as they are after the computation of the matrix
        d = d * (1 + 2.0**-51 * (np.arange(d.size).reshape(d.shape) % 3 - 1))
    planned = None if planned is None else [v * case["scale"] for v in planned]
    arg = given_form(d, case["form"])
    keep = np.array(arg).copy()
    e, gm = solve_via_colpa(arg)
    ensure(np.array_equal(np.array(arg), keep), "the matrix given by the user was modified")
    ensure(not np.iscomplexobj(np.asarray(e)) or np.abs(np.imag(e)).max() == 0, "eigenvalues are complex")
    e = arr(np.real(e), (2 * n,), "eigenvalues")
    gm = arr(gm, (2 * n, 2 * n), "G", dtype=complex)
    norm = np.abs(np.linalg.eigvalsh(d)).max()
    cond = np.linalg.cond(d)
    g = np.diag([1.0] * n + [-1.0] * n)
    tol = 1e-11 * max(cond, 10) * 10
    ensure((e > 0).all(), f"eigenvalues are not positive: {e}")
    ensure((np.diff(e[:n]) <= tol * norm).all(), f"first half is not descending: {e}")
    ensure((np.diff(e[n:]) >= -tol * norm).all(), f"second half is not ascending: {e}")
    close(gm @ g @ gm.conj().T, g.astype(complex), "G g G^+", tol, max(1.0, np.abs(gm).max() ** 2))
    close(gm.conj().T @ g @ gm, g.astype(complex), "G^+ g G", tol, max(1.0, np.abs(gm).max() ** 2))
    gi = np.linalg.inv(gm)
    close(gi.conj().T @ d @ gi, np.diag(e).astype(complex), "(G^+)^-1 D G^-1", tol, norm * max(1.0, np.abs(gm).max() ** 2))
    close(gm.conj().T @ np.diag(e) @ gm, d.astype(complex), "G^+ E G", tol, norm * max(1.0, np.abs(gm).max() ** 2))
    # spectrum from the dynamical matrix gD
    w = np.linalg.eigvals(g @ d).real
    ref_pos = np.sort(w[w > 0])[::-1]
    ref_neg = np.sort(-w[w < 0])
    if len(ref_pos) == n:
        close(e[:n], ref_pos, "positive eigenvalues of gD", 1e-8 * max(1.0, cond ** 0.5), norm)
        close(e[n:], ref_neg, "moduli of negative eigenvalues of gD", 1e-8 * max(1.0, cond ** 0.5), norm)
    if planned is not None:
        close(e[:n], np.sort(planned[:n])[::-1], "planned spectrum (first half)", tol, norm)
        close(e[n:], np.sort(planned[n:]), "planned spectrum (second half)", tol, norm)
    ctx.label(case["kind"])
    if n > 1 and np.min(np.abs(np.diff(np.sort(e[:n])))) < 1e-9 * norm:
        ctx.label("degenerate")


@st.composite
def not_positive(draw):
    n = draw(st.integers(1, 4))
    values = draw(st.lists(VALUE, min_size=2 * n, max_size=2 * n))
    kind = draw(st.sampled_from(["negative", "negative", "slightly", "singular"]))
    for k in draw(st.lists(st.integers(0, 2 * n - 1), min_size=1, max_size=2 * n)):
        if kind == "singular":
            values[k] = 0.0
        elif kind == "slightly":
            values[k] = -draw(st.sampled_from([1e-2, 1e-4, 1e-6, 1e-8, 1e-10]))
        else:
            values[k] = -draw(gen.grid(0.125, 5, 8))
    return {
        "n": n,
        "values": values,
        "kind": kind,
        # exactly singular only as a diagonal matrix: the Cholesky pivot is zero without rounding
        "ops": [] if kind == "singular" else draw(rotations(2 * n, 6)),
        "scale": draw(st.sampled_from(SCALES)),
        "form": draw(st.sampled_from(["array", "list", "fortran", "readonly"])),
    }


def run_failed(case, ctx):
    from magnopy import solve_via_colpa
    from magnopy.exceptions import ColpaFailed

    n = case["n"]
    u = rotation_matrix(case["ops"], 2 * n)
    d = u @ np.diag(case["values"]) @ u.conj().T * case["scale"]
    d = (d + d.conj().T) / 2
    if not case["ops"]:
        d = d.real
    arg = given_form(d, case["form"])
    keep = np.array(arg).copy()
    raises(ColpaFailed, lambda: solve_via_colpa(arg), f"matrix with eigenvalues {sorted(case['values'])}")
    ensure(np.array_equal(np.array(arg), keep), "the matrix given by the user was modified")
    ctx.label("negative" if max(case["values"]) < 0 else case["kind"] if case["kind"] != "negative" else "indefinite")


SUBCHECKS = [
    SubCheck(
        "bogoliubov",
        positive(),
        run,
        quick=12000,
        thorough=120000,
        rule="Hermitian positive-definite matrices of size 2N, N=1..5: para-unitary transform of a planned spectrum, M M^+ + c (complex, real, integer), unitary transform, diagonal; non-trivial: the two halves are coupled",
        nontrivial=lambda c: c["kind"] in ("gram", "gram-real", "integer") or bool(c.get("boosts")) or bool(c.get("ops")),
    ),
    SubCheck(
        "failed",
        not_positive(),
        run_failed,
        quick=6000,
        thorough=30000,
        rule="Hermitian matrices with at least one eigenvalue <= -0.125, slightly negative (down to -1e-10 of the scale) or diagonal with exact zeros, at scales 1e-6 to 1e6; non-trivial: indefinite and not diagonal",
        nontrivial=lambda c: max(c["values"]) > 0 and bool(c["ops"]),
    ),
]
ASSUMPTIONS = ["matrices are Hermitian, with condition number below about 1e6", "singular matrices are generated only as diagonal ones, where no rounding is involved"]
