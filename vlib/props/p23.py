"""Published parts of the magnon Hamiltonian: S, u, v, J(k), A(k), B(k), C, h(k)."""

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.core import SubCheck, arr, close, ensure, fail
from vlib.props.p11 import KPOINT


@st.composite
def cases(draw):
    spec = draw(gen.model(min_atoms=1, max_atoms=4, min_bonds=0, max_bonds=6, wide=True))
    if not gen.magnetic_ids(spec):
        spec["onsite"] = [[0, draw(gen.matrix())]]
    return {
        "model": spec,
        "k": draw(KPOINT),
        "shift": draw(gen.vec(st.integers(-2, 2))),
        "form": draw(st.sampled_from(["array", "list", "tuple"])),
        # another wave vector, often next to the first one, asked from the same object before
        "before": draw(st.sampled_from([None, 1.0, 2.0**-6, 2.0**-10, 2.0**-14, 2.0**-20])),
        "order": draw(st.permutations(["J", "A", "B", "C", "h"])),
    }


def fourier(spec, k):
    """J_ij(k) = sum_d J_ij(d) exp(-i k d), H = sum over every ordered pair of S_i J_ij(d) S_j."""
    ids = gen.magnetic_ids(spec)
    index = {a: n for n, a in enumerate(ids)}
    n = len(ids)
    s = ref.spins_of(spec)
    cell = np.array(spec["cell"])
    r = ref.absolute_positions(spec)
    out = np.zeros((n, n, 3, 3), dtype=complex)
    pairs, sites = ref.physical(spec)
    for (a, b, rr), t in pairs.items():
        j = t / (2 * s[a] * s[b])
        d = r[b] + np.array(rr, dtype=float) @ cell - r[a]
        out[index[a], index[b]] += j * np.exp(-1j * np.dot(k, d))
        out[index[b], index[a]] += j.T * np.exp(1j * np.dot(k, d))
    for a, t in sites.items():
        out[index[a], index[a]] += (t + t.T) / 2 / s[a] ** 2
    return out


def run(case, ctx):
    from magnopy import MagnonDispersion

    spec = case["model"]
    h = ref.build(spec)
    md = MagnonDispersion(h)
    ids = gen.magnetic_ids(spec)
    n = len(ids)
    k = np.array(case["k"], dtype=float)
    give = {"array": lambda x: np.array(x), "list": lambda x: list(map(float, x)), "tuple": lambda x: tuple(map(float, x))}[case["form"]]
    ensure(md.N == n, f"N = {md.N}, expected {n}")
    vectors = np.array([spec["atoms"][a]["spin"] for a in ids])
    close(arr(md.S, (n, 3), "S"), vectors, "S", 1e-12)
    s = np.linalg.norm(vectors, axis=1)
    v = arr(md.v, (n, 3), "v", dtype=complex)
    u = arr(md.u, (n, 3), "u", dtype=complex)
    close(v, (vectors / s[:, None]).astype(complex), "v", 3e-8)
    for a in range(n):
        # u = e1 + i e2, where e1, e2, v is a right-handed orthonormal set
        close(np.cross(u[a].real, u[a].imag), v[a].real, f"e1 x e2 of the atom {a}", 1e-6)
        close([u[a] @ u[a], u[a] @ u[a].conj(), u[a] @ v[a]], [0.0 + 0j, 2.0, 0.0], f"products of u and v of the atom {a}", 1e-6)
    scale = ref.scale_of(spec) / s.min() ** 2
    root = np.sqrt(np.outer(s, s))
    jm, jz, jk = fourier(spec, -k), fourier(spec, 0 * k), fourier(spec, k)
    big = scale * max(1.0, s.max())
    if case["before"] is not None:
        other = k + case["before"] * np.array([1.0, -0.5, 0.25])
        for what in reversed(case["order"]):
            getattr(md, what)(*([] if what == "C" else [give(other)]))
    for what in case["order"]:
        if what == "J":
            close(arr(md.J(give(k)), (n, n, 3, 3), "J(k)", dtype=complex), jk, "J(k)", 1e-9, scale)
        elif what == "A":
            e = np.array([[root[i, j] / 2 * u[i] @ jm[i, j] @ u[j].conj() for j in range(n)] for i in range(n)])
            close(arr(md.A(give(k)), (n, n), "A(k)", dtype=complex), e, "A(k)", 1e-9, big)
            close(e, e.conj().T, "A(k) is not Hermitian", 1e-9, big)
        elif what == "B":
            e = np.array([[root[i, j] / 2 * u[i] @ jm[i, j] @ u[j] for j in range(n)] for i in range(n)])
            close(arr(md.B(give(k)), (n, n), "B(k)", dtype=complex), e, "B(k)", 1e-9, big)
            close(arr(md.B(give(-k)), (n, n), "B(-k)", dtype=complex), e.T, "B(-k)", 1e-9, big)
        elif what == "C":
            e = np.diag([sum(s[l] * (v[i] @ jz[i, l] @ v[l]) for l in range(n)) for i in range(n)])
            close(arr(md.C(), (n, n), "C", dtype=complex), e, "C", 1e-7, big)
        else:
            a, b, c = (arr(x, (n, n), "part", dtype=complex) for x in (md.A(give(k)), md.B(give(k)), md.C()))
            am = arr(md.A(give(-k)), (n, n), "A(-k)", dtype=complex)
            e = 2 * np.block([[a - c, b], [b.conj().T, am.conj() - c]])
            close(arr(md.h(give(k)), (2 * n, 2 * n), "h(k)", dtype=complex), e, "h(k)", 1e-9, big)
    # the same form at equivalent points up to the phases of the atoms
    g = np.array(case["shift"]) @ ref.reciprocal(spec["cell"])
    r = ref.absolute_positions(spec)[ids]
    ph = np.exp(1j * (r @ g))
    ph = np.concatenate([ph, ph])
    shifted = np.asarray(md.h(give(k + g)))
    moved = ph.conj()[:, None] * np.asarray(md.h(give(k))) * ph[None, :]
    close(np.linalg.eigvalsh(shifted), np.linalg.eigvalsh(np.asarray(md.h(give(k)))), "eigenvalues of h at k + G", 1e-8, big * n)
    ok = np.abs(shifted - moved).max() <= 1e-8 * big * n or np.abs(shifted - moved.conj()).max() <= 1e-8 * big * n
    ctx.label("phases as expected" if ok else "other phases")
    for none in (False, True):
        e, m = md.omega(give(k), return_G=True, zeros_to_none=none)
        ensure(np.shape(e) == (2 * n,) and np.shape(m) == (2 * n, 2 * n), f"shapes {np.shape(e)} and {np.shape(m)} with return_G and zeros_to_none={none}")
        single = np.asarray(md.omega(give(k), zeros_to_none=none))
        ensure(np.array_equal(np.asarray(e)[:n], single, equal_nan=True), f"return_G changes energies from {single} to {e}")
        ctx.label("no solution" if np.isnan(e).any() else "solved" if none else "with zeros")
    ctx.label(f"{n} atoms")
    if not spec["notation"][0]:
        ctx.label("no double counting")


SUBCHECKS = [
    SubCheck(
        "matrices",
        cases(),
        run,
        quick=5000,
        thorough=60000,
        rule="model x notation x k; non-trivial: has bonds, k is not zero",
        nontrivial=lambda c: bool(c["model"]["bonds"]) and any(c["k"]),
    )
]
ASSUMPTIONS = ["spins of magnetic atoms are non-zero", "the choice of the transverse axes e1, e2 is left to the implementation"]
