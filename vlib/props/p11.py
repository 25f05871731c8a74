import math

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.core import SubCheck, arr, close, ensure, fail

KPOINT = st.one_of(gen.vec(gen.grid(-2, 2, 8)), gen.vec(gen.real(-1.5, 1.5, 16)))


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["positive", "positive", "positive", "negative", "free"]))
    spec = draw(gen.model(min_atoms=1, max_atoms=4, min_bonds=0 if kind != "free" else 1, max_bonds=6, wide=True))
    if not gen.magnetic_ids(spec):
        spec["onsite"] = [[0, draw(gen.matrix())]]
    if kind == "free" and draw(st.booleans()):
        d = draw(gen.unit_like())
        for a in spec["atoms"]:
            v = np.array(d) / np.linalg.norm(d) * np.linalg.norm(a["spin"])
            a["spin"] = (v if draw(st.booleans()) else -v).tolist()
    return {
        "model": spec,
        "kind": kind,
        "gap": draw(gen.grid(0.25, 3, 8)),
        "scale": draw(st.sampled_from([1.0, 1.0, 1.0, 1.0, 1e-4, 1e-3, 1e-2, 1e3])),
        "transverse": draw(gen.grid(-0.5, 0.5, 8)),
        "k": draw(st.lists(KPOINT, min_size=1, max_size=3)),
        "shift": draw(gen.vec(st.integers(-2, 2))),
        "change": draw(st.one_of(st.none(), gen.notation4())),
        "later": draw(st.integers(0, 3)),
        # vectors next to the requested ones are asked about first
        "near": draw(st.sampled_from([None, None, 2.0**-8, 2.0**-12, 2.0**-16, 2.0**-18])),
    }


def prepare(case):
    """Add on-site terms that make the quadratic form definite at every k."""
    spec = ref.deep(case["model"])
    for x in spec["bonds"] + spec["onsite"]:
        x[-1] = (np.array(x[-1]) * case.get("scale", 1.0)).tolist()
    if case["kind"] == "free":
        return spec
    s = ref.spins_of(spec)
    ids = gen.magnetic_ids(spec)
    pairs, sites = ref.physical(spec)
    load = {a: 0.0 for a in ids}
    for (i, j, _), t in pairs.items():
        x = np.linalg.norm(t, 2)
        # modulus of the coupling in canonical coordinates and of the local field
        load[i] += x * (1 + math.sqrt(s[i] / s[j]))
        load[j] += x * (1 + math.sqrt(s[j] / s[i]))
    for k, t in sites.items():
        load[k] += 4 * np.linalg.norm(t, 2)
    dc, sn, fe, fo = spec["notation"]
    have = {k: np.array(m, dtype=float) for k, m in spec["onsite"]}
    sign = -1.0 if case["kind"] == "positive" else 1.0
    for a in ids:
        n = np.array(spec["atoms"][a]["spin"]) / s[a]
        c = (load[a] + case["gap"] * case.get("scale", 1.0)) / 2 / (fo * (1 if sn else s[a] ** 2))
        have[a] = have.get(a, 0) + sign * c * np.outer(n, n)
    spec["onsite"] = [[a, have[a].tolist()] for a in sorted(have)]
    return spec


def reference(spec, k):
    """(class, sorted energies, condition) from the linearised precession."""
    hess, w = ref.lswt(spec, k)
    n = len(hess) // 2
    ev = np.linalg.eigvalsh(hess)
    norm = np.abs(ev).max()
    margin = max(1e-3 * norm, 1e-5)
    if ev[0] > margin:
        pos = np.sort(w.real)[::-1][:n]
        return "positive", pos, norm / ev[0], norm
    if ev[-1] < -margin:
        neg = np.sort(w.real)[:n]
        # energies of the reversed form are -w(k) with the roles of +k and -k kept
        return "negative", neg, norm / -ev[-1], norm
    if ev[0] < -margin and ev[-1] > margin:
        return "none", np.zeros(n), 1.0, norm
    return "edge", None, None, norm


def check_point(md, spec, k, ctx, n):
    from magnopy import solve_via_colpa

    kind, w, cond, norm = reference(spec, k)
    h = arr(md.h(k), (2 * n, 2 * n), "h(k)", dtype=complex)
    close(h, h.conj().T, "h(k) is not Hermitian", 1e-9, norm)
    got = md.omega(k)
    if kind != "edge":
        ctx.label(kind)
        got = arr(got, (n,), "energies")
        close(got, w, f"energies at k={list(k)} ({kind})", 3e-7 + 1e-10 * cond, norm)
        nan = arr(md.omega(k, zeros_to_none=True), (n,), "energies")
        if kind == "none":
            ensure(np.isnan(nan).all(), f"no solution: expected NaN with zeros_to_none, got {nan}")
            ensure((got == 0).all(), f"no solution: expected zeros, got {got}")
        else:
            close(nan, got, "energies with zeros_to_none", 1e-12, norm)
            full, g = md.omega(k, return_G=True)
            full = arr(full, (2 * n,), "all energies")
            g = arr(g, (2 * n, 2 * n), "G", dtype=complex)
            close(full[:n], got, "first half of all energies", 1e-12, norm)
            big = norm * max(1.0, np.abs(g).max() ** 2)
            close(g.conj().T @ np.diag(full) @ g, h, "G^+ E G is not h(k)", 1e-9 * cond, big)
            comm = np.diag([1.0] * n + [-1.0] * n).astype(complex)
            close(g @ comm @ g.conj().T, comm, "G g G^+", 1e-9 * cond, max(1.0, np.abs(g).max() ** 2))
            im = np.asarray(md.omega(k, return_imaginary=True))
            close(im.real, got, "real part", 1e-12, norm)
            ensure(np.abs(np.imag(im)).max() == 0, "energies of a definite form are complex")
    else:
        ctx.label("edge")
    return kind, got, norm, cond


def run(case, ctx):
    from magnopy import MagnonDispersion

    spec = prepare(case)
    h = ref.build(spec)
    if case["change"] is not None:
        h.notation = tuple(case["change"])
        ctx.label("notation changed")
    md = MagnonDispersion(h)
    ids = gen.magnetic_ids(spec)
    n = len(ids)
    ensure(md.N == n, f"N={md.N}, expected {n}")
    if case["later"] == 1:
        h.notation = "TB2J"
    elif case["later"] == 2:
        for a in h.atoms:
            a.spin_vector = (3.0, 0.1, 0.2)
        for _, _, _, p in h.exchange:
            p.matrix *= 2
        h.cell = np.array(h.cell) * 2
    elif case["later"] == 3:
        h.remove_atom(h.magnetic_atoms[0])
    rec = ref.reciprocal(spec["cell"])
    ks = [np.array(k) for k in case["k"]]
    if case["near"] is not None:
        for k in ks:
            q = k + case["near"] * np.array([1.0, 0.5, -0.75])
            md.omega(q)
            md.omegas([q], zeros_to_none=True)
            md.h(q)
        ctx.label("close vectors before")
    rows = []
    for k in ks:
        kind, got, norm, cond = check_point(md, spec, k, ctx, n)
        rows.append(np.asarray(got))
        if case["kind"] in ("positive", "negative") and kind not in ("edge", case["kind"]):
            raise AssertionError(f"harness: planned {case['kind']}, got {kind}")
        if kind != "edge":
            again = md.omega((k + np.array(case["shift"]) @ rec).tolist())
            close(again, got, f"energies at k + {case['shift']}", 1e-8 * cond, norm)
    table = arr(md.omegas([k.tolist() for k in ks]), (n, len(ks)), "omegas")
    close(table, np.array(rows).T, "omegas point by point", 1e-12)
    table = arr(md(np.array(ks)), (n, len(ks)), "call")
    close(table, np.array(rows).T, "call point by point", 1e-12)
    nans = np.array([np.asarray(md.omega(k, zeros_to_none=True)) for k in ks]).T
    for what, table in (
        ("omegas", md.omegas([k.tolist() for k in ks], zeros_to_none=True)),
        ("call", md(np.array(ks), zeros_to_none=True)),
    ):
        table = arr(table, (n, len(ks)), what)
        ensure((np.isnan(table) == np.isnan(nans)).all(), f"{what} with zeros_to_none: {table}, point by point {nans}")
        close(np.nan_to_num(table), np.nan_to_num(nans), what + " with zeros_to_none point by point", 1e-12)
    for a in spec["bonds"]:
        m = np.array(a[3])
        if np.abs(m - m.T).max() > 0:
            ctx.label("DMI")
            break
    if len({tuple(np.round(v, 6)) for v in ref.normed([spec["atoms"][a]["spin"] for a in ids])}) > 1:
        ctx.label("non-collinear or antiparallel")


# ------------------------------------------------------------------ Heisenberg magnets, gapless
@st.composite
def heisenberg(draw):
    kind = draw(st.sampled_from(["fm", "afm"]))
    n = draw(st.integers(1, 3)) if kind == "fm" else 2
    spec = draw(gen.model(min_atoms=n, max_atoms=n, min_bonds=1, max_bonds=6, max_onsite=0, matrices=st.just(np.eye(3).tolist())))
    js = draw(st.lists(gen.grid(0.25, 3, 8), min_size=7, max_size=7))
    reverse = draw(st.integers(0, 3)) == 0
    d = draw(gen.unit_like())
    sub = [0, 1] if kind == "afm" else [0] * n
    if kind == "afm":
        for b in spec["bonds"]:
            b[0], b[1] = 0, 1
        seen, keep = set(), []
        for b in spec["bonds"]:
            if tuple(b[2]) not in seen:
                seen.add(tuple(b[2]))
                keep.append(b)
        spec["bonds"] = keep
    s0 = np.linalg.norm(spec["atoms"][0]["spin"])
    for a, q in zip(spec["atoms"], sub):
        v = np.array(d) / np.linalg.norm(d) * (s0 if kind == "afm" else np.linalg.norm(a["spin"]))
        a["spin"] = (-v if q else v).tolist()
    fe = spec["notation"][2]
    for b, j in zip(spec["bonds"], js):
        sign = (1.0 if kind == "afm" else -1.0) * (1 if fe > 0 else -1) * (-1 if reverse else 1)
        b[3] = (np.eye(3) * sign * j).tolist()
    return {
        "model": spec,
        "kind": kind,
        "g": draw(gen.vec(st.integers(-2, 2))),
        "k": draw(KPOINT),
        "reverse": reverse,
    }


def run_heisenberg(case, ctx):
    from magnopy import MagnonDispersion

    spec = case["model"]
    md = MagnonDispersion(ref.build(spec))
    n = len(gen.magnetic_ids(spec))
    rec = ref.reciprocal(spec["cell"])
    scale = ref.scale_of(spec) / min(ref.spins_of(spec))
    tol = 4e-4 * math.sqrt(scale)
    # reversed couplings: maximum of the energy, negative semi-definite form
    sign = -1.0 if case["reverse"] else 1.0
    for k in (np.zeros(3), np.array(case["g"]) @ rec):
        got = arr(md.omega(k), (n,), "energies")
        ensure((np.abs(got) < 1e300).all(), f"energies {got} at gapless point")
        # the Goldstone mode
        ensure(np.min(np.abs(got)) <= tol, f"no Goldstone mode at {list(k)}: {got}")
        _, w = ref.lswt(spec, k)
        w = np.sort(np.abs(w))[::-1][::2][:n]
        close(np.sort(np.abs(got))[::-1], w, f"energies at the gapless point {list(k)}", tol, 1.0)
        ensure((np.diff(sign * got) <= 1e-7).all(), f"not in order {got}")
        ensure((sign * got >= -1e-7).all(), f"energies of wrong sign {got}")
    k = np.array(case["k"])
    got = arr(md.omega(k), (n,), "energies")
    ensure((sign * got >= -1e-7).all(), f"energies of wrong sign {got}")
    _, w = ref.lswt(spec, k)
    w = np.sort(np.abs(w))[::-1][::2][:n]
    close(np.sort(np.abs(got))[::-1], w, f"energies at {list(k)}", tol, 1.0)
    ctx.label(case["kind"] + (" reversed" if case["reverse"] else ""))
    if len(gen.magnetic_ids(spec)) > 1:
        ctx.label("several atoms")


# ------------------------------------------------------------------ Kpoints of the path
@st.composite
def paths(draw):
    spec = draw(gen.model(min_atoms=1, max_atoms=2, min_bonds=1, max_bonds=3, cells=("cubic", "tet", "orc", "tri")))
    return {"model": spec, "kind": "positive", "gap": 1.0, "n": draw(st.integers(2, 4))}


def run_path(case, ctx):
    from wulfric import Kpoints

    from magnopy import MagnonDispersion

    spec = prepare(case)
    h = ref.build(spec)
    md = MagnonDispersion(h)
    n = len(gen.magnetic_ids(spec))
    rec = ref.reciprocal(spec["cell"])
    kp = Kpoints(
        rec[0], rec[1], rec[2],
        coordinates=[[0, 0, 0], [0.5, 0, 0], [0.5, 0.5, 0.25]], names=["G", "X", "M"], path="G-X|M-G", n=case["n"],
    )
    points = kp.points()
    expected = np.array([reference(spec, k)[1] for k in points]).T
    scale = max(reference(spec, k)[3] for k in points)
    close(arr(md.omegas(kp), expected.shape, "omegas(Kpoints)"), expected, "omegas(Kpoints)", 1e-7, scale)
    close(arr(md(kp), expected.shape, "call(Kpoints)"), expected, "call(Kpoints)", 1e-7, scale)
    ctx.label("path")


SUBCHECKS = [
    SubCheck(
        "lswt",
        cases(),
        run,
        quick=4000,
        thorough=50000,
        rule="model x spin texture x notation x k; definite forms by on-site terms along the spins, free forms classified by the Hessian; non-trivial: has a bond",
        nontrivial=lambda c: len(c["model"]["bonds"]) > 0,
    ),
    SubCheck(
        "gapless",
        heisenberg(),
        run_heisenberg,
        quick=1500,
        thorough=15000,
        rule="Heisenberg ferro- and antiferromagnets at reciprocal lattice vectors and at arbitrary k; non-trivial: more than one bond",
        nontrivial=lambda c: len(c["model"]["bonds"]) > 1,
    ),
    SubCheck("path", paths(), run_path, quick=200, thorough=2000, rule="k path given as Kpoints"),
]
ASSUMPTIONS = [
    "spins of magnetic atoms are non-zero",
    "parameters are of the order of meV: the absolute regularization 1e-8 is negligible",
    "quadratic forms closer than 1e-3 (relative) to semi-definite are only covered by the gapless sub-check",
]
