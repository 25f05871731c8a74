"""Read-only uses leave the Hamiltonian as it was."""

import contextlib
import io
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.core import SubCheck, close, ensure, fail

FIELD = [0.5, -1.0, 3.0]


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


def unchanged_argument(value, call, what):
    """The array given to the call is not modified."""
    a = np.array(value, dtype=float)
    before = a.copy()
    r = call(a)
    ensure(a.shape == before.shape and (a == before).all(), f"{what} modified its argument")
    return r


# every use gets (h, spec, step, scratch) and returns a comparable result or None
def energy_ferro(h, spec, p, d):
    from magnopy import Energy

    e = Energy(h)
    if p["n"] % 2:
        e.magnetic_field = FIELD
    n = len(gen.magnetic_ids(spec))
    return float(unchanged_argument(p["dirs"][:n], e.ferro, "ferro"))


def energy_antiferro(h, spec, p, d):
    from magnopy import Energy

    e = Energy(h)
    if p["n"] % 2:
        e.magnetic_field = FIELD
    n = len(gen.magnetic_ids(spec))
    q = np.array([[1, 0, 0], [0, 1, 1], [1, 1, 1]][p["n"] % 3]) @ ref.reciprocal(spec["cell"]) / 2
    axis = np.array(p["axis"])
    return float(unchanged_argument(p["dirs"][:n], lambda x: e.antiferro(x, axis, q), "antiferro"))


def energy_spiral(h, spec, p, d):
    from magnopy import Energy

    e = Energy(h)
    n = len(gen.magnetic_ids(spec))
    q = np.array([0.31, -0.2, 0.123])
    return float(unchanged_argument(p["axis"], lambda x: e.spiral(np.array(p["dirs"][:n]), x, q), "spiral"))


def optimize(h, spec, p, d):
    from magnopy import Energy

    e = Energy(h)
    n = len(gen.magnetic_ids(spec))
    kind = ["ferro", "antiferro", "spiral"][p["n"] % 3]
    q = np.array([0, 0, 1.0]) @ ref.reciprocal(spec["cell"]) / 2 if kind == "antiferro" else np.array([0.1, 0.2, 0.3])
    dirs, axis = np.array(p["dirs"][:n]), np.array(p["axis"])
    guess = {"ferro": dirs, "antiferro": (dirs, axis), "spiral": (dirs, axis, q)}[kind]
    before = [dirs.copy(), axis.copy(), q.copy()]
    kw = {"antiferro_q": q} if kind == "antiferro" else {}
    if p["n"] % 2:
        kw["save_history"] = True
        kw["history_filename"] = os.path.join(d, "history")
    quiet(lambda: e.optimize(case=kind, initial_guess=guess, max_iterations=2, **kw))
    for a, b in zip(before, (dirs, axis, q)):
        ensure((a == b).all(), "optimize modified the guess")


def dispersion(h, spec, p, d):
    from magnopy import MagnonDispersion

    md = MagnonDispersion(h)
    k = np.array([0.3, -0.7, 0.11])
    md.omegas([k, 2 * k], zeros_to_none=bool(p["n"] % 2))
    md.omega(k, return_G=True)
    md.J(k), md.A(k), md.B(k), md.C
    return np.abs(unchanged_argument(k, md.h, "h")).tolist()


def dispersion_kept(h, spec, p, d):
    """The objects made from the Hamiltonian may be changed freely."""
    from magnopy import Energy

    e = Energy(h)
    n = len(gen.magnetic_ids(spec))
    e.spins = [5.0] * n
    e.g_factors = [7.0] * n
    e.magnetic_field = FIELD
    e.ferro(np.array(p["dirs"][:n]))


def dump_txt(h, spec, p, d):
    from magnopy import dump_spinham_txt

    kw = [{}, {"write_iso": True}, {"write_matrix": False, "write_iso": True, "write_dmi": True, "write_symm": True}, {"write_spin_angles": True}][p["n"] % 4]
    quiet(lambda: dump_spinham_txt(h, filename=os.path.join(d, "h.txt") if p["n"] % 2 else None, **kw))


def dump_hdf5(h, spec, p, d):
    from magnopy import dump_spinham_hdf5

    dump_spinham_hdf5(h, os.path.join(d, "h.hdf5"), groupname=f"g{p['n']}", overwrite=True)


def dump_hdf5_refused(h, spec, p, d):
    from magnopy import dump_spinham_hdf5

    path = os.path.join(d, "r.hdf5")
    dump_spinham_hdf5(h, path, groupname="g", overwrite=True)
    failing(lambda: dump_spinham_hdf5(h, path, groupname="g"))


def vampire(h, spec, p, d):
    from magnopy.io.txt.vampire import dump_mat, dump_ucf, dump_vampire

    kw = [{}, {"dmi": False}, {"anisotropic": False}, {"custom_mask": lambda m: m * 0}][p["n"] % 4]
    dump_ucf(h, **kw)
    dump_mat(h)
    dump_vampire(h, seedname=os.path.join(d, "v"), **kw)


def vampire_bad(h, spec, p, d):
    from magnopy.io.txt.vampire import dump_ucf

    def bad(m):
        m *= 0  # a mask is free to spoil what it gets
        raise RuntimeError("mask")

    failing(lambda: dump_ucf(h, custom_mask=bad))


def copied(h, spec, p, d):
    c = h.copy()
    c.exchange_factor = 3.5
    for _, _, _, j in c.exchange:
        j.matrix = j.matrix * 2
    for a in list(c.atoms)[:1]:
        c.remove_atom(a)


def filtered(h, spec, p, d):
    kw = [{"max_distance": 3.0}, {"min_distance": 2.0}, {"custom_filter": lambda j: abs(j.iso) > 0.5}, {"max_distance": 0}][p["n"] % 4]
    f = h.filtered(**kw)
    f.notation = "SpinW"
    f.notation = "TB2J"


def filtered_bad(h, spec, p, d):
    def bad(j):
        raise RuntimeError("filter")

    failing(lambda: h.filtered(custom_filter=bad))


def crystal(h, spec, p, d):
    c = h.crystal
    for a in c.atoms:
        a.spin_vector = [1, 2, 3]
        a.name = "Zz"
    c.cell = np.eye(3)


def listings(h, spec, p, d):
    out = [len(h.exchange), len(h.on_site), h.I]
    for a, b, r, j in h.exchange:
        out += [a.name, b.name, list(r), float(j.iso), float(j.dmi_module), np.array(j.aniso).tolist()]
        (a, b, r) in h
        h[a, b, r]
    if "notation" in p and h_defined(h):
        for a, b, r, j in h.exchange_like:
            out.append(np.array(j.matrix).tolist())
    for a, j in h.on_site:
        h[a, a, (0, 0, 0)] if (a, a, (0, 0, 0)) in h else None
    atoms = h.magnetic_atoms
    out.append([a.name for a in atoms])
    if p["n"] % 2:
        # the list belongs to the user
        atoms.clear()
    return out


def interrupted_listing(h, spec, p, d):
    it = iter(h.exchange)
    next(it, None)
    for x in h.exchange:
        for y in h.exchange:
            break
        break
    it2 = iter(h.on_site)
    next(it2, None)
    list(h.exchange), list(h.on_site)


def h_defined(h):
    return all(ref.notation_part(h, x) is not None for x in ref.NOTATION_PARTS)


def parameters(h, spec, p, d):
    """Arithmetic with the parameters gives new objects."""
    for _, _, _, j in h.exchange:
        k = j * 2 + j - j / 3
        k.matrix = np.eye(3)
        t = j.T
        t.iso = 7
        (-j).dmi = [1, 2, 3]
        (+j).xx = 100
        m = j.matrix
        x = np.array(m) * 2
    for _, j in h.on_site:
        (j @ j), abs(j), (+j)
        (+j).aniso = np.zeros((3, 3))


def geometry(h, spec, p, d):
    a, b = h.atoms[0], h.atoms[-1]
    r = [1, -1, 2]
    out = [float(h.get_distance(a, b, tuple(r)))]
    v = h.get_vector(a, b, tuple(r))
    out += np.array(v).tolist()
    h.a, h.b, h.c, h.a1, h.a2, h.a3
    return out


def notation_reads(h, spec, p, d):
    return [ref.notation_part(h, x) for x in ref.NOTATION_PARTS]


def failing(f):
    try:
        quiet(f)
    except Exception:
        return
    # some of these calls may legitimately pass


def bad_notation(h, spec, p, d):
    bad = ["unknown", (True, False), (True, True, "x"), 5, (1, 2, 3, 4, 5), None, (True, "a", 1, "b")][p["n"] % 7]
    try:
        h.notation = bad
    except Exception:
        return
    return "changed"


def bad_keys(h, spec, p, d):
    n = spec["atoms"][0]["name"]
    failing(lambda: h["Nope", n, (0, 0, 0)])
    failing(lambda: h[n, n, (9, 9, 9)])
    failing(lambda: h.remove_exchange(n, n, (9, 9, 9)))
    failing(lambda: h.remove_exchange("Nope", n, (9, 9, 9)))
    failing(lambda: h.remove_on_site("Nope"))
    failing(lambda: h.remove_atom("Nope"))
    failing(lambda: h.add_exchange("Nope", n, (1, 0, 0), iso=1))
    failing(lambda: h.add_exchange(n, "Nope", (1, 0, 0), iso=1))
    failing(lambda: h.add_on_site("Nope", iso=1))
    failing(lambda: h.__delitem__((n, n, (9, 9, 9))))
    failing(lambda: h.get_atom("Nope"))
    failing(lambda: h.add_exchange(n, n, (1, 0, 0), matrix=[[1, 2], [3, 4]]))
    failing(lambda: h.add_on_site(n, matrix=np.zeros((2, 2))))


def bad_calls(h, spec, p, d):
    from magnopy import Energy, dump_spinham_hdf5, dump_spinham_txt

    e = Energy(h)
    n = len(gen.magnetic_ids(spec))
    failing(lambda: e.ferro(np.zeros((n + 1, 3))))
    failing(lambda: e.ferro([[0, 0, 0]] * n))
    failing(lambda: e.spiral(np.array(p["dirs"][:n]), None, [1, 2]))
    failing(lambda: e.optimize(case="nothing"))
    failing(lambda: setattr(e, "spins", [1.0] * (n + 1)))
    failing(lambda: setattr(e, "magnetic_field", [1, 2]))
    failing(lambda: dump_spinham_txt(h, filename=os.path.join(d, "no/such/dir/h.txt")))
    failing(lambda: dump_spinham_hdf5(h, os.path.join(d, "no/such/dir/h.hdf5")))
    failing(lambda: setattr(h, "cone_axis", [1, 2]))
    failing(lambda: setattr(h, "spiral_vector", "abc"))
    failing(lambda: setattr(h, "spiral_vector", [1, 2]))


USES = [
    energy_ferro,
    energy_antiferro,
    energy_spiral,
    optimize,
    dispersion,
    dispersion_kept,
    dump_txt,
    dump_hdf5,
    dump_hdf5_refused,
    vampire,
    vampire_bad,
    copied,
    filtered,
    filtered_bad,
    crystal,
    listings,
    interrupted_listing,
    parameters,
    geometry,
    notation_reads,
    bad_notation,
    bad_keys,
    bad_calls,
]
# uses that have a meaning without the notation; the rest has to fail and to change nothing
FREE = {
    "copied",
    "filtered_bad",
    "crystal",
    "listings",
    "interrupted_listing",
    "parameters",
    "geometry",
    "notation_reads",
    "bad_notation",
    "bad_keys",
}


@st.composite
def cases(draw, notation=True):
    spec = draw(gen.model(max_atoms=3, min_bonds=0, max_bonds=4, r_max=2, charge=True, vectors=True))
    if not gen.magnetic_ids(spec):
        spec["onsite"] = [[0, draw(gen.matrix())]]
    steps = draw(
        st.lists(
            st.fixed_dictionaries(
                {
                    "use": st.integers(0, len(USES) - 1),
                    "n": st.integers(0, 27),
                    "dirs": gen.directions(3),
                    "axis": gen.unit_like(),
                    "notation": st.just(1),
                }
            ),
            min_size=1,
            max_size=5,
        )
    )
    case = {"model": spec, "steps": steps, "change": draw(st.one_of(st.none(), gen.notation4())), "target": draw(gen.notation4())}
    if not notation:
        case["missing"] = draw(st.lists(st.integers(0, 3), min_size=1, max_size=4, unique=True))
        case["change"] = None
    return case


def construct(case):
    spec = case["model"]
    if "missing" in case:
        h = ref.build(dict(spec, notation=None))
        for k, part in enumerate(ref.NOTATION_PARTS):
            if k not in case["missing"]:
                setattr(h, part, spec["notation"][k])
    else:
        h = ref.build(spec)
        if case["change"] is not None:
            h.notation = tuple(case["change"])
    return h


def run(case, ctx):
    spec = case["model"]
    h = construct(case)
    before = ref.snapshot(h)
    results = []
    with tempfile.TemporaryDirectory() as d:
        for repeat in range(2):
            for k, p in enumerate(case["steps"]):
                use = USES[p["use"]]
                if "missing" in case and use.__name__ not in FREE:
                    r = None
                    failing(lambda: use(h, spec, p, d))
                else:
                    r = use(h, spec, p, d)
                if use is bad_notation and r == "changed":
                    fail(f"notation {p['n'] % 7} of a wrong form is accepted")
                ref.same_snapshot(before, ref.snapshot(h), f"{use.__name__} ({p['n']})")
                # the same question has the same answer
                if repeat == 0:
                    results.append(r)
                elif r is not None:
                    same_result(results[k], r, f"{use.__name__} ({p['n']}) repeated")
                ctx.label(use.__name__)
    # nothing hidden has changed either: the used and the fresh object have the same future
    fresh = construct(case)
    for x in (h, fresh):
        x.notation = tuple(case["target"])
    same_result(ref.snapshot(fresh), ref.snapshot(h), "future of the used Hamiltonian")


def same_result(a, b, what):
    if isinstance(a, float) and isinstance(b, float):
        close(b, a, what, 1e-9)
    elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        ensure(len(a) == len(b), f"{what}: {b}, expected {a}")
        for x, y in zip(a, b):
            same_result(x, y, what)
    elif isinstance(a, dict):
        for k in a:
            same_result(a[k], b[k], f"{what}: {k}")
    else:
        ensure(a == b, f"{what}: {b}, expected {a}")


SUBCHECKS = [
    SubCheck(
        "uses",
        cases(),
        run,
        quick=2400,
        thorough=40000,
        rule="histories of up to five read-only or failing uses out of 24, all twice; non-trivial: the model has bonds and at least two uses",
        nontrivial=lambda c: bool(c["model"]["bonds"]) and len(c["steps"]) > 1,
    ),
    SubCheck(
        "undefined notation",
        cases(notation=False),
        run,
        quick=800,
        thorough=12000,
        rule="the same with some parts of the notation undefined, uses that need them have to fail",
        nontrivial=lambda c: bool(c["model"]["bonds"]),
    ),
]
ASSUMPTIONS = ["spins are not zero"]
