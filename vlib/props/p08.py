import itertools
import math

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.core import SubCheck, close, ensure, num
from vlib.props.p07 import FIELD


@st.composite
def cases(draw):
    spec = draw(gen.model(min_atoms=1, max_atoms=3, min_bonds=0, max_bonds=5, wide=True))
    if not gen.magnetic_ids(spec):
        spec["onsite"] = [[0, draw(gen.matrix())]]
    n = len(gen.magnetic_ids(spec))
    kind = draw(st.sampled_from(["spiral", "spiral-rational", "antiferro"]))
    if kind == "spiral":
        q = draw(gen.vec(gen.real(-1, 1, 16)))
    elif kind == "spiral-rational":
        # q = p/m in units of reciprocal vectors, period at least three
        m = [draw(st.sampled_from([1, 1, 2, 3, 4, 5, 6])) for _ in range(3)]
        ax = draw(st.integers(0, 2))
        m[ax] = draw(st.sampled_from([3, 4, 5]))
        p = [draw(st.integers(-6, 6)) for _ in range(3)]
        p[ax] = draw(st.sampled_from([1, -1, 1 + m[ax], 2 if m[ax] in (3, 5) else 1]))
        q = [[p[k], m[k]] for k in range(3)]
    else:
        q = [draw(st.integers(-2, 2)) for _ in range(3)]
        if all(x % 2 == 0 for x in q):
            q[draw(st.integers(0, 2))] += 1
    return {
        "model": spec,
        "kind": kind,
        "q": q,
        "axis": draw(gen.unit_like()),
        "axis_scale": draw(st.sampled_from([1.0, 3.0, 0.2])),
        "dirs": draw(gen.directions(n)),
        "field": draw(FIELD),
        "change": draw(st.one_of(st.none(), st.none(), gen.notation4())),
        "bare": draw(st.booleans()),
    }


def supercell_phases(m, p):
    """Phases q.R0 over one period of the commensurate supercell."""
    phases = []
    for r in itertools.product(*[range(x) for x in m]):
        phases.append(2 * math.pi * sum(p[k] * r[k] / m[k] for k in range(3)))
    return phases


def run(case, ctx):
    from magnopy import Energy

    spec = case["model"]
    h = ref.build(spec)
    if case["change"] is not None:
        h.notation = tuple(case["change"])
    e = Energy(h)
    field = case["field"]
    s = ref.spins_of(spec)
    scale = ref.scale_of(spec)
    if field is not None:
        e.magnetic_field = field
        scale += 1e-3 * max(abs(x) for x in field) * sum(x * abs(a["g"]) for x, a in zip(s, spec["atoms"]))
    rec = ref.reciprocal(spec["cell"])
    dirs = np.array(case["dirs"], dtype=float)
    axis = np.array(case["axis"], dtype=float) * case["axis_scale"]
    arg = dirs[0] if case["bare"] and len(dirs) == 1 else dirs
    keep = (dirs.copy(), axis.copy())
    if case["kind"] == "spiral":
        q = np.array(case["q"])
        phases = [2 * math.pi * k / 8 for k in range(8)]
        got = e.spiral(arg, axis, q)
    elif case["kind"] == "spiral-rational":
        p = [x[0] for x in case["q"]]
        m = [x[1] for x in case["q"]]
        q = (np.array(p) / np.array(m)) @ rec
        phases = supercell_phases(m, p)
        got = e.spiral(arg, axis, q)
    else:
        q = np.array(case["q"]) @ rec / 2
        phases = [math.pi * sum(c * r for c, r in zip(case["q"], rr)) for rr in itertools.product((0, 1), repeat=3)]
        got = e.antiferro(arg, axis, q)
    expected = ref.rotated_energy(spec, case["dirs"], case["axis"], q, phases, field)
    close(num(got, "energy"), expected, f"{case['kind']} energy", 1e-9, scale)
    ensure((dirs == keep[0]).all() and (axis == keep[1]).all(), "arguments of the user were modified")
    if case["kind"] == "antiferro":
        # another vector of the same star: q + G
        g = np.array([2 * x for x in case["q"]][::-1]) @ rec / 2
        close(num(e.antiferro(dirs, axis, q + g), "energy"), expected, "antiferro energy for q + G", 1e-9, scale)
    # opposite axis and vector is the same state
    if case["kind"] != "antiferro":
        close(num(e.spiral(dirs.tolist(), (-axis).tolist(), (-q).tolist()), "energy"), expected, "spiral energy for -n, -q", 1e-9, scale)
    ctx.label(case["kind"])
    if field is not None:
        ctx.label("field")
    if any(r != [0, 0, 0] for _, _, r, _ in spec["bonds"]):
        ctx.label("bonds between cells")


def nontrivial(c):
    return any(r != [0, 0, 0] for _, _, r, _ in c["model"]["bonds"])


SUBCHECKS = [
    SubCheck(
        "average",
        cases(),
        run,
        quick=4000,
        thorough=50000,
        rule="model x axis x q (generic, rational of period >= 3, half of a reciprocal vector) x directions x field; non-trivial: a bond between different cells",
        nontrivial=nontrivial,
    )
]
ASSUMPTIONS = [
    "for spiral 2q is not a reciprocal lattice vector (average over phases of the second harmonic vanishes)",
    "for antiferro 2q is a reciprocal lattice vector and q is not",
]
