"""Settings keep the last accepted value; arguments that can not be used are refused."""

import math
import os

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.core import SubCheck, arr, close, ensure, fail, num, raises

# vectors are given in several forms; what is stored is a copy of the numbers
FORM = st.sampled_from(["list", "tuple", "array", "column", "ints", "strings of numbers"])


def give(v, form):
    if form == "tuple":
        return tuple(v)
    if form == "array":
        return np.array(v, dtype=float)
    if form == "column":
        return np.array([v, v], dtype=float).T[:, 0]
    if form == "ints":
        return [int(x) if float(x).is_integer() else x for x in v]
    if form == "strings of numbers":
        return [repr(float(x)) for x in v]
    return list(v)


def spoil(given):
    """The caller goes on using the array."""
    if isinstance(given, np.ndarray):
        given *= -3.5
    elif isinstance(given, list):
        given[:] = [77.0] * len(given)


BAD_VECTOR = {
    "two": [1.0, 2.0],
    "four": [1.0, 2.0, 3.0, 4.0],
    "empty": [],
    "matrix": [[1.0, 0, 0], [0, 1, 0], [0, 0, 1]],
    "row": [[1.0, 2.0, 3.0]],
    "column": [[1.0], [2.0], [3.0]],
    "number": 5.0,
    "word": "abc",
    "words": ["a", "b", "c"],
    "ragged": [1.0, [2.0], 3.0],
    "dictionary": {"x": 1.0, "y": 2.0, "z": 3.0},
    "complex": [1.0, 2.0, 1j],
    "nothing inside": [1.0, "None", 2.0],
}

VSTEP = st.one_of(
    st.tuples(st.just("axis"), gen.unit_like(), FORM),
    st.tuples(st.just("vector"), gen.vec(gen.real(-2, 2)), FORM),
    st.tuples(st.just("bad-axis"), st.sampled_from(sorted(BAD_VECTOR) + ["none"]), FORM),
    st.tuples(st.just("bad-vector"), st.sampled_from(sorted(BAD_VECTOR) + ["none"]), FORM),
    st.tuples(st.just("zero-axis"), st.just(0), FORM),
    st.tuples(st.just("other"), st.integers(0, 4), FORM),
).map(list)


def run_vectors(case, ctx):
    """cone_axis and spiral_vector of the Hamiltonian."""
    spec = dict(case["model"], cone_axis=None, spiral_vector=None)
    h = ref.build(spec)
    axis = vector = None
    state = ref.snapshot(h)
    state.pop("cone_axis"), state.pop("spiral_vector")
    for k, (kind, value, form) in enumerate(case["steps"]):
        where = f"step {k} {kind} {value}"
        if kind == "axis":
            given = give(value, form)
            h.cone_axis = given
            spoil(given)
            axis = np.array(value) / np.linalg.norm(value)
        elif kind == "vector":
            given = give(value, form)
            h.spiral_vector = given
            spoil(given)
            vector = np.array(value)
        elif kind == "zero-axis":
            raises(ValueError, lambda: setattr(h, "cone_axis", give([0, 0, 0], form)), where)
            ctx.label("refused")
        elif kind in ("bad-axis", "bad-vector"):
            bad = None if value == "none" else BAD_VECTOR[value]
            name = "cone_axis" if kind == "bad-axis" else "spiral_vector"
            if value == "complex":
                bad = list(bad)
            raises(ValueError, lambda: setattr(h, name, bad), where)
            ctx.label("refused")
        else:
            if value == 0:
                h = h.copy()
            elif value == 1:
                h.notation = "SpinW"
                state = ref.snapshot(h)
            elif value == 2:
                h.notation = "Vampire"
                state = ref.snapshot(h)
            elif value == 3:
                c = h.copy()
                c.cone_axis, c.spiral_vector = [1, 5, 2], [9, 9, 9]
            else:
                h = h.filtered(max_distance=1e9)
            state.pop("cone_axis", None), state.pop("spiral_vector", None)
        for what, got, exp in (("cone axis", h.cone_axis, axis), ("spiral vector", h.spiral_vector, vector)):
            if exp is None:
                ensure(got is None, f"{where}: {what} is {got}, expected None")
            else:
                close(arr(got, (3,), what), exp, f"{where}: {what}", 1e-12)
    now = ref.snapshot(h)
    now.pop("cone_axis"), now.pop("spiral_vector")
    if not any(s[0] == "other" for s in case["steps"]):
        ref.same_snapshot(state, now, "after setting the vectors")


# ---------------------------------------------------------------- settings of Energy

ESTEP = st.one_of(
    st.tuples(st.just("field"), st.one_of(st.none(), gen.vec(gen.grid(-20, 20, 4))), FORM),
    st.tuples(st.just("spins"), st.lists(gen.grid(0.25, 4, 8), min_size=4, max_size=4), FORM),
    st.tuples(st.just("g"), st.lists(gen.grid(-3, 3, 8), min_size=4, max_size=4), FORM),
    st.tuples(st.just("m"), st.one_of(st.integers(1, 40), st.sampled_from(["7", 3.0])), FORM),
    st.tuples(st.just("c1"), st.one_of(gen.grid(0, 1, 16), st.just("0.125")), FORM),
    st.tuples(st.just("c2"), st.one_of(gen.grid(0, 1, 16), st.just("0.5"), st.just(1)), FORM),
    st.tuples(st.just("bad-field"), st.sampled_from(sorted(BAD_VECTOR)), FORM),
    st.tuples(st.just("bad-list"), st.tuples(st.sampled_from(["spins", "g_factors"]), st.sampled_from(["short", "long", "empty", "word", "number", "none", "vectors", "nothing"])), FORM),
    st.tuples(st.just("bad-number"), st.tuples(st.sampled_from(["m", "wolfe_c1", "wolfe_c2"]), st.sampled_from(["word", "list", "none", "complex", "dictionary"])), FORM),
    st.tuples(st.just("hamiltonian"), st.integers(0, 3), FORM),
).map(list)


def bad_list(kind, n):
    return {
        "short": [1.0] * (n - 1),
        "long": [1.0] * (n + 1),
        "empty": [],
        "word": [1.0] * (n - 1) + ["a"],
        "number": 1.5,
        "none": [None] + [1.0] * (n - 1),
        "vectors": [[1.0, 2.0]] * n,
        "nothing": None,
    }[kind]


def run_energy(case, ctx):
    from magnopy import Energy

    spec = case["model"]
    h = ref.build(spec)
    e = Energy(h)
    ids = gen.magnetic_ids(spec)
    n = len(ids)
    now = ref.deep(spec)
    state = {
        "m": 10,
        "wolfe_c1": 1e-4,
        "wolfe_c2": 0.9,
        "magnetic_field": None,
        "g_factors": [spec["atoms"][k]["g"] for k in ids],
        "spins": [ref.spins_of(spec)[k] for k in ids],
    }
    dirs, axis, q = np.array(case["dirs"])[:n], np.array(case["axis"]), np.array(case["q"])
    for k, (kind, value, form) in enumerate(case["steps"]):
        where = f"step {k} {kind} {value}"
        if kind == "field":
            given = None if value is None else give(value, form)
            e.magnetic_field = given
            spoil(given)
            state["magnetic_field"] = value
        elif kind in ("spins", "g"):
            name = "spins" if kind == "spins" else "g_factors"
            given = give(value[:n], form if form != "column" else "array")
            setattr(e, name, given)
            spoil(given)
            state[name] = value[:n]
        elif kind in ("m", "c1", "c2"):
            name = {"m": "m", "c1": "wolfe_c1", "c2": "wolfe_c2"}[kind]
            setattr(e, name, value)
            state[name] = int(value) if kind == "m" else float(value)
        elif kind == "bad-field":
            raises(ValueError, lambda: setattr(e, "magnetic_field", BAD_VECTOR[value]), where)
            ctx.label("refused field")
        elif kind == "bad-list":
            raises(ValueError, lambda: setattr(e, value[0], bad_list(value[1], n)), where)
            ctx.label(f"refused {value[0]}")
        elif kind == "bad-number":
            bad = {"word": "abc", "list": [1], "none": None, "complex": 1j, "dictionary": {}}[value[1]]
            raises(ValueError, lambda: setattr(e, value[0], bad), where)
            ctx.label(f"refused {value[0]}")
        else:
            # the Hamiltonian is edited after the energy was created
            if value == 0:
                h.atoms[ids[0]].g_factor = 9.0
            elif value == 1:
                h.atoms[ids[0]].spin = 7.0
            elif value == 2:
                h.notation = "TB2J"
            else:
                h.remove_atom(h.atoms[0])
                h, ids_left = ref.build(spec), None
        for name, exp in state.items():
            got = getattr(e, name)
            if exp is None:
                ensure(got is None, f"{where}: {name} is {got}")
            elif isinstance(exp, list):
                close(arr(got, (len(exp),), name), exp, f"{where}: {name}", 1e-12)
            else:
                close(num(got, name), exp, f"{where}: {name}", 1e-15)
        # energies follow the settings
        for a, s, g in zip(ids, state["spins"], state["g_factors"]):
            now["atoms"][a]["g"] = g
        energies(e, spec, now, ids, state, dirs, axis, q, where)


def energies(e, spec, now, ids, state, dirs, axis, q, where):
    """Energies with other spins: the tensors of normalized parameters scale with the spins."""
    s0 = np.array([ref.spins_of(spec)[k] for k in ids])
    s1 = np.array(state["spins"])
    pairs, sites = ref.physical(spec)
    index = {a: n for n, a in enumerate(ids)}
    ratio = s1 / s0
    d = ref.normed(dirs)
    total = 0.0
    for (a, b, _), t in pairs.items():
        i, j = index[a], index[b]
        total += ratio[i] * ratio[j] * (d[i] @ t @ d[j])
    for a, t in sites.items():
        i = index[a]
        total += ratio[i] ** 2 * (d[i] @ t @ d[i])
    if state["magnetic_field"] is not None:
        for i in range(len(ids)):
            total += ref.MU_B * state["g_factors"][i] * s1[i] * (np.array(state["magnetic_field"]) @ d[i])
    scale = ref.scale_of(spec) * max(1.0, ratio.max() ** 2) + 100
    close(num(e.ferro(dirs), "energy"), total, f"{where}: ferro energy", 1e-10, scale)


# ---------------------------------------------------------------- arguments of the energies and of optimize

SPINS_BAD = ["word", "few", "many", "flat", "two columns", "four columns", "nothing", "cube", "number", "one", "layers"]
CALL_BAD = [
    "spins", "axis", "vector", "case", "tolerance", "tolerance-value", "number", "guess-spins", "guess-axis", "guess-vector", "guess-length", "antiferro_q",
]


def bad_spins(kind, n):
    return {
        "word": "abc",
        "few": [[0.0, 0.0, 1.0]] * (n - 1) if n > 1 else [[0.0, 1.0]],
        "many": [[0.0, 0.0, 1.0]] * (n + 1),
        "flat": [1.0] * (3 * n) if n > 1 else [1.0, 2.0],
        "two columns": [[0.0, 1.0]] * n,
        "four columns": [[0.0, 1.0, 0.0, 0.0]] * n,
        "nothing": [],
        "cube": [[[0.0, 0.0, 1.0]] * 3] * n,
        "layers": [[[0.0, 0.0, 1.0]]] * n,
        "number": 1.0,
        # one vector is accepted only for one spin
        "one": [0.0, 0.0, 1.0] if n > 1 else [[0.0, 0.0, 1.0]] * 2,
    }[kind]


@st.composite
def calls(draw):
    spec = draw(gen.model(min_atoms=1, max_atoms=3, min_bonds=1, max_bonds=3))
    return {
        "model": spec,
        "bad": draw(
            st.lists(
                st.tuples(st.sampled_from(CALL_BAD), st.sampled_from(["ferro", "antiferro", "spiral"]), st.integers(0, 40)).map(list),
                min_size=1,
                max_size=5,
            )
        ),
        "dirs": draw(gen.directions(3)),
        "axis": draw(gen.unit_like()),
        "q": draw(gen.vec(gen.grid(-1, 1, 8))),
    }


def run_calls(case, ctx):
    from magnopy import Energy

    spec = case["model"]
    e = Energy(ref.build(spec))
    ids = gen.magnetic_ids(spec)
    n = len(ids)
    dirs, axis, q = np.array(case["dirs"])[:n], np.array(case["axis"]), np.array(case["q"])
    vectors = [BAD_VECTOR[k] for k in sorted(BAD_VECTOR)]
    before = (float(e.ferro(dirs)), float(e.spiral(dirs, axis, q)))
    for what, kind, k in case["bad"]:
        bs = bad_spins(SPINS_BAD[k % len(SPINS_BAD)], n)
        bv = vectors[k % len(vectors)]
        rest = [] if kind == "ferro" else [axis, q]
        guess = {"ferro": dirs, "antiferro": (dirs, axis), "spiral": (dirs, axis, q)}[kind]
        kw = {"max_iterations": 1}
        if kind == "antiferro":
            kw["antiferro_q"] = q
        call = None
        if what == "spins":
            call = lambda: getattr(e, kind)(bs, *rest)
        elif what in ("axis", "vector"):
            if kind == "ferro":
                kind = "spiral"
            args = [dirs, bv, q] if what == "axis" else [dirs, axis, bv]
            call = lambda: getattr(e, kind)(*args)
        elif what == "case":
            bad = ["Ferro", "fm", 3, -1, None, "", "ferro ", "spirals", "2", 0.5][k % 10]
            call = lambda: e.optimize(bad, initial_guess=guess, **kw)
        elif what == "tolerance":
            good = 2 if kind == "ferro" else 3
            size = [0, 1, 4, 5 - good][k % 4]
            call = lambda: e.optimize(kind, initial_guess=guess, tolerance=(1e-5,) * size, **kw)
        elif what == "tolerance-value":
            good = 2 if kind == "ferro" else 3
            bad = [1e-5, "ab"[: good], (1e-5,) * (good - 1) + (None,), ("x",) + (1e-5,) * (good - 1), [[1e-5, 1e-5]] * good][k % 5]
            if bad == "ab" and good == 3:
                bad = "abc"
            call = lambda: e.optimize(kind, initial_guess=guess, tolerance=bad, **kw)
        elif what == "number":
            name = ["max_iterations", "history_step"][k % 2]
            bad = ["x", [1, 2], "", {}][k % 4]
            call = lambda: e.optimize(kind, initial_guess=guess, **dict(kw, **{name: bad}))
        elif what == "guess-spins":
            g = {"ferro": bs, "antiferro": (bs, axis), "spiral": (bs, axis, q)}[kind]
            call = lambda: e.optimize(kind, initial_guess=g, **kw)
        elif what == "guess-axis" and kind != "ferro":
            g = (dirs, bv) if kind == "antiferro" else (dirs, bv, q)
            call = lambda: e.optimize(kind, initial_guess=g, **kw)
        elif what == "guess-vector" and kind == "spiral":
            call = lambda: e.optimize(kind, initial_guess=(dirs, axis, bv), **kw)
        elif what == "guess-length" and kind != "ferro":
            g = [(), (dirs,), (dirs, axis, q, q), (dirs, axis, q) if kind == "antiferro" else (dirs, axis), 5.0][k % 5]
            call = lambda: e.optimize(kind, initial_guess=g, **kw)
        elif what == "antiferro_q":
            bad = None if k % 5 == 0 else bv
            call = lambda: e.optimize("antiferro", initial_guess=(dirs, axis), antiferro_q=bad, max_iterations=1)
        if call is None:
            continue
        path = os.path.join(os.getcwd(), "nothing")
        raises(ValueError, call, f"{kind} with wrong {what} ({k})")
        ctx.label(f"wrong {what}")
        after = (float(e.ferro(dirs)), float(e.spiral(dirs, axis, q)))
        close(after, before, f"energies after the refused {what}", 1e-12)


@st.composite
def energy_cases(draw):
    spec = draw(gen.model(min_atoms=1, max_atoms=4, min_bonds=1, max_bonds=4))
    return {
        "model": spec,
        "steps": draw(st.lists(ESTEP, min_size=1, max_size=8)),
        "dirs": draw(gen.directions(4)),
        "axis": draw(gen.unit_like()),
        "q": draw(gen.vec(gen.grid(-1, 1, 8))),
    }


SUBCHECKS = [
    SubCheck(
        "vectors",
        st.fixed_dictionaries({"model": gen.model(max_atoms=2, max_bonds=2), "steps": st.lists(VSTEP, min_size=1, max_size=7)}),
        run_vectors,
        quick=3000,
        thorough=60000,
        rule="histories of cone_axis and spiral_vector with good and bad values; non-trivial: both kinds",
        nontrivial=lambda c: any(s[0] in ("axis", "vector") for s in c["steps"]) and any("bad" in s[0] or "zero" in s[0] for s in c["steps"]),
    ),
    SubCheck(
        "energy",
        energy_cases(),
        run_energy,
        quick=3000,
        thorough=60000,
        rule="histories of the settings of Energy with good and bad values; non-trivial: both kinds",
        nontrivial=lambda c: any(s[0].startswith("bad") for s in c["steps"]) and any(not s[0].startswith("bad") for s in c["steps"]),
    ),
    SubCheck(
        "calls",
        calls(),
        run_calls,
        quick=2500,
        thorough=40000,
        rule="calls with arguments of wrong form; every case is non-trivial",
    ),
]
ASSUMPTIONS = ["vectors shorter than 1e-7 as the cone axis are not tried", "m is at least one"]
