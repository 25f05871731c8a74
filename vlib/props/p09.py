import contextlib
import io
import math
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.core import SubCheck, arr, close, ensure, fail, num
from vlib.props.p07 import FIELD

PH8 = [2 * math.pi * k / 8 for k in range(8)]


TOLERANCE = st.sampled_from([10.0, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6])


@st.composite
def cases(draw, kinds):
    kind = draw(st.sampled_from(kinds))
    spec = draw(gen.model(min_atoms=1, max_atoms=3, min_bonds=1, max_bonds=4, r_max=1, wide=True))
    n = len(gen.magnetic_ids(spec))
    guess = draw(st.sampled_from(["full", "full", "full", "partial", "none"]))
    q = [draw(st.integers(-1, 1)) for _ in range(3)]
    if not any(q):
        q[draw(st.integers(0, 2))] = 1
    return {
        "model": spec,
        "case": kind,
        "by_number": draw(st.booleans()),
        "guess": guess,
        "dirs": draw(gen.directions(n)),
        "axis": draw(gen.unit_like()),
        "q": q if kind == "antiferro" else draw(gen.vec(gen.grid(-1, 1, 8))),
        "field": draw(st.one_of(st.none(), FIELD)),
        "max_iterations": draw(
            st.sampled_from([None, None, 0, 1, 2, 5, 30, 200] if kind == "ferro" else [0, 1, 2, 5, 12, 40])
        ),
        "tolerance": draw(st.one_of(st.none(), TOLERANCE, st.lists(TOLERANCE, min_size=3, max_size=3))),
        "wolfe": draw(st.one_of(st.none(), st.none(), st.sampled_from([[1e-3, 0.5], [0.1, 0.9], [1e-4, 0.99], [0.2, 0.3]]))),
        "history": draw(st.sampled_from(["no", "yes", "yes", "existing", "stdout"])),
        "history_step": draw(st.sampled_from([None, 1, 2, 3, 7])),
        "m": draw(st.sampled_from([None, 1, 2, 5, 15, 40])),
        "bare": draw(st.booleans()),
        "optimum": draw(st.sampled_from([False, False, True])),
    }


def energy_of(spec, kind, state, field):
    if kind == "ferro":
        return ref.ferro_energy(spec, state[0], field)
    if kind == "antiferro":
        return ref.rotated_energy(spec, state[0], state[1], state[2], [0.0, math.pi], field)
    return ref.rotated_energy(spec, state[0], state[1], state[2], PH8, field)


def torque(spec, dirs, field):
    ids = gen.magnetic_ids(spec)
    e = dict(zip(ids, ref.normed(dirs)))
    g = {k: np.zeros(3) for k in ids}
    pairs, sites = ref.physical(spec)
    for (i, j, _), t in pairs.items():
        g[i] += t @ e[j]
        g[j] += t.T @ e[i]
    for k, t in sites.items():
        g[k] += (t + t.T) @ e[k]
    s = ref.spins_of(spec)
    if field is not None:
        for k in ids:
            g[k] += ref.MU_B * spec["atoms"][k]["g"] * s[k] * np.array(field)
    return max(np.linalg.norm(np.cross(e[k], g[k])) for k in ids)


def read_history(path, kind, n):
    lines = open(path).read().split("\n")
    head = lines[0].split()
    ncol = {"ferro": 2 + 3 * n, "antiferro": 3 + 3 * n + 6, "spiral": 3 + 3 * n + 6}[kind]
    ensure(len(head) == ncol, f"header of the history has {len(head)} columns, expected {ncol}")
    rows = []
    for line in lines[1:]:
        if not line.strip():
            continue
        try:
            row = [float(x) for x in line.split()]
        except ValueError:
            fail(f"history line is not numeric: {line!r}")
        ensure(len(row) == ncol, f"history line has {len(row)} columns, expected {ncol}: {line!r}")
        rows.append(row)
    skip = 2 if kind == "ferro" else 3
    out = []
    for row in rows:
        spins = np.array(row[skip : skip + 3 * n]).reshape(n, 3)
        state = [spins]
        if kind != "ferro":
            state += [np.array(row[skip + 3 * n : skip + 3 * n + 3]), np.array(row[skip + 3 * n + 3 :])]
        out.append((row[0], state))
    return out


def run(case, ctx):
    from magnopy import Energy

    spec, kind, field = case["model"], case["case"], case["field"]
    h = ref.build(spec)
    e = Energy(h)
    if field is not None:
        e.magnetic_field = field
    if case["m"] is not None:
        e.m = case["m"]
    if case.get("wolfe") is not None:
        e.wolfe_c1, e.wolfe_c2 = case["wolfe"]
    ids = gen.magnetic_ids(spec)
    n = len(ids)
    s = ref.spins_of(spec)
    scale = ref.scale_of(spec)
    if field is not None:
        scale += 0.1 * max(abs(x) for x in field) * sum(s[k] * abs(spec["atoms"][k]["g"]) for k in ids)
    rec = ref.reciprocal(spec["cell"])
    q = np.array(case["q"]) @ rec / 2 if kind == "antiferro" else np.array(case["q"])

    dirs, axis = np.array(case["dirs"]), np.array(case["axis"])
    kwargs = {"case": {"ferro": 0, "antiferro": 1, "spiral": 2}[kind] if case["by_number"] else kind}
    tol = case["tolerance"]
    if tol is not None:
        tol = tol if isinstance(tol, list) else [tol] * 3
        kwargs["tolerance"] = tuple(tol[: 2 if kind == "ferro" else 3])
    if case["max_iterations"] is not None:
        kwargs["max_iterations"] = case["max_iterations"]
    q_arg = q.copy()
    if kind == "antiferro":
        kwargs["antiferro_q"] = q_arg
    guess_known = case["guess"] == "full"
    if case["optimum"] and kind == "ferro":
        # start from a state that is already optimal
        dirs = np.array(e.optimize("ferro", initial_guess=dirs.copy(), max_iterations=500)[0])
        ctx.label("start from the optimum")
    d_arg = dirs.copy()
    if case["bare"] and n == 1:
        d_arg = d_arg[0]
    a_arg = axis.copy()
    if case["guess"] == "full":
        kwargs["initial_guess"] = {"ferro": d_arg, "antiferro": (d_arg, a_arg), "spiral": (d_arg, a_arg, q_arg)}[kind]
    elif case["guess"] == "partial" and kind != "ferro":
        kwargs["initial_guess"] = {"antiferro": (d_arg, None), "spiral": (None, a_arg, q_arg)}[kind]
    path = None
    printed = io.StringIO()
    if case["history"] == "stdout":
        kwargs["save_history"] = True
        if case["history_step"] is not None:
            kwargs["history_step"] = case["history_step"]
    elif case["history"] != "no":
        fd, path = tempfile.mkstemp(dir=os.getcwd())
        os.close(fd)
        os.unlink(path)
        kwargs.update(save_history=True, history_filename=path)
        if case["history"] == "existing":
            # of an earlier minimization
            with open(path, "w") as f:
                f.write("         Energy      Torque\n" + " 1.0" * 5)
        if case["history_step"] is not None:
            kwargs["history_step"] = case["history_step"]
    keep = (d_arg.copy(), a_arg.copy(), q_arg.copy())
    with contextlib.redirect_stdout(printed):
        result = e.optimize(**kwargs)
    if case["history"] == "stdout":
        fd, path = tempfile.mkstemp(dir=os.getcwd())
        os.write(fd, printed.getvalue().encode())
        os.close(fd)
    else:
        ensure(printed.getvalue() == "", f"printed without being asked: {printed.getvalue()[:200]!r}")
    ensure(
        (d_arg == keep[0]).all() and (a_arg == keep[1]).all() and (q_arg == keep[2]).all(),
        "initial guess was modified",
    )
    ensure(len(result) == (1 if kind == "ferro" else 3), f"{len(result)} elements are returned")
    spins = arr(result[0], (n, 3), "spins")
    ensure(np.all(np.isfinite(spins)), "spins are not finite")
    close(np.linalg.norm(spins, axis=1), np.ones(n), "lengths of spins", 1e-8)
    state = [spins]
    if kind != "ferro":
        ax = arr(result[1], (3,), "cone axis")
        qq = arr(result[2], (3,), "spiral vector")
        close(np.linalg.norm(ax), 1.0, "length of the cone axis", 1e-8)
        ensure(np.all(np.isfinite(qq)), "spiral vector is not finite")
        if kind == "antiferro":
            close(qq, q, "vector of the antiferro state", 1e-12)
        state += [ax, qq]
    final = energy_of(spec, kind, state, field)
    start = None
    if guess_known:
        start = energy_of(spec, kind, [dirs, axis, q], field)
        ensure(final <= start + 1e-9 * scale, f"energy {final} of the result is above {start} of the guess")
        ctx.label("energy decreased" if final < start - 1e-6 * scale else "energy kept")
        if case["max_iterations"] == 0:
            close(spins, ref.normed(dirs), "spins after zero iterations", 1e-12)
            if kind != "ferro":
                close(state[1], ref.normed(axis), "axis after zero iterations", 1e-12)
                close(state[2], q, "vector after zero iterations", 1e-12)
    if kind == "ferro" and case["max_iterations"] is None:
        t = torque(spec, spins, field)
        bound = (tol[1] if tol is not None else 1e-5) * 1.01 + 2e-6 * scale
        ensure(t <= bound, f"torque {t} of the converged state is above the tolerance {bound}")
        ctx.label("converged")
    if path is not None:
        try:
            ensure(os.path.exists(path), "history file was not written")
            hist = read_history(path, kind, n)
        finally:
            if os.path.exists(path):
                os.unlink(path)
        ensure(len(hist) > 0, "history is empty")
        if case["max_iterations"] is not None:
            ensure(
                len(hist) <= case["max_iterations"] + 1,
                f"{len(hist) - 1} iterations in the history, allowed {case['max_iterations']}",
            )
        # printed with eight decimals
        qs = 1.0 + np.abs(np.array(spec["cell"])).max() * 3
        ptol = 3e-8 * scale * qs * n + 1e-8
        if guess_known:
            close(hist[0][1][0], ref.normed(dirs), "spins of the first line", 2e-8)
            if kind != "ferro":
                close(hist[0][1][1], ref.normed(axis), "axis of the first line", 2e-8)
                close(hist[0][1][2], q, "vector of the first line", 2e-8, 1.0)
        for what, got, exp in zip(("spins", "axis", "vector"), hist[-1][1], state):
            close(got, exp, f"{what} of the last line", 2e-8, 1.0)
        previous = None
        for k, (en, st_) in enumerate(hist):
            close(en, energy_of(spec, kind, st_, field), f"energy in the line {k}", ptol * 10, 1.0)
            if previous is not None:
                ensure(en <= previous + 1e-8 * max(1.0, abs(previous)) * 2, f"energy grows from {previous} to {en} in the line {k}")
            previous = en
        close(hist[-1][0], final, "energy of the last line", ptol, 1.0)
        if guess_known:
            close(hist[0][0], start, "energy of the first line", ptol, 1.0)
        else:
            ensure(final <= hist[0][0] + ptol, f"final energy {final} is above the initial one {hist[0][0]}")
        ctx.label("history " + case["history"])
        if len(hist) > 2:
            ctx.label("history of several steps")
    ctx.label(kind)
    ctx.label("guess " + case["guess"])


def tangent_torques(spec, kind, state, field):
    """Torques on spins and on the cone axis by central differences of the reference energy."""
    out = []
    vectors = [v for v in state[0]] + [state[1]]
    for k in range(len(vectors)):
        g = np.zeros(3)
        for c in range(3):
            es = []
            for sign in (1, -1):
                moved = [v.copy() for v in vectors]
                moved[k][c] += sign * 1e-5
                es.append(energy_of(spec, kind, [np.array(moved[:-1]), moved[-1], state[2]], field))
            g[c] = (es[0] - es[1]) / 2e-5
        out.append(np.linalg.norm(np.cross(vectors[k], g)))
    return max(out[:-1]), out[-1]


def run_converged(case, ctx):
    from magnopy import Energy

    spec, kind, field = case["model"], case["case"], case["field"]
    e = Energy(ref.build(spec))
    e.magnetic_field = field
    q = np.array(case["q"])
    kwargs = {"case": kind, "max_iterations": 1500}
    if kind == "antiferro":
        q = q @ ref.reciprocal(spec["cell"]) / 2
        kwargs["antiferro_q"] = q
        kwargs["initial_guess"] = (np.array(case["dirs"]), np.array(case["axis"]))
    else:
        kwargs["initial_guess"] = (np.array(case["dirs"]), np.array(case["axis"]), q)
    path = os.path.join(tempfile.mkdtemp(dir=os.getcwd()), "history")
    result = e.optimize(save_history=True, history_filename=path, **kwargs)
    hist = read_history(path, kind, len(gen.magnetic_ids(spec)))
    state = [arr(result[0]), arr(result[1], (3,)), arr(result[2], (3,))]
    start = energy_of(spec, kind, [np.array(case["dirs"]), np.array(case["axis"]), q], field)
    final = energy_of(spec, kind, state, field)
    scale = ref.scale_of(spec)
    if field is not None:
        scale += 0.1 * max(abs(x) for x in field) * sum(s * abs(a["g"]) for s, a in zip(ref.spins_of(spec), spec["atoms"]))
    ensure(final <= start + 1e-9 * scale, f"energy {final} of the result is above {start} of the guess")
    if len(hist) - 1 >= 1500:
        ctx.label("iterations exhausted")
        return
    t, tn = tangent_torques(spec, kind, state, field)
    bound = 1.1e-5 + 5e-6 * scale
    ensure(t <= bound, f"torque {t} on spins of the converged {kind} state is above {bound}")
    ensure(tn <= bound, f"torque {tn} on the axis of the converged {kind} state is above {bound}")
    ctx.label("converged " + kind)


@st.composite
def converged_cases(draw):
    kind = draw(st.sampled_from(["antiferro", "spiral"]))
    spec = draw(gen.model(min_atoms=1, max_atoms=2, min_bonds=1, max_bonds=3, r_max=1))
    n = len(gen.magnetic_ids(spec))
    q = [draw(st.integers(-1, 1)) for _ in range(3)]
    if not any(q):
        q[draw(st.integers(0, 2))] = 1
    return {
        "model": spec,
        "case": kind,
        "dirs": draw(gen.directions(n)),
        "axis": draw(gen.unit_like()),
        "q": q if kind == "antiferro" else draw(gen.vec(gen.grid(-1, 1, 8))),
        "field": draw(st.one_of(st.none(), FIELD)),
    }


def nontrivial(c):
    return c["max_iterations"] != 0


SUBCHECKS = [
    SubCheck(
        "ferro",
        cases(["ferro"]),
        run,
        quick=1600,
        thorough=16000,
        rule="model x guess x field x limits x history options (ferro); non-trivial: at least one iteration allowed",
        nontrivial=nontrivial,
    ),
    SubCheck(
        "rotating",
        cases(["antiferro", "spiral"]),
        run,
        quick=600,
        thorough=6000,
        rule="the same for antiferro and spiral; non-trivial: at least one iteration allowed",
        nontrivial=nontrivial,
    ),
    SubCheck(
        "rotating-converged",
        converged_cases(),
        run_converged,
        quick=160,
        thorough=3000,
        rule="antiferro and spiral minimization until convergence (at most 1500 iterations); every case is non-trivial",
    ),
]
ASSUMPTIONS = [
    "torque of the converged ferro state: tolerance plus 2e-6 of the energy scale for the numerical derivatives",
    "history is compared within its printed precision",
]
