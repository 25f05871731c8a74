"""Results depend on the model only: not on the process, its hash seed or what was done before."""

import atexit
import decimal
import gc
import json
import locale
import logging
import os
import random
import subprocess
import sys
import tempfile
import warnings

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.core import Ctx, HarnessError, SubCheck, Violation, arr, close, ensure, fail

STEP = st.tuples(
    st.sampled_from(["copy", "dc", "dc", "sn", "name", "filter", "remove", "rewrite", "onsite-remove", "atom-remove", "atom-remove", "atom-add", "atom-add"]),
    st.integers(0, 7),
).map(list)


def spec():
    return st.fixed_dictionaries(
        {
            "model": gen.model(min_atoms=2, max_atoms=5, min_bonds=1, max_bonds=6, charge=True, vectors=True),
            "notation_first": st.booleans(),
            "steps": st.lists(STEP, max_size=5),
            "dirs": gen.directions(5),
            "axis": gen.unit_like(),
            "q": gen.vec(gen.grid(-1, 1, 8)),
            "kind": st.sampled_from(["ferro", "antiferro", "spiral"]),
        }
    )


SERVERS = {}
HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def server(seed):
    if seed not in SERVERS or SERVERS[seed].poll() is not None:
        env = dict(os.environ, PYTHONHASHSEED=str(seed), OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
        SERVERS[seed] = subprocess.Popen(
            [sys.executable, "-W", "ignore", "-m", "vlib.probe"],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL,
            text=True,
            env=env,
        )
    return SERVERS[seed]


@atexit.register
def stop():
    for s in SERVERS.values():
        try:
            s.stdin.close()
            s.wait(5)
        except Exception:
            s.kill()


def ask(seed, specs, order):
    s = server(seed)
    s.stdin.write(json.dumps({"specs": specs, "order": order}) + "\n")
    s.stdin.flush()
    line = s.stdout.readline()
    if not line:
        raise HarnessError("the process with the results died")
    answer = json.loads(line)
    if isinstance(answer, dict):
        text = answer["error"]
        if "/magnopy/" in text or "/wulfric/" in text:
            fail(f"unexpected exception: {text[-500:]}")
        raise HarnessError(text)
    return answer


def same(a, b, where, tol):
    """Plain data: numbers up to rounding, everything else exactly."""
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        ensure(a == b, f"{where}: {a} and {b}")
    elif isinstance(a, (int, float)) and isinstance(b, (int, float)):
        ensure(a == b or abs(a - b) <= tol * max(1.0, abs(a)) or (a != a and b != b), f"{where}: {a!r} and {b!r}")
    elif isinstance(a, list) and isinstance(b, list):
        ensure(len(a) == len(b), f"{where}: {len(a)} and {len(b)} elements: {str(a)[:300]} and {str(b)[:300]}")
        for k, (x, y) in enumerate(zip(a, b)):
            same(x, y, f"{where}[{k}]", tol)
    else:
        ensure(a == b, f"{where}: {a!r} and {b!r}")


def run(case, ctx):
    specs = case["specs"]
    n = len(specs)
    first = ask(1, specs, list(range(n)))
    second = ask(case["seed"], specs, list(range(n))[::-1])
    for k, (a, b) in enumerate(zip(first, second)):
        ensure(list(a) == list(b), f"model {k}: different sets of results {set(a) ^ set(b)}")
        for key in a:
            scale = ref.scale_of(specs[k]["model"])
            loose = any(x in key for x in ("optimum", "magnons"))
            # spectra next to zero energy amplify the rounding
            if loose:
                close_loose(a[key], b[key], f"model {k}, {key} in two processes", 1e-6 * max(1.0, scale))
            else:
                same(a[key], b[key], f"model {k}, {key} in two processes", 1e-10 * max(1.0, scale))
        ctx.label("finished with " + ("an edit refused" if any(x.startswith("edit") for x in a) else "all edits"))
        if len({x["g"] for x in specs[k]["model"]["atoms"]}) > 1:
            ctx.label("different atoms")


def close_loose(a, b, where, tol):
    if isinstance(a, str) or isinstance(b, str):
        ensure(a == b, f"{where}: {a} and {b}")
        return
    same(a, b, where, tol)


# ---------------------------------------------------------------- order of calls on one object

# arguments next to the ones of other calls
NEAR = st.sampled_from([0.0, 0.0, 2.0**-6, 2.0**-10, 2.0**-14, 2.0**-18])
ECALL = st.one_of(
    st.tuples(st.sampled_from(["ferro", "antiferro", "spiral"]), st.integers(0, 3), NEAR),
    st.tuples(st.sampled_from(["opt-ferro", "opt-antiferro", "opt-spiral"]), st.integers(0, 3), NEAR),
    st.tuples(st.sampled_from(["field", "m", "c1", "spins", "g"]), st.integers(0, 3), st.just(0.0)),
).map(list)
MCALL = st.tuples(st.sampled_from(["J", "A", "B", "C", "h", "omega", "omegas", "call"]), st.integers(0, 3), NEAR).map(list)


@st.composite
def reuse(draw):
    spec = draw(gen.model(min_atoms=1, max_atoms=3, min_bonds=1, max_bonds=4))
    other = draw(gen.model(min_atoms=1, max_atoms=3, min_bonds=1, max_bonds=4))
    return {
        "model": spec,
        "other": other,
        "energy": draw(st.lists(ECALL, min_size=2, max_size=7)),
        "magnons": draw(st.lists(MCALL, min_size=2, max_size=5)),
        "dirs": draw(st.lists(gen.directions(3), min_size=4, max_size=4)),
        "axes": draw(gen.directions(4)),
        "q": draw(st.lists(gen.vec(gen.grid(-1, 1, 8)), min_size=4, max_size=4)),
        "inplace": draw(st.booleans()),
    }


def run_reuse(case, ctx):
    from magnopy import Energy, MagnonDispersion

    h = ref.build(case["model"])
    o = ref.build(case["other"])
    n = len(gen.magnetic_ids(case["model"]))
    m = len(gen.magnetic_ids(case["other"]))
    scale = max(ref.scale_of(case["model"]), ref.scale_of(case["other"]), 1.0)
    settings = {}

    def fresh():
        e = Energy(h)
        for key, value in settings.items():
            setattr(e, key, value)
        return e

    shared = {}

    def given(name, value):
        # with "inplace" the same array object is filled with other numbers for the next call
        if not case["inplace"]:
            return value
        kept = shared.setdefault((name, value.shape), value)
        kept[...] = value
        return kept

    def act(e, what, k, size, near):
        bump = near * np.array([1.0, -0.5, 0.25])
        dirs = given("dirs", np.array(case["dirs"][k])[:size] + bump)
        axis, q = given("axis", np.array(case["axes"][k]) + bump), given("q", np.array(case["q"][k]) + bump)
        if what == "ferro":
            return [e.ferro(dirs)]
        if what in ("antiferro", "spiral"):
            return [getattr(e, what)(dirs, axis, q)]
        if what == "opt-ferro":
            return e.optimize("ferro", initial_guess=dirs, max_iterations=3)
        if what == "opt-antiferro":
            return e.optimize("antiferro", initial_guess=(dirs, axis), antiferro_q=q, max_iterations=2)
        return e.optimize("spiral", initial_guess=(dirs, axis, q), max_iterations=2)

    used, alien = Energy(h), Energy(o)
    held = []
    for what, k, near in case["energy"]:
        if what in ("field", "m", "c1", "spins", "g"):
            name = {"field": "magnetic_field", "m": "m", "c1": "wolfe_c1", "spins": "spins", "g": "g_factors"}[what]
            value = {
                "field": [None, [0, 0, 5.0], [1.0, 2.0, 3.0], [0, 0, 0]][k],
                "m": [1, 3, 10, 25][k],
                "c1": [1e-4, 1e-3, 0.1, 0.01][k],
                "spins": [0.5 + 0.25 * k + 0.5 * x for x in range(n)],
                "g": [2.0 - 0.25 * k + 0.5 * x for x in range(n)],
            }[what]
            settings[name] = value
            setattr(used, name, value)
            continue
        expected = [np.array(x) for x in act(fresh(), what, k, n, near)]
        try:
            act(alien, what, k, m, near)
        except Exception:
            fail(f"{what} of the other model failed")
        got = act(used, what, k, n, near)
        ensure(len(got) == len(expected), f"{what}: {len(got)} and {len(expected)} results")
        for a, b in zip(got, expected):
            close(a, b, f"{what} of a used object against a new one", 1e-9 if not what.startswith("opt") else 1e-6, scale)
        held.append((what, got, [np.array(x) for x in got]))
        ctx.label(what)
    for what, got, kept in held:
        for a, b in zip(got, kept):
            ensure(np.array_equal(np.array(a), b), f"result of {what} was changed by later calls")

    md, alien = MagnonDispersion(h), MagnonDispersion(o)

    def value(md, what, k, near):
        q = given("k", np.array(case["q"][k]) + near * np.array([1.0, -0.5, 0.25]))
        if what == "C":
            return md.C()
        if what == "omegas":
            return md.omegas([q, -q])
        if what == "call":
            return md([q, 2 * q])
        return getattr(md, what)(q)

    held = []
    for what, k, near in case["magnons"]:
        expected = np.array(value(MagnonDispersion(h), what, k, near))
        value(alien, what, k, near)
        got = value(md, what, k, near)
        a, b = np.asarray(got), expected
        ensure(a.shape == b.shape and (np.isnan(a) == np.isnan(b)).all(), f"{what} of a used dispersion has other form")
        close(np.nan_to_num(a), np.nan_to_num(b), f"{what} of a used dispersion", 1e-6 if what.startswith("om") or what == "call" else 1e-9, scale)
        held.append((what, got, np.array(got)))
    for what, got, kept in held:
        ensure(np.array_equal(np.asarray(got), kept, equal_nan=True), f"result of {what} was changed by later calls")


# ---------------------------------------------------------------- requests between the edits of one Hamiltonian
ASK = ["magnetic", "lists", "energy", "magnons", "filter", "files", "geometry", "copy"]
N8 = st.integers(0, 7)
HSTEP = st.one_of(
    st.tuples(st.just("ask"), st.integers(0, len(ASK) - 1), N8),
    st.tuples(st.just("ask"), st.integers(0, len(ASK) - 1), N8),
    st.tuples(
        st.sampled_from(["cell", "position", "spin", "direction", "g", "matrix", "element", "factor", "normalized", "double", "onsite", "vectors", "atom-remove", "atom-add"]),
        N8,
        N8,
    ),
    # another parameter in the place of the removed one: all numbers of things are as before
    st.tuples(st.sampled_from(["move", "move-onsite", "swap-atom"]), N8, N8),
).map(list)


@st.composite
def history(draw):
    return {
        "model": draw(gen.model(min_atoms=2, max_atoms=4, min_bonds=1, max_bonds=4, vectors=True, charge=True, wide=True)),
        "steps": draw(st.lists(HSTEP, min_size=2, max_size=9)),
        "last": draw(st.lists(st.integers(0, len(ASK) - 1), min_size=2, max_size=5, unique=True)),
        "dirs": draw(gen.directions(6)),
        "axis": draw(gen.unit_like()),
        "q": draw(gen.vec(gen.grid(-1, 1, 8))),
    }


def alter(h, kind, k, l):
    from magnopy import MatrixParameter

    atoms, bonds, sites = list(h.atoms), [(a, b, tuple(int(x) for x in r)) for a, b, r, _ in h.exchange], [a for a, _ in h.on_site]
    a = atoms[k % len(atoms)]
    m = np.array([[1.0, 2.0, 3.0], [-1.0, 4.0, 0.5], [0.25, k, l]])
    free = lambda key: key not in h and gen.mirror(*key) not in h and not (key[0] == key[1] and key[2] == (0, 0, 0))
    if kind == "cell":
        h.cell = np.array(h.cell) * (1.0 + 0.25 * k) + 0.125 * l * np.array([[0, 0, 0], [1.0, 0, 0], [0, 1.0, 0]])
    elif kind == "position":
        a.position = (0.125 * l, 0.3, 0.0625 * k)
    elif kind == "spin":
        a.spin = 0.5 + 0.5 * l
    elif kind == "direction":
        a.spin_direction = (0.1 * l - 0.35, 0.6, 0.3)
    elif kind == "g":
        a.g_factor = 1.5 + 0.25 * l
    elif kind == "matrix" and bonds:
        key = bonds[l % len(bonds)]
        h.add_exchange(*key, matrix=m)
    elif kind == "element" and sites:
        h[sites[l % len(sites)]].matrix = m + m.T
    elif kind == "factor":
        if k % 2:
            h.exchange_factor = 0.5 + l
        else:
            h.on_site_factor = -0.5 - l
    elif kind == "normalized":
        h.spin_normalized = bool(l % 2)
    elif kind == "double":
        h.double_counting = bool(l % 2)
    elif kind == "onsite":
        h.add_on_site(a, matrix=m)
    elif kind == "vectors":
        h.cone_axis = [1.0, 0.5 * l, 0.25]
        h.spiral_vector = [0.1, 0.2, 0.1 * l]
    elif kind == "atom-remove" and len(atoms) > 1:
        h.remove_atom(a)
    elif kind == "atom-add":
        name = ["Zr", "Ta", "Os", "Pt"][k % 4]
        if name not in [x.name for x in atoms]:
            h.add_atom(name, position=[0.125 * l, 0.3, 0.7], spin=[0, 1.0, 0.5])
            h.add_exchange(name, atoms[0].name, (1, 0, l), matrix=m)
    elif kind == "move" and bonds:
        old = bonds[l % len(bonds)]
        b = atoms[(k + 1 + l) % len(atoms)]
        key = (a, b, (1, k - 3, 0))
        if free(key):
            h.remove_exchange(*old)
            h.add_exchange(*key, matrix=m)
    elif kind == "move-onsite" and sites:
        if a not in sites:
            h.remove_on_site(sites[l % len(sites)])
            h[a] = MatrixParameter(matrix=m)
    elif kind == "swap-atom" and len(atoms) > 1 and "Yb" not in [x.name for x in atoms]:
        h.remove_atom(a)
        h.add_atom("Yb", position=[0.3, 0.125 * l, 0.7], spin=[0.5, 1.0, 0.5])
        b = list(h.atoms)[0]
        h.add_exchange("Yb", b, (0, 1, 0) if b.name != "Yb" else (0, 0, 1), matrix=m)
    else:
        return False
    return True


def rebuilt(h):
    """A new Hamiltonian with the content of the given one."""
    from magnopy import SpinHamiltonian
    from wulfric import Atom

    s = ref.snapshot(h)
    new = SpinHamiltonian(cell=np.array(s["cell"]))
    for old in h.atoms:
        kw = {} if ref.charge_of(old) is None else {"charge": ref.charge_of(old)}
        new.add_atom(
            Atom(
                name=old.name, index=old.index, position=np.array(old.position), spin=np.array(old.spin_vector), g_factor=old.g_factor, **kw
            )
        )
    place = {(a.name, a.index): a for a in new.atoms}
    new.notation = tuple(s["notation"])
    for a, b, r, m in s["exchange"]:
        new.add_exchange(place[a], place[b], r, matrix=np.array(m))
    for a, m in s["on_site"]:
        new.add_on_site(place[a], matrix=np.array(m))
    for name in ("cone_axis", "spiral_vector"):
        if s[name] is not None:
            setattr(new, name, s[name])
    return new


def request(h, what, case, k):
    from magnopy import Energy, MagnonDispersion, dump_spinham_hdf5, dump_spinham_txt, load_spinham_hdf5, load_spinham_txt
    from magnopy.io.txt.vampire import dump_mat, dump_ucf

    listing = lambda it: sorted([a.name, a.index, b.name, b.index, [int(x) for x in r], arr(p.matrix, (3, 3), "matrix").tolist()] for a, b, r, p in it)
    n = len(h.magnetic_atoms)
    if what == "magnetic":
        return [[[a.name, a.index] for a in h.magnetic_atoms], h.I, [[a.name, a.index] for a in h.atoms]]
    if what == "lists":
        return [listing(h.exchange), listing(h.exchange_like), sorted([a.name, p.matrix.tolist()] for a, p in h.on_site), len(h.exchange_like)]
    if what == "geometry":
        return sorted(
            [a.name, b.name, [int(x) for x in r], float(h.get_distance(a, b, r)), np.array(h.get_vector(a, b, r)).tolist()] for a, b, r, _ in h.exchange
        ) + [np.array(h.reciprocal_cell).tolist(), float(h.a), float(h.gamma)]
    if what == "copy":
        return [listing(h.copy().exchange), [a.name for a in h.copy().magnetic_atoms]]
    if what == "filter":
        # between: the distances are not the limits
        limit = 0.7312 + k
        # nothing is removed
        h.filter(max_distance=1e9)
        return [listing(h.filtered(max_distance=limit).exchange), listing(h.filtered(min_distance=limit).exchange), len(h.filtered(max_distance=limit).on_site)]
    if n == 0:
        return []
    if what == "energy":
        if len(h.exchange) == 0:
            return []
        e = Energy(h)
        dirs = np.array(case["dirs"], dtype=float)[[j % 6 for j in range(n)]]
        axis, q = np.array(case["axis"], dtype=float), np.array(case["q"], dtype=float)
        before = [float(e.ferro(dirs.copy())), float(e.antiferro(dirs.copy(), axis, q)), float(e.spiral(dirs.copy(), axis, q))]
        e.magnetic_field = [1.0, -2.0, 0.5]
        return before + [float(e.ferro(dirs)), [float(x) for x in e.spins], [float(x) for x in e.g_factors]]
    if what == "magnons":
        md = MagnonDispersion(h)
        q = np.array(case["q"], dtype=float)
        H = md.h(q)
        w = np.linalg.eigvalsh(H)
        definite = len(w) and (w.min() > 1e-4 or w.max() < -1e-4)
        if definite:
            md.omega(q)
        return [H.real.tolist(), H.imag.tolist(), md.S.tolist()] + [np.sort(np.array(md.omega(q), dtype=float)).tolist() if definite else []]
    if what == "files":
        with tempfile.TemporaryDirectory() as d:
            p, t = os.path.join(d, "h.hdf5"), os.path.join(d, "h.txt")
            dump_spinham_hdf5(h, p)
            dump_spinham_txt(h, t)
            a, b = load_spinham_hdf5(p), load_spinham_txt(t)
            ucf = [x for x in dump_ucf(h, nologo=True).split("\n")]
            cut = ucf.index("# Interactions")
            values = sorted([[int(y) if j < 6 else float(y) for j, y in enumerate(x.split()) if j > 0] for x in ucf[cut + 2 :]])
            return [listing(a.exchange), listing(b.exchange), ucf[:cut], values, dump_mat(h, nologo=True).split("\n")]
    raise HarnessError(what)


def run_history(case, ctx):
    h = ref.build(case["model"])
    edits = asked = 0
    for kind, k, l in case["steps"]:
        if kind == "ask":
            asked += 1
            request(h, ASK[k], case, l)
        elif kind.startswith("move") or kind == "swap-atom":
            # requested right before as well
            request(h, ASK[l % 3], case, k)
            edits += bool(alter(h, kind, k, l))
        else:
            edits += bool(alter(h, kind, k, l))
            ctx.label(kind)
    new = rebuilt(h)
    for k in case["last"]:
        what = ASK[k]
        # after request to the used one the new one is not affected, and the other way round
        b = request(new, what, case, k)
        a = request(h, what, case, k)
        scale = max(1.0, ref.scale_of(ref.spec_of_snapshot(ref.snapshot(new))))
        if what == "energy" and a:
            scale += 10 * sum(abs(x * y) for x, y in zip(a[4], a[5]))
        if what == "filter":
            ds = [float(new.get_distance(x, y, r)) for x, y, r, _ in new.exchange]
            if any(abs(d - 0.7312 - k) < 1e-9 for d in ds):
                continue
        # the last printed digits in files, square roots of rounding in spectra
        tol = {"files": 2e-5, "magnons": 1e-7}.get(what, 1e-10)
        same(a, b, f"{what} of the edited Hamiltonian and of a new one with the same content", tol * scale)
        ctx.label("at the end: " + what)
    if asked and edits:
        ctx.label("asked and edited")



# ---------------------------------------------------------------- settings of the process
OTHERS = {
    "07": ["ferro"],
    "09": ["rotating-converged"],
    "10": ["bogoliubov", "failed"],
    "11": ["lswt"],
    "13": ["round-trip"],
    "14": ["round-trip"],
    "15": ["specification"],
    "17": ["load", "convert"],
    "18": ["files"],
    "20": ["specification", "corrupted", "dispatch"],
    "21": ["minimize", "dispersion"],
    "22": ["history"],
    "26": ["objects", "files"],
    "28": [],
}


def others():
    import importlib

    out = []
    for pid, names in OTHERS.items():
        for sub in importlib.import_module(f"vlib.props.p{pid}").SUBCHECKS:
            if sub.name in names or not names:
                out.append((pid, sub))
    guess = SubCheck("guess", guesses(), run_guess, 0, 0, "")
    return out + [("24", guess)] * 2


def guesses():
    return st.fixed_dictionaries(
        {
            "model": gen.model(min_atoms=1, max_atoms=3, min_bonds=1, max_bonds=3),
            "kind": st.sampled_from(["ferro", "antiferro", "spiral"]),
            "dirs": st.one_of(st.none(), gen.directions(3)),
            "q": gen.vec(gen.grid(-1, 1, 8)),
            "steps": st.integers(0, 3),
        }
    )


def run_guess(case, ctx):
    """Optimisation from a random state (or a state that is random in part)."""
    from magnopy import Energy

    e = Energy(ref.build(case["model"]))
    dirs = None if case["dirs"] is None else case["dirs"][: len(e.spins)]
    if case["kind"] == "ferro":
        e.optimize("ferro", initial_guess=dirs, max_iterations=case["steps"])
    elif case["kind"] == "antiferro":
        e.optimize("antiferro", initial_guess=dirs and (dirs, None), antiferro_q=case["q"], max_iterations=case["steps"])
    else:
        e.optimize("spiral", initial_guess=dirs and (dirs, None, None), max_iterations=case["steps"])


@st.composite
def settings_case(draw):
    subs = others()
    k = draw(st.integers(0, len(subs) - 1))
    pid, sub = subs[k]
    return {"check": pid, "part": sub.name, "case": draw(sub.strategy), "random": draw(st.booleans())}


def process_settings():
    return {
        "handling of floating-point errors": np.geterr(),
        "print options": np.get_printoptions(),
        "working directory": os.getcwd(),
        "environment variables": dict(os.environ),
        "search path of modules": list(sys.path),
        "filters of warnings": list(warnings.filters),
        "limit of recursion": sys.getrecursionlimit(),
        "locale": locale.setlocale(locale.LC_ALL),
        "context of decimal numbers": str(decimal.getcontext()),
        "creation mask of files": mask(),
        "level of logging": (logging.getLogger().level, logging.root.manager.disable),
        "streams": (sys.stdout, sys.stderr, sys.stdin),
        "open files": opened(),
    }


def opened():
    """Files in the folders of the cases that are open."""
    out = []
    for k in os.listdir("/proc/self/fd"):
        try:
            name = os.readlink("/proc/self/fd/" + k)
        except OSError:
            continue
        if name.startswith(os.path.realpath(tempfile.gettempdir()) + "/tmp"):
            out.append(name)
    return sorted(out)


def mask():
    value = os.umask(0o22)
    os.umask(value)
    return value


def restore(kept):
    np.seterr(**kept["handling of floating-point errors"])
    np.set_printoptions(**kept["print options"])
    os.chdir(kept["working directory"])
    os.environ.clear()
    os.environ.update(kept["environment variables"])
    sys.path[:] = kept["search path of modules"]
    warnings.filters[:] = kept["filters of warnings"]
    sys.setrecursionlimit(kept["limit of recursion"])
    locale.setlocale(locale.LC_ALL, kept["locale"])
    os.umask(kept["creation mask of files"])
    logging.getLogger().setLevel(kept["level of logging"][0])
    logging.disable(kept["level of logging"][1])
    sys.stdout, sys.stderr, sys.stdin = kept["streams"]


def run_settings(case, ctx):
    sub = [s for pid, s in others() if pid == case["check"] and s.name == case["part"]][0]

    def once(seed):
        np.random.seed(seed)
        random.seed(seed)
        try:
            sub.func(case["case"], Ctx())
        except Violation:
            # a matter of the other property
            pass
        state = np.random.get_state()
        return [state[1].tolist(), state[2], list(random.getstate()[1])]

    # other checks ran in this process before
    np.seterr(**BASE["handling of floating-point errors"])
    np.set_printoptions(**BASE["print options"])
    os.umask(BASE["creation mask of files"])
    locale.setlocale(locale.LC_ALL, BASE["locale"])
    # modules, fonts and caches that are loaded with the first use
    if case["check"] not in WARM:
        WARM.add(case["check"])
        kept = process_settings()
        once(1)
        restore(kept)
    kept = process_settings()
    try:
        a = once(101)
        gc.collect()
        now = process_settings()
        for key, value in kept.items():
            if key == "open files":
                ensure(set(now[key]) <= set(value), lambda: f"files stay open: {[x for x in now[key] if x not in value]}")
            else:
                ensure(now[key] == value, lambda: f"{key} of the process: {now[key]!r} after the calls, {value!r} before")
        if case["random"]:
            b = once(202)
            ensure(a[:2] != b[:2] and a[2] != b[2], "the generator of random numbers of the process is seeded")
            ctx.label("seed")
    finally:
        restore(kept)
    ctx.label(f"P{case['check']}/{case['part']}")


WARM = set()
# before the first call of the tested code
BASE = process_settings()


QUICK_CAP = 200

SUBCHECKS = [
    SubCheck(
        "processes",
        st.fixed_dictionaries({"specs": st.lists(spec(), min_size=1, max_size=2), "seed": st.sampled_from([2, 77, 1234, 4567])}),
        run,
        quick=700,
        thorough=8000,
        rule="lists of models and edits, observed in two processes with different hash seeds in opposite order; non-trivial: at least one edit",
        nontrivial=lambda c: any(s["steps"] for s in c["specs"]),
    ),
    SubCheck(
        "reuse",
        reuse(),
        run_reuse,
        quick=1200,
        thorough=16000,
        rule="sequences of calls on one Energy and one MagnonDispersion against new objects, with another model in between; non-trivial: two calls that compute",
        nontrivial=lambda c: sum(1 for w, _, _ in c["energy"] if w not in ("field", "m", "c1", "spins", "g")) >= 2,
    ),
    SubCheck(
        "history",
        history(),
        run_history,
        quick=2500,
        thorough=30000,
        rule="edits of one Hamiltonian with requests in between, compared with a new Hamiltonian built from its content; non-trivial: an edit after a request",
        nontrivial=lambda c: any(s[0] == "ask" or s[0] in ("move", "move-onsite", "swap-atom") for s in c["steps"]) and any(s[0] != "ask" for s in c["steps"]),
    ),
    SubCheck(
        "settings",
        settings_case(),
        run_settings,
        quick=500,
        thorough=12000,
        rule="cases of the other checks (scripts, files, spectra, optimisation, refused calls); settings of the process before and after; every case is non-trivial",
    ),
]
ASSUMPTIONS = [
    "edits that are refused have to be refused in both processes with the same kind of error",
    "numbers may differ by rounding (1e-10 of the energy scale; 1e-6 for spectra and optimisation)",
]
