"""Command-line scripts report what the library computes for the model of the file."""

import contextlib
import inspect
import io
import math
import os
import re
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.core import SubCheck, arr, close, ensure, fail, num
from vlib.props.p09 import PH8, read_history
from vlib.props.p11 import prepare

os.environ.setdefault("MPLBACKEND", "Agg")


@contextlib.contextmanager
def inside(d):
    """Scripts write to the working directory: make it the scratch one."""
    old = os.getcwd()
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(old)


@contextlib.contextmanager
def patched(owner, name, value):
    old = getattr(owner, name)
    setattr(owner, name, value)
    try:
        yield
    finally:
        setattr(owner, name, old)


def quietly(f, *args, **kwargs):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*args, **kwargs)


def call_main(main, argv):
    out = io.StringIO()
    with patched(sys, "argv", ["script"] + argv), contextlib.redirect_stdout(out):
        try:
            main()
        except SystemExit as e:
            fail(f"script with {argv} exits with {e.code}")
    return out.getvalue()


def store(case, d):
    """Write the model to a file; returns its name and the arguments for the format."""
    from magnopy import dump_spinham_hdf5, dump_spinham_txt

    kind = case["file"]
    h = ref.build(case["model"])
    if kind == "hdf5":
        name = "model.hdf5"
        dump_spinham_hdf5(h, os.path.join(d, name))
        return name, [] if case["guess_format"] else ["hdf5"]
    name = "model.txt" if case["guess_format"] else "model.hdf5"
    dump_spinham_txt(h, filename=os.path.join(d, name))
    return name, [] if case["guess_format"] else ["txt"]


def place(case, d, name):
    """Name of the input as the user gives it."""
    if case["where"] == "absolute":
        return os.path.join(d, name)
    if case["where"] == "folder":
        os.makedirs(os.path.join(d, "in"), exist_ok=True)
        os.rename(os.path.join(d, name), os.path.join(d, "in", name))
        return os.path.join("in", name)
    return name


def loaded(h):
    """The model as it is in the file: one entry per pair."""
    spec = ref.spec_of_snapshot(ref.snapshot(h))
    seen, bonds = set(), []
    for i, j, r, m in spec["bonds"]:
        key, _ = gen.pair_key(i, j, r)
        if key not in seen:
            seen.add(key)
            bonds.append([i, j, r, m])
    spec["bonds"] = bonds
    return spec


# ------------------------------------------------------------------ minimization
@st.composite
def minimize_cases(draw):
    size = draw(st.integers(0, 9))
    if size:
        spec = draw(gen.model(min_atoms=1, max_atoms=2, min_bonds=1, max_bonds=2, r_max=1, max_onsite=1))
    else:
        # longer lists of spins
        spec = draw(gen.model(min_atoms=7, max_atoms=9, min_bonds=9, max_bonds=12, r_max=1, max_onsite=6))
    # files hold symmetric on-site matrices
    spec["onsite"] = [[k, ((np.array(m) + np.array(m).T) / 2).tolist()] for k, m in spec["onsite"]]
    kinds = draw(
        st.sampled_from(
            [
                ["ferro"],
                ["spiral"],
                ["antiferro"],
                ["ferro", "spiral"],
                ["spiral", "ferro"],
                ["antiferro", "ferro"],
                ["spiral", "antiferro"],
                ["all"],
                ["ferro", "all"],
                None,
            ]
        )
    )
    if not size:
        # all kinds are slow here
        kinds = draw(st.sampled_from([["ferro"], ["ferro"], ["ferro", "spiral"], ["spiral"]]))
    return {
        "model": spec,
        "file": draw(st.sampled_from(["txt", "hdf5"])),
        "guess_format": draw(st.booleans()),
        "where": draw(st.sampled_from(["here", "absolute", "folder"])),
        "kinds": kinds,
        "field": draw(st.one_of(st.none(), gen.vec(gen.grid(-20, 20, 8)))),
        "seedname": draw(st.sampled_from([None, "run", "some-name.x"])),
        "long": draw(st.booleans()),
    }


def bounded_optimize(limit):
    """The script has no bound of the number of iterations, the check needs one."""
    from magnopy import Energy

    original = Energy.optimize
    signature = inspect.signature(original)

    def optimize(*args, **kwargs):
        bound = signature.bind(*args, **kwargs)
        if bound.arguments.get("max_iterations") is None:
            bound.arguments["max_iterations"] = limit
        return original(*bound.args, **bound.kwargs)

    return patched(Energy, "optimize", optimize)


def table_row(line, names):
    words = line.split()
    if len(words) != 7 or words[0] not in names:
        return None
    try:
        return [words[0]] + [float(x) for x in words[1:]]
    except ValueError:
        return None


def after_colon(line):
    return [float(x) for x in line.split(":", 1)[1].split()]


def read_results(text, names):
    """States in the order of the file and the summary."""
    lines = text.split("\n")
    ends = [k for k, x in enumerate(lines) if "Summary" in x]
    ensure(len(ends) == 1, "results have no summary")
    states, state = [], None
    for line in lines[: ends[0]]:
        row = table_row(line, names)
        if row is not None:
            if state is None or len(state["rows"]) == len(names):
                state = {"rows": []}
                states.append(state)
            state["rows"].append(row)
        elif line.startswith("Cone axis is:"):
            state["axis"] = after_colon(line)
        elif line.startswith("Spiral vector is:"):
            state["q"] = after_colon(line)
    summary = []
    for line in lines[ends[0] + 1 :]:
        if line.startswith("Ferromagnetic energy"):
            summary.append(["ferro", after_colon(line)])
        elif line.startswith("Antiferromagnetic energies"):
            summary.append(["antiferro", []])
        elif line.startswith("Spiral energy"):
            summary.append(["spiral", after_colon(line)])
        elif line.strip():
            index, value = line.split()
            ensure(bool(summary) and summary[-1][0] == "antiferro", f"unexpected line of the summary {line!r}")
            summary[-1][1].append(float(value))
            ensure(int(index) == len(summary[-1][1]), f"number of the energy in {line!r}")
    return states, summary


ALL_Q = [q for q in ([a, b, c] for a in (-1, 0, 1) for b in (-1, 0, 1) for c in (-1, 0, 1)) if any(q)]


def run_minimize(case, ctx):
    from magnopy import load_spinham
    from magnopy.score.minimize_energy import main, manager

    kinds = case["kinds"]
    if kinds is None or "all" in kinds:
        expected_kinds = ["ferro", "antiferro", "spiral"]
    else:
        expected_kinds = kinds
    field = case["field"]
    with tempfile.TemporaryDirectory() as d:
        name, fmt = store(case, d)
        h = load_spinham(os.path.join(d, name), spinham_format=fmt[0] if fmt else None)
        spec = loaded(h)
        with inside(d):
            argv = ["-sh", place(case, d, name)]
            if fmt:
                argv += ["--spinham-format"] + fmt
            if kinds is not None:
                argv += ["-gst"] + kinds
            if field is not None:
                argv += ["-mf"] + [repr(float(x)) for x in field]
            seed = "minim"
            if case["seedname"] is not None:
                seed = case["seedname"]
                argv += ["-os", seed]
            with bounded_optimize(40 if case["long"] and "antiferro" not in expected_kinds else 3):
                if kinds is None and case["seedname"] is None:
                    # the function of the script called without the types
                    quietly(manager, argv[1], spinham_format=fmt[0] if fmt else None, magnetic_field=field)
                else:
                    call_main(main, argv)
            check_results(d, seed, spec, expected_kinds, field, name, case["where"])
    ctx.label(" ".join(expected_kinds))
    ctx.label("field" if field is not None else "no field")


def check_results(d, seed, spec, kinds, field, model_file, where):
    ids = gen.magnetic_ids(spec)
    n = len(ids)
    names = [spec["atoms"][k]["name"] for k in ids]
    with open(f"{seed}-results", encoding="utf-8") as f:
        text = f.read()
    files = sorted(os.listdir(d))
    expected_files = [f"{seed}-results", "in" if where == "folder" else model_file]
    for kind in kinds:
        if kind == "antiferro":
            expected_files += [f"{seed}-antiferro-history-{k}" for k in range(1, 27)]
        else:
            expected_files.append(f"{seed}-{kind}-history")
    ensure(files == sorted(expected_files), f"files {files}, expected {sorted(expected_files)}")
    states, summary = read_results(text, names)
    ensure([s[0] for s in summary] == kinds, f"summary has {[s[0] for s in summary]}, expected {kinds}")
    ensure(
        len(states) == sum(26 if k == "antiferro" else 1 for k in kinds),
        f"results have {len(states)} states for {kinds}",
    )
    scale = ref.scale_of(spec)
    if field is not None:
        s = ref.spins_of(spec)
        scale += sum(ref.MU_B * abs(spec["atoms"][k]["g"]) * s[k] for k in ids) * np.linalg.norm(field)
    states = iter(states)
    recip = ref.reciprocal(spec["cell"])
    if np.linalg.det(np.array(spec["cell"])) < 0:
        # the reciprocal cell of wulfric has the opposite sign then; q and -q are equivalent here
        recip = -recip
    for kind, energies in summary:
        if kind == "antiferro":
            ensure(len(energies) == 26, f"{len(energies)} antiferromagnetic energies")
            # the announced vectors
            told = []
            for line in text.split("\n"):
                if "q_rel" in line:
                    inner = line[line.index("(") + 1 : line.index(")")]
                    told.append(([float(x) for x in inner.split(",")], line.split()[-1]))
            ensure(sorted(t[0] for t in told) == sorted([float(x) for x in q] for q in ALL_Q), "announced vectors q_rel")
        else:
            ensure(len(energies) == 1, f"{len(energies)} energies of the {kind} state")
        for k, energy in enumerate(energies):
            state = next(states)
            ensure([r[0] for r in state["rows"]] == names, f"atoms {[r[0] for r in state['rows']]}, expected {names}")
            for r, i in zip(state["rows"], ids):
                close(r[1:4], spec["atoms"][i]["pos"], f"position of {r[0]}", 6e-9)
            dirs = np.array([r[4:] for r in state["rows"]])
            close(np.linalg.norm(dirs, axis=1), np.ones(n), "length of the reported directions", 5e-8)
            if kind == "ferro":
                expected = ref.ferro_energy(spec, dirs, field)
                history = f"{seed}-ferro-history"
            elif kind == "antiferro":
                q_rel, history = told[k]
                ensure(os.path.basename(history) == f"{seed}-antiferro-history-{k + 1}", f"announced history {history}")
                close(state["q"], np.array(q_rel) @ recip / 2, f"spiral vector for q_rel = {q_rel}", 6e-9)
                expected = ref.rotated_energy(
                    spec, dirs, state["axis"], np.array(q_rel) @ recip / 2, [0.0, math.pi], field
                )
            else:
                expected = ref.rotated_energy(spec, dirs, state["axis"], np.array(state["q"]), PH8, field)
                history = f"{seed}-spiral-history"
            if kind != "ferro":
                close(np.linalg.norm(state["axis"]), 1.0, "length of the reported axis", 5e-8)
            close(energy, expected, f"reported energy of the {kind} state {k + 1}", 1e-6, scale)
            # the history belongs to this very state: it never ends below, and its rows are its energies
            rows = read_history(history, kind, n)
            ensure(len(rows) > 0, f"{history} is empty")
            for e, st_ in rows:
                if kind == "ferro":
                    x = ref.ferro_energy(spec, st_[0], field)
                elif kind == "antiferro":
                    close(st_[2], np.array(q_rel) @ recip / 2, f"spiral vector in {history}", 1e-6)
                    x = ref.rotated_energy(spec, st_[0], st_[1], np.array(q_rel) @ recip / 2, [0.0, math.pi], field)
                else:
                    x = ref.rotated_energy(spec, st_[0], st_[1], np.array(st_[2]), PH8, field)
                close(e, x, f"energy in {history}", 1e-5, scale)
                ensure(e >= energy - 1e-5 * max(1, scale), f"{history} has the energy {e} below the reported {energy}")


# ------------------------------------------------------------------ dispersion
@st.composite
def dispersion_cases(draw):
    # longer lists of modes, rarely
    many = draw(st.integers(0, 9)) == 0
    spec = draw(
        gen.model(
            min_atoms=7 if many else 1,
            max_atoms=9 if many else 2,
            min_bonds=9 if many else 1,
            max_bonds=12 if many else 3,
            r_max=1,
            cells=("cubic", "tet", "orc", "hex", "tri", "rot"),
        )
    )
    spec["onsite"] = [[k, ((np.array(m) + np.array(m).T) / 2).tolist()] for k, m in spec["onsite"]]
    return {
        "model": spec,
        "kind": draw(st.sampled_from(["positive", "positive", "negative", "free"])),
        "gap": draw(gen.grid(0.5, 3, 8)),
        "file": draw(st.sampled_from(["txt", "hdf5"])),
        "guess_format": draw(st.booleans()),
        "where": draw(st.sampled_from(["here", "absolute", "folder"])),
        "out": draw(st.sampled_from([None, "name", "sub/name", "sub/", "a/b/c"])),
        "path": draw(
            st.one_of(
                st.none(),
                st.lists(st.lists(st.integers(0, 30), min_size=2, max_size=3), min_size=1, max_size=2),
            )
        ),
        "points": draw(
            st.one_of(
                st.none(),
                st.lists(gen.vec(gen.grid(-1, 1, 8)), min_size=1, max_size=2),
            )
        ),
        "joined": draw(st.booleans()),
        "text": draw(st.sampled_from([True, True, True, False])),
        "interactive": draw(st.booleans()),
        "verbose": draw(st.booleans()),
    }


def run_dispersion(case, ctx):
    import matplotlib

    matplotlib.use("Agg", force=True)
    import matplotlib.figure
    import matplotlib.pyplot as plt

    from magnopy import MagnonDispersion, load_spinham
    from magnopy.score.magnon_dispersion import main
    from wulfric.exceptions import StandardizationTypeMismatch

    case = dict(case, model=prepare(case))
    with tempfile.TemporaryDirectory() as d:
        name, fmt = store(case, d)
        model_file = os.path.join(d, name)
        h = load_spinham(model_file, spinham_format=fmt[0] if fmt else None)
        md = MagnonDispersion(h)
        standard = h.copy()
        try:
            standard.standardize()
        except StandardizationTypeMismatch:
            # wulfric does not find the standard cell of this lattice
            ctx.label("not standardized")
            return
        kp = standard.kpoints
        extra = []
        if case["points"] is not None:
            for k, p in enumerate(case["points"]):
                extra.append((f"Q{k}", p))
                kp.add_hs_point(name=f"Q{k}", coordinates=p, label=f"Label {k}")
        labels = sorted(kp.hs_names)
        path = None
        if case["path"] is not None:
            parts = []
            for part in case["path"]:
                # extra points come first: they are the reason to give the path
                pool = [x for x, _ in extra] + [x for x in labels if not x.startswith("Q")]
                names = [pool[i % len(pool)] for i in part]
                if any(a == b for a, b in zip(names, names[1:])):
                    names = [pool[0], pool[-1]]
                parts.append("-".join(names))
            path = "|".join(parts)
            kp.path = path
        with inside(d):
            given = place(case, d, name)
            argv = ["-sh", given]
            if fmt:
                argv += ["-shf"] + fmt
            if extra:
                argv += ["-kps"]
                for x, p in extra:
                    argv += [x, "Label " + x[1:]] + [repr(float(v)) for v in p]
            if path is not None:
                argv += ["-kp", path]
            if case["out"] is not None:
                argv += ["-os", case["out"]]
            for key, flag in (("text", "-st"), ("interactive", "-i"), ("verbose", "-v"), ("joined", "-jo")):
                if case[key]:
                    argv.append(flag)
            saved = []
            original = matplotlib.figure.Figure.savefig

            def savefig(self, fname, *args, **kwargs):
                # resolution of the picture is not of interest, and it is slow
                kwargs["dpi"] = 10
                saved.append(os.path.abspath(fname))
                figures.append(drawn(self))
                return original(self, fname, *args, **kwargs)

            figures = []
            try:
                with patched(matplotlib.figure.Figure, "savefig", savefig):
                    printed = call_main(main, argv)
                if case["interactive"]:
                    figures = [drawn(plt.figure(x)) for x in plt.get_fignums()]
            finally:
                plt.close("all")
            head, tail = os.path.split(case["out"] or "dispersion")
            base = os.path.join(head or os.path.dirname(given), tail or "dispersion")
            made = []
            if not case["interactive"]:
                made.append(base + ".png")
            if case["text"]:
                made += [base + ".txt"] if case["joined"] else [base + "_data.txt", base + "_info.txt"]
            found = []
            for folder, _, names in os.walk("."):
                found += [os.path.relpath(os.path.join(folder, x)) for x in names]
            expected = [os.path.relpath(x) for x in made + [given]]
            ensure(sorted(found) == sorted(expected), f"files {sorted(found)}, expected {sorted(expected)}")
            ensure(len(figures) == 1, f"{len(figures)} figures")
            figure = figures[0]
            if case["text"]:
                table = read_table(base + (".txt" if case["joined"] else "_data.txt"))
                check_info(base + (".txt" if case["joined"] else "_info.txt"), kp, len(gen.magnetic_ids(case["model"])), standard)
    check_figure(figure, case, kp, md if case["kind"] != "free" else MagnonDispersion(standard))
    # details on request
    shown = dict(re.findall(r"^ *(\S+) : \[(.*)\]$", printed, re.M))
    ensure(bool(shown) == case["verbose"], f"script {'with' if case['verbose'] else 'without'} -v prints {printed!r}")
    if case["verbose"]:
        ensure(sorted(shown) == sorted(kp.hs_names), f"special points {sorted(shown)}, expected {sorted(kp.hs_names)}")
        for x in shown:
            close([float(v) for v in shown[x].split()], kp.hs_coordinates[x], f"special point {x}", 1e-7)
    if not case["text"]:
        ctx.label("no text")
        return
    n = len(gen.magnetic_ids(case["model"]))
    points = kp.points(relative=False)
    ensure(table.shape == (len(points), 1 + n + 6), f"table {table.shape}, expected {(len(points), 1 + n + 6)}")
    rel, absolute = table[:, -6:-3], table[:, -3:]
    close(table[:, 0], kp.flatten_points(), "coordinate along the path", 1e-7)
    close(rel, kp.points(relative=True), "relative coordinates", 6e-9)
    close(absolute, points, "absolute coordinates", 6e-9)
    # the reciprocal cell of wulfric has the opposite sign for left-handed cells
    sign = np.sign(np.linalg.det(np.array(standard.cell)))
    close(sign * rel @ ref.reciprocal(standard.cell), absolute, "absolute coordinates from the relative ones", 1e-6)
    scale = ref.scale_of(case["model"])
    # the end points and some between; the Hamiltonian as it is in the file, before the standardization
    chosen = sorted(set(list(range(0, len(points), max(1, len(points) // 40))) + [len(points) - 1]))
    fixed = case["kind"] != "free"
    md_standard = MagnonDispersion(standard)
    for i in chosen:
        if fixed:
            close(table[i, 1 : 1 + n], md.omega(points[i]), f"energies at {absolute[i]}", 1e-6, scale)
        else:
            # without the definite form the class of the matrix may depend on the last digit
            close(table[i, 1 : 1 + n], md_standard.omega(points[i]), f"energies at {absolute[i]}", 1e-6, scale)
    ctx.label("path" if path else "default path")
    ctx.label("points" if extra else "no points")


def drawn(figure):
    """What is drawn in the figure."""
    ax = figure.axes[0]
    return {
        "axes": len(figure.axes),
        "lines": [np.array(x.get_xydata(), dtype=float) for x in ax.lines],
        "ticks": [float(x) for x in ax.get_xticks()],
        "labels": [x.get_text() for x in ax.get_xticklabels()],
        "lim": [float(x) for x in ax.get_xlim()],
    }


def check_figure(f, case, kp, md):
    """The picture shows all modes along the path with the labels of the special points."""
    n = len(gen.magnetic_ids(case["model"]))
    ensure(f["axes"] == 1 and len(f["lines"]) == n, f"{len(f['lines'])} lines in the picture, expected {n}")
    close(f["ticks"], kp.ticks(), "ticks of the picture", 1e-9)
    # only the last label is drawn for points that coincide on the axis
    ticks, labels = list(kp.ticks()), list(kp.labels)
    expected = [dict(zip(ticks, labels))[x] for x in ticks]
    for got, exp, own in zip(f["labels"], expected, labels):
        ensure(got in (exp, own), f"labels of the picture {f['labels']}, expected {expected}")
    ensure(len(f["labels"]) == len(labels), f"{len(f['labels'])} labels in the picture, expected {len(labels)}")
    flat, points = kp.flatten_points(), kp.points(relative=False)
    close(f["lim"], [flat[0], flat[-1]], "limits of the picture", 1e-9)
    for x in f["lines"]:
        ensure(x.shape == (len(flat), 2), f"line of the picture with {x.shape[0]} points, expected {len(flat)}")
        close(x[:, 0], flat, "coordinate in the picture", 1e-9)
    for i in sorted({0, len(flat) // 3, len(flat) - 1}):
        close(
            [x[i, 1] for x in f["lines"]], md.omega(points[i]), f"energies in the picture at {points[i]}", 1e-6, ref.scale_of(case["model"])
        )


FLOAT = r"(?<![\w.])[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?"


def check_info(path, kp, n, standard):
    """Description of the path in the text output."""
    with open(path, encoding="utf-8") as f:
        text = f.read()
    sections, position = {}, 0
    for name, following in (
        ("Cell:", "Detected"),
        ("kpath", "kpoints"),
        ("kpoints", "klabels"),
        ("klabels", "="),
        ("dispersion\n", "k_z"),
    ):
        start = text.find(name, position)
        ensure(start >= 0, f"no section {name!r} in the text output")
        end = text.find(following, start + len(name))
        ensure(end >= 0, f"section {name!r} is not finished")
        sections[name.strip()] = text[start + len(name) : end]
        position = end
    read = lambda name: [float(x) for x in re.findall(FLOAT, sections[name])]
    close(read("Cell:"), np.array(standard.cell).flatten(), "cell of the text output", 1e-7)
    ensure(sections["kpath"].strip() == kp.path_string.strip(), f"path {sections['kpath']!r}, expected {kp.path_string!r}")
    expected = np.array([kp.hs_coordinates[x] for x in kp.hs_names]).flatten()
    close(read("kpoints"), expected, "special points of the text output", 1e-7)
    close(read("klabels"), kp.ticks(), "positions of the labels in the text output", 1e-7)
    head = sections["dispersion"].split()
    ensure(head[0] == "Coordinate" and head[1 : 1 + n] == [f"omega_{k}" for k in range(n)], f"header {head}")
    ensure(sum(x.startswith("omega") for x in head) == n, f"header {head}")


def read_table(path):
    rows = []
    with open(path, encoding="utf-8") as f:
        for line in f:
            if line.startswith("#"):
                continue
            try:
                rows.append([float(x) for x in line.split()])
            except ValueError:
                ensure(not rows, f"line of the table is not numeric: {line!r}")
                rows = []
    rows = [r for r in rows if r]
    if len({len(r) for r in rows}) != 1:
        # joined output: the table is what follows the last line of the header
        last = len(rows[-1])
        rows = [r for r in rows if len(r) == last]
    return arr(rows, None, "table of the dispersion")


SUBCHECKS = [
    SubCheck(
        "minimize",
        minimize_cases(),
        run_minimize,
        quick=300,
        thorough=6000,
        rule="models in txt or hdf5 files x requested ground states x field x names, through main() with the command line; the number of iterations is bounded from outside; non-trivial: at least two magnetic atoms or a field",
        nontrivial=lambda c: c["field"] is not None or len(gen.magnetic_ids(c["model"])) > 1,
    ),
    SubCheck(
        "dispersion",
        dispersion_cases(),
        run_dispersion,
        quick=160,
        thorough=3000,
        rule="models in files x k path x additional points x output options, through main() with the command line; non-trivial: custom path or points",
        nontrivial=lambda c: c["path"] is not None or c["points"] is not None,
    ),
]
ASSUMPTIONS = [
    "the number of iterations of every minimization is bounded from outside (3 or 40), the resolution of pictures is lowered",
]
