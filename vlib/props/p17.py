import contextlib
import io
import math
import os
import random
import tempfile

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.core import SubCheck, arr, close, ensure, num, raises

NAMES = ["Cr1", "Cr2", "I1", "Fe_a", "fe_a", "Br10", "Br1", "1A", "Mn3", "O", "DMI", "Te2"]
MINOR = "-" * 88
MAJOR = "=" * 90


def six(lo=-4, hi=4):
    """Numbers with up to four decimals, as TB2J prints them."""
    return st.integers(int(lo * 10**4), int(hi * 10**4)).map(lambda k: k / 10**4)


@st.composite
def cases(draw):
    n = draw(st.integers(1, 4))
    names = draw(st.permutations(NAMES))[:n]
    cell = draw(gen.cell())
    moments = draw(st.sampled_from(["full", "full", "full", "charge", "none"]))
    atoms = []
    for name in names:
        atoms.append(
            {
                "name": name,
                "pos": draw(gen.vec(six(-6, 6))),
                "q": draw(six(-3, 8)),
                "m": draw(gen.vec(six(-5, 5))),
            }
        )
    raw = draw(
        st.lists(
            st.tuples(st.integers(0, n - 1), st.integers(0, n - 1), gen.vec(st.integers(-12, 12) | st.integers(-2, 2) | gen.RFAR)),
            min_size=1,
            max_size=6,
        )
    )
    bonds, seen = [], set()
    for i, j, r in raw:
        if i == j and r == [0, 0, 0]:
            r = [1, 0, 0]
        key, _ = gen.pair_key(i, j, r)
        if key in seen:
            continue
        seen.add(key)
        xx, yy, xy, xz, yz = (draw(six()) for _ in range(5))
        bonds.append(
            {
                "i": i,
                "j": j,
                "R": r,
                "parts": draw(st.sampled_from([["iso"], ["iso", "ani"], ["iso", "dmi"], ["iso", "dmi", "ani"], ["iso", "ani", "dmi"], ["dmi"], ["ani"]])),
                "iso": draw(six(-60, 60)),
                "ani": [[xx, xy, xz], [xy, yy, yz], [xz, yz, -xx - yy]],
                "dmi": draw(gen.vec(six())),
                "mirror": draw(st.booleans()),
                "spread": draw(six(-1, 1)),
            }
        )
    return {
        "cell": cell,
        "atoms": atoms,
        "moments": moments,
        "bonds": bonds,
        "layout": draw(st.integers(0, 10**6)),
        "wrong_distance": draw(st.integers(0, 5).map(lambda x: x == 0)),
        "quiet": draw(st.booleans()),
        "seed": draw(st.integers(0, 9)),
    }


def render(c):
    rng = random.Random(c["layout"])
    f = lambda x: f"{x:10.6f}" if c["layout"] % 5 == 0 else f" {float(x)!r}"
    out = []
    if rng.randrange(3):
        out += [MAJOR, "Information:", "Exchange parameters generated by TB2J 0.7.1.2.", ""]
    out += [MAJOR, "Cell (Angstrom):"]
    out += ["  ".join(f" {float(x)!r}" for x in v) for v in c["cell"]]
    out += [""] * rng.randrange(3)
    out += [MAJOR, "Atoms:", "(Note: charge and magmoms only count the wannier functions.)"]
    out += ["Atom_number   x           y           z           w_charge      M(x)       M(y)       M(z)"]
    for a in c["atoms"]:
        line = [a["name"].ljust(8)] + [repr(float(x)) for x in a["pos"]]
        if c["moments"] != "none":
            line.append(repr(a["q"]))
        if c["moments"] == "full":
            line += [repr(x) for x in a["m"]]
        out.append("    ".join(line))
    out.append("Total                                             12.5000      0.1000      -0.2000       3.0000")
    if rng.randrange(2):
        out += ["", MAJOR, "Orbitals used in decomposition: ", "The name of the orbitals for the decomposition: "]
        out += [f"{a['name']} : ('3dxy', '3dyz', '3dz2')" for a in c["atoms"]]
    out += [""] * rng.randrange(2)
    out += [MAJOR, "Exchange: ", "    i      j          R        J_iso(meV)          vector          distance(A)"]
    listed = []
    for b in c["bonds"]:
        listed.append((b, False))
        if b["mirror"]:
            listed.append((b, True))
    if rng.randrange(2):
        rng.shuffle(listed)
    absolute = [np.array(a["pos"]) for a in c["atoms"]]
    for b, flip in listed:
        i, j, r = (b["j"], b["i"], [-x for x in b["R"]]) if flip else (b["i"], b["j"], b["R"])
        v = absolute[j] + np.array(r) @ np.array(c["cell"]) - absolute[i]
        d = np.linalg.norm(v) + (1.5 if c["wrong_distance"] else 0)
        names = (c["atoms"][i]["name"], c["atoms"][j]["name"])
        out.append(MINOR)
        out.append(
            "   {:5s}   {:5s}   ({: 3d}, {: 3d}, {: 3d})   {:8.4f}   ({: .3f}, {: .3f}, {: .3f})  {:.3f}".format(
                *names, *r, b["iso"], *v, d
            )
        )
        for part in b["parts"]:
            if part == "iso":
                out.append(f"J_iso: {f(b['iso'])} ")
                if rng.randrange(2):
                    out.append(f"[Testing!] Jprime: {f(b['spread'])},  B: {f(-b['spread'])}")
            elif part == "dmi":
                x = [-y if flip else y for y in b["dmi"]]
                out.append("DMI: ({}, {}, {})".format(*(f(y) for y in x)))
            else:
                out.append("J_ani:")
                rows = ["[" + " ".join(f(y) for y in row) + "]" for row in b["ani"]]
                out += ["[" + rows[0], " " + rows[1], " " + rows[2] + "]"]
        if rng.randrange(3) == 0:
            out += ["Orbital contributions:", "[[-0.1  0.2]", " [ 0.3 -0.4]]", ""]
    # the last bond may be followed by a separator
    if rng.randrange(2):
        out.append(MINOR)
    if rng.randrange(2):
        out.append("")
    return "\n".join(out) + "\n"


def meaning(c):
    f = lambda x: float(f"{x:10.6f}") if c["layout"] % 5 == 0 else float(x)
    cell = np.array(c["cell"], dtype=float)
    atoms = []
    for a in c["atoms"]:
        full = c["moments"] == "full"
        atoms.append(
            {
                "name": a["name"],
                "pos": (np.array(a["pos"]) @ np.linalg.inv(cell)).tolist(),
                "g": 2.0,
                # magnetic moment is opposite to the spin
                "spin": [-x / 2.0 for x in a["m"]] if full else [0.0, 0.0, 0.0],
                "q": a["q"] if c["moments"] != "none" else None,
            }
        )
    bonds = []
    for b in c["bonds"]:
        m = np.zeros((3, 3))
        if "iso" in b["parts"]:
            m += f(b["iso"]) * np.eye(3)
        if "ani" in b["parts"]:
            m += np.array([[f(x) for x in row] for row in b["ani"]])
        if "dmi" in b["parts"]:
            x, y, z = (f(v) for v in b["dmi"])
            m += np.array([[0, z, -y], [-z, 0, x], [y, -x, 0]])
        bonds.append([b["i"], b["j"], b["R"], m.tolist()])
    return {
        "cell": c["cell"],
        "atoms": atoms,
        "bonds": bonds,
        "onsite": [],
        "notation": [True, True, -1.0, -1.0],
        "cone_axis": None,
        "spiral_vector": None,
    }


def check_physical(h, c):
    """Magnetic moments and indices, which compare_model does not see."""
    for k, (a, b) in enumerate(zip(h.atoms, c["atoms"])):
        if c["moments"] == "full":
            close(arr(a.magmom, (3,), "magmom"), b["m"], f"magnetic moment of {b['name']}", 1e-9)
        ensure(a.index == k + 1, f"index of {b['name']} is {a.index}, expected {k + 1}")


TOL = dict(tol_cell=1e-12, tol_pos=1e-8, tol_spin=1e-9, tol_g=1e-12, tol_par=1e-9, tol_par_rel=1e-10)


def run_load(case, ctx):
    from magnopy import load_spinham
    from magnopy.io.txt.tb2j import load_tb2j

    expected = meaning(case)
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "exchange.out")
        ref.write_text(path, render(case))
        ref.after_other(path, "tb2j", load_tb2j)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            h = load_tb2j(path, quiet=case["quiet"])
        # one message per listed bond with the distance that differs from the geometry
        listed = sum(2 if b["mirror"] else 1 for b in case["bonds"])
        printed = 0 if case["quiet"] or not case["wrong_distance"] else listed
        ensure(
            out.getvalue().lower().count("read:") == printed,
            f"{out.getvalue().lower().count('read:')} messages about distances, expected {printed}",
        )
        ensure(printed > 0 or out.getvalue() == "", f"load prints {out.getvalue()!r}")
        ref.compare_model(h, expected, "load_tb2j", default_charge=None, **TOL)
        check_physical(h, case)
        # every bond is stored together with its mirror
        names = [a["name"] for a in case["atoms"]]
        for i, j, r, m in expected["bonds"]:
            close(h[names[i], names[j], tuple(r)].matrix, m, f"bond {names[i]} {names[j]} {r}", 1e-9)
            close(h[names[j], names[i], tuple(-x for x in r)].matrix, np.array(m).T, f"mirrored bond {names[i]} {names[j]} {r}", 1e-9)
        h2 = load_spinham(path)
        ref.same_snapshot(ref.snapshot(h), ref.snapshot(h2), "load_spinham of exchange.out")
        ensure(sorted(os.listdir(d)) == ["exchange.out"], "loading wrote files")
    ctx.label("moments " + case["moments"])
    for b in case["bonds"]:
        ctx.label("parts " + "+".join(sorted(b["parts"])))
    if case["wrong_distance"]:
        ctx.label("distance of the file differs")


OUTPUTS = [
    # output name, format, file written
    ("model.txt", None, "model.txt"),
    ("model.hdf5", None, "model.hdf5"),
    ("model.txt", "hdf5", "model.hdf5"),
    ("model.hdf5", "hdf5", "model.hdf5"),
    ("model", "HDF5", "model.hdf5"),
    ("model.hdf5x", "TXT", "model.hdf5x"),
    ("model", None, "model"),
    ("model.dat", "txt", "model.dat"),
    ("spinham.txt", None, "spinham.txt"),
    ("spinham.txt", "hdf5", "spinham.hdf5"),
]


def run_convert(case, ctx):
    from magnopy import load_spinham, load_spinham_hdf5, load_spinham_txt
    from magnopy.score.convert_tb2j import main, manager

    name, fmt, written = OUTPUTS[case["seed"]]
    expected = meaning(case)
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "exchange.out")
        ref.write_text(path, render(case))
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            if fmt is not None and fmt != fmt.lower():
                # not one of the choices of the command line
                manager(path, os.path.join(d, name), format=fmt, verbose=not case["quiet"])
                printed = None
            else:
                from vlib.props.p21 import call_main, inside

                argv = ["-if", path]
                if fmt is not None:
                    argv += ["-f", fmt]
                if not case["quiet"]:
                    argv.append("-v")
                with inside(d):
                    # the default name of the output is in the working directory
                    printed = call_main(main, argv + ([] if name == "spinham.txt" else ["-of", os.path.join(d, name)]))
        printed = (out.getvalue() if printed is None else printed).lower().count("read:")
        listed = 0 if case["quiet"] or not case["wrong_distance"] else sum(2 if b["mirror"] else 1 for b in case["bonds"])
        ensure(printed == listed, f"{printed} messages about distances, expected {listed}")
        files = sorted(os.listdir(d))
        ensure(files == sorted(["exchange.out", written]), f"files {files}, expected {written}")
        target = os.path.join(d, written)
        expected = ref.storable(expected)
        if written.endswith(".hdf5"):
            h = load_spinham_hdf5(target)
            ref.compare_model(h, expected, "converted to hdf5", default_charge=None, **TOL)
        else:
            h = load_spinham_txt(target)
            ref.compare_model(
                h, expected, "converted to txt", tol_cell=6e-9, tol_pos=6e-9, tol_spin=6e-5, tol_g=6e-5, tol_par=6e-5
            )
        if written.endswith((".txt", ".hdf5")):
            ref.same_snapshot(ref.snapshot(h), ref.snapshot(load_spinham(target)), "load_spinham of the converted file")
    ctx.label(f"{name} {fmt}")


BRAVAIS = ["CUB", "FCC", "BCC", "TET", "BCT", "ORC", "ORCF", "ORCI", "ORCC", "HEX", "RHL", "MCL", "MCLC", "TRI"]
IDEAL = {
    "CUB": [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    "FCC": [[0, 0.5, 0.5], [0.5, 0, 0.5], [0.5, 0.5, 0]],
    "BCC": [[-0.5, 0.5, 0.5], [0.5, -0.5, 0.5], [0.5, 0.5, -0.5]],
    "TET": [[1, 0, 0], [0, 1, 0], [0, 0, 1.4]],
    "ORC": [[1, 0, 0], [0, 1.3, 0], [0, 0, 1.7]],
    "HEX": [[0.5, -0.8660254, 0], [0.5, 0.8660254, 0], [0, 0, 1.6]],
}


@st.composite
def bravais_cases(draw):
    """Almost ideal cells, printed with the noise of the given size."""
    c = draw(cases())
    kind = draw(st.sampled_from(sorted(IDEAL)))
    size = draw(st.integers(2, 9))
    noise = draw(st.sampled_from([0, 1e-5, 1e-4, 1e-3, 1e-2]))
    digits = draw(st.integers(3, 8))
    steps = [[draw(st.integers(-5, 5)) for _ in range(3)] for _ in range(3)]
    cell = np.array(IDEAL[kind]) * size + noise * np.array(steps) / 5
    c["cell"] = [[round(float(x), digits) for x in v] for v in cell]
    c["wanted"] = draw(st.sampled_from([kind, kind] + BRAVAIS))
    return c


def run_bravais(case, ctx):
    from magnopy.io.txt.tb2j import load_tb2j

    expected = meaning(case)
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "exchange.out")
        ref.write_text(path, render(case))
        ref.after_other(path, "tb2j", load_tb2j)
        plain = load_tb2j(path)
        ref.compare_model(plain, expected, "load_tb2j", default_charge=None, **TOL)
        # the accuracy is reduced tenfold until the type is found
        while plain.eps_rel < 1 and plain.type() != case["wanted"]:
            plain.eps_rel *= 10
        reached = plain.type() == case["wanted"]
        if reached:
            h = load_tb2j(path, bravais_type=case["wanted"])
            ensure(h.type() == case["wanted"], f"type {h.type()}, asked for {case['wanted']}")
            ref.compare_model(h, expected, f"load_tb2j with the type {case['wanted']}", default_charge=None, **TOL)
            close(h.eps_rel, plain.eps_rel, "accuracy", 1e-6)
            check_physical(h, case)
        else:
            raises(ValueError, lambda: load_tb2j(path, bravais_type=case["wanted"]), f"load_tb2j with the type {case['wanted']}")
    ctx.label("reached" if reached else "refused")
    ctx.label(f"wanted {case['wanted']}")


def nontrivial(c):
    return any(len(b["parts"]) > 1 for b in c["bonds"])


SUBCHECKS = [
    SubCheck(
        "load",
        cases(),
        run_load,
        quick=4000,
        thorough=60000,
        rule="TB2J files over cells, atoms with or without charges and moments, bonds with every combination of parts, listed from one or both ends; non-trivial: some bond has several parts",
        nontrivial=nontrivial,
    ),
    SubCheck(
        "bravais",
        bravais_cases(),
        run_bravais,
        quick=80,
        thorough=1500,
        rule="TB2J files with almost ideal cells and the Bravais type asked for; non-trivial: the type is not the triclinic one",
        nontrivial=lambda c: c["wanted"] != "TRI",
    ),
    SubCheck(
        "convert",
        cases(),
        run_convert,
        quick=2000,
        thorough=30000,
        rule="the same files through magnopy-convert-tb2j with every kind of the output name and format; non-trivial: some bond has several parts",
        nontrivial=nontrivial,
    ),
]
ASSUMPTIONS = [
    "J_ani of the file is symmetric and traceless, DMI and J_ani of the two members of a pair are consistent",
    "names of atoms are unique; numbers are separated by spaces as TB2J prints them",
    "bravais_type is not used (it needs a method removed from the crystal)",
]
