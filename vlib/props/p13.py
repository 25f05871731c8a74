import contextlib
import io
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.core import SubCheck, close, ensure

OPTIONS = [
    {},
    {"write_iso": True},
    {"write_dmi": True},
    {"write_symm": True},
    {"write_iso": True, "write_dmi": True, "write_symm": True},
    {"write_matrix": False, "write_iso": True, "write_dmi": True, "write_symm": True},
    {"write_matrix": True, "write_dmi": True, "write_symm": True},
]

# options for which the printed numbers determine the matrix without further rounding
EXACT = (0, 4, 5)


@st.composite
def cases(draw, big=False):
    spec = draw(
        gen.model(
            min_atoms=1 if not big else 9,
            max_atoms=4 if not big else 12,
            min_bonds=0,
            max_bonds=6 if not big else 12,
            max_onsite=0,
            zero_spin=True,
            charge=True,
            far=True,
            vectors=True,
        )
    )
    n = len(spec["atoms"])
    # the format holds symmetric on-site matrices
    sites = draw(st.lists(st.integers(0, n - 1), unique=True, max_size=n))
    spec["onsite"] = [[k, draw(gen.matrix(("symm", "diag", "iso")))] for k in sites]
    big_factor = draw(st.sampled_from([1.0, 1.0, 1.0, 100.0, 0.01]))
    for b in spec["bonds"]:
        b[3] = (np.array(b[3]) * big_factor).tolist()
    if spec["notation"][1]:
        # normalized notation needs spins
        for a in spec["atoms"]:
            if not any(a["spin"]):
                a["spin"] = [0.0, 0.0, 1.0]
    return {
        "model": spec,
        "options": draw(st.sampled_from(range(len(OPTIONS)))),
        "angles": draw(st.booleans()),
        "distance": draw(st.booleans()),
        "first": draw(st.booleans()),
        "filtered": draw(st.booleans()),
        "factor": draw(st.one_of(st.none(), gen.real(0.125, 4))),
    }


@st.composite
def large_cases(draw):
    """Numbers and names that fill the columns."""
    case = draw(cases())
    spec = case["model"]
    par = draw(st.sampled_from([1.0, 1e3, 1e5, 1e7, -1e4]))
    for b in spec["bonds"]:
        b[3] = (np.array(b[3]) * par).tolist()
    for b in spec["onsite"]:
        b[1] = (np.array(b[1]) * par).tolist()
    far = draw(st.sampled_from([1, 10, 1000]))
    for b in spec["bonds"]:
        b[2] = [x * far for x in b[2]]
    length = draw(st.sampled_from([1.0, 32.0, 1024.0]))
    spec["cell"] = (np.array(spec["cell"]) * length).tolist()
    spin, shift = draw(st.sampled_from([1.0, 1024.0])), draw(st.sampled_from([1.0, -128.0, 1024.0]))
    for k, a in enumerate(spec["atoms"]):
        a["spin"] = [x * spin for x in a["spin"]]
        a["pos"] = [x * shift for x in a["pos"]]
        if draw(st.booleans()):
            a["name"] = "Name" * draw(st.integers(1, 12)) + str(k)
    case["large"] = [abs(par), length, spin, abs(shift)]
    return case


def content(lines):
    """Text without comments: they do not belong to the model."""
    result = []
    for line in "\n".join(lines).split("\n"):
        line = line.split("#")[0].rstrip()
        if line.strip():
            result.append(line)
    return result


def dump_all(h, path, kwargs):
    """The three ways to write; they have to give the same text."""
    from magnopy import dump_spinham_txt

    lines = dump_spinham_txt(h, print_if_none=False, **kwargs)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = dump_spinham_txt(h, **kwargs)
    printed = out.getvalue()
    ensure(r is None, "dump with printing returned something")
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        dump_spinham_txt(h, filename=path, **kwargs)
    ensure(out.getvalue() == "", "dump to the file printed something")
    with open(path, encoding="utf-8") as f:
        written = f.read()
    ensure(content(lines) == content(printed.split("\n")), "printed text differs from the returned lines")
    ensure(content(lines) == content(written.split("\n")), "written text differs from the returned lines")
    return content(lines)


def run(case, ctx):
    from magnopy import load_spinham_txt

    spec = ref.deep(case["model"])
    if case["factor"] is not None:
        spec["notation"][2] = case["factor"]
    h = ref.build(spec, notation_first=case["first"])
    kwargs = dict(OPTIONS[case["options"]])
    kwargs["write_spin_angles"] = case["angles"]
    kwargs["write_distance"] = case["distance"]
    expected = ref.deep(spec)
    if not spec["bonds"]:
        expected["notation"][0] = expected["notation"][2] = None
    if not spec["onsite"]:
        expected["notation"][3] = None
    if not spec["bonds"] and not spec["onsite"]:
        expected["notation"][1] = None
    parts = not kwargs.get("write_matrix", True) or kwargs.get("write_iso") or kwargs.get("write_symm")
    tol = {
        "tol_cell": 6e-9,
        "tol_pos": 6e-9,
        "tol_spin": 6e-5 if not case["angles"] else 7e-5,
        "tol_g": 6e-5,
        "tol_par": 2.6e-4 if parts else 6e-5 if not kwargs.get("write_dmi") else 1.1e-4,
        "tol_vec": 2e-8,
    }
    par, length, spin, shift = case.get("large", [1.0] * 4)
    # rounding of large numbers
    more = {"tol_cell": 1e-13 * length, "tol_pos": 1e-12 * shift, "tol_spin": (2e-8 if case["angles"] else 1e-12) * spin, "tol_par": 2e-13 * par if par > 1 else 0.0}
    if case["angles"]:
        # angles are printed with a fixed number of decimals
        more["tol_spin"] = 7e-5 * (spin - 1)
    for key, value in more.items():
        tol[key] += value
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "model.txt")
        text = dump_all(h, path, kwargs)
        ref.after_other(path, "txt", load_spinham_txt)
        h1 = load_spinham_txt(path, save_filtered=case["filtered"])
        files = sorted(os.listdir(d))
        if case["filtered"]:
            ensure(files == ["filtered_model.txt", "model.txt"], f"files {files}")
            hf = load_spinham_txt(os.path.join(d, "filtered_model.txt"))
            ref.same_snapshot(ref.snapshot(h1), ref.snapshot(hf), "filtered copy of the file")
        else:
            ensure(files == ["model.txt"], f"files {files}")
        ref.compare_model(h1, expected, "after the first reading", **tol)
        text1 = dump_all(h1, path, kwargs)
        h2 = load_spinham_txt(path)
        # the printed numbers are reproduced
        s1, s2 = ref.snapshot(h1), ref.snapshot(h2)
        tiny = {"tol_cell": 1e-10, "tol_pos": 1e-10, "tol_spin": 1e-5 if case["angles"] else 1e-10, "tol_g": 1e-10, "tol_par": 1e-10 if case["options"] in EXACT else tol["tol_par"], "tol_vec": 2e-8}
        for key, value in more.items():
            tiny[key] += value
        again = {
            "cell": s1["cell"],
            "atoms": s1["atoms"],
            "notation": s1["notation"],
            "bonds": [],
            "onsite": [],
            "cone_axis": s1["cone_axis"],
            "spiral_vector": s1["spiral_vector"],
        }
        index = {a["name"]: k for k, a in enumerate(s1["atoms"])}
        for a, b, r, m in s1["exchange"]:
            again["bonds"].append([index[a[0]], index[b[0]], list(r), m])
        for a, m in s1["on_site"]:
            again["onsite"].append([index[a[0]], m])
        ref.compare_model(h2, again, "after the second reading", **tiny)
        if case["options"] in (0, 5) and not case["angles"] and spec["cone_axis"] is None and all(a["q"] is not None for a in spec["atoms"]):
            ctx.label("text compared")
            norm = lambda t: sorted(x.replace("-0.0000", " 0.0000") for x in t)
            ensure(
                [x.split() for x in norm(text)] == [x.split() for x in norm(text1)],
                lambda: f"dump of the reloaded model differs: {sorted(set(norm(text)) ^ set(norm(text1)))[:6]}",
            )
    ctx.label("options %d" % case["options"])
    ctx.label("angles" if case["angles"] else "vectors")
    if len(spec["atoms"]) > 8:
        ctx.label("many atoms")


def nontrivial(c):
    return bool(c["model"]["bonds"]) and (bool(c["model"]["onsite"]) or len(c["model"]["atoms"]) > 1)


SUBCHECKS = [
    SubCheck(
        "round-trip",
        cases(),
        run,
        quick=5000,
        thorough=40000,
        rule="model x writing options x spin form; non-trivial: has bonds and either on-site terms or several atoms",
        nontrivial=nontrivial,
    ),
    SubCheck(
        "many-atoms",
        cases(big=True),
        run,
        quick=500,
        thorough=4000,
        rule="as above with 9 to 12 atoms and up to 12 bonds",
        nontrivial=nontrivial,
    ),
    SubCheck(
        "large-numbers",
        large_cases(),
        run,
        quick=1200,
        thorough=10000,
        rule="as above with parameters up to 1e9, cells up to 1000 away, positions, cells and spins up to thousands and long names",
        nontrivial=lambda c: nontrivial(c) and max(c["large"]) > 1,
    ),
]
ASSUMPTIONS = [
    "on-site matrices are symmetric (the format stores six numbers)",
    "undefined charges are read as zero, as the specification has no undefined charge",
    "numbers are compared within half of the last printed digit (sums of parts: accordingly more)",
]
