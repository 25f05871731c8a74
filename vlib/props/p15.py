import os
import tempfile

from hypothesis import strategies as st

from vlib import ref, txtgen
from vlib.core import SubCheck, close

TOL = dict(tol_cell=1e-9, tol_pos=1e-8, tol_spin=1e-9, tol_g=1e-12, tol_par=1e-9, tol_par_rel=1e-9, tol_vec=1e-8)


def cases():
    return st.fixed_dictionaries({"content": txtgen.contents(), "styles": st.lists(txtgen.STYLE, min_size=1, max_size=2)})


def load(text, d):
    from magnopy import load_spinham_txt

    path = os.path.join(d, "model.txt")
    ref.write_text(path, text)
    ref.after_other(path, "txt", load_spinham_txt)
    return load_spinham_txt(path)


def run(case, ctx):
    c = case["content"]
    expected = txtgen.meaning(c)
    with tempfile.TemporaryDirectory() as d:
        for style in [[0, 0]] + case["styles"]:
            text = txtgen.render(txtgen.document(c, style), style)
            h = load(text, d)
            ref.compare_model(h, expected, f"style {style}", **TOL)
    for key in ("cell_units", "atoms_units", "exchange_units", "onsite_units"):
        if c[key]:
            ctx.label(f"{key} {c[key]}")
    if c["scale"]:
        ctx.label("scale 3" if len(c["scale"]) == 3 else "scale volume" if c["scale"][0] < 0 else "scale 1")
    ctx.label("coordinates " + c["coords"])
    ctx.label("spin " + c["spin"])
    if any(txtgen.skipped(c, a) for a in c["atoms"]):
        ctx.label("skipped blocks")
    if any(len(b["blocks"]) > 1 for b in c["bonds"]):
        ctx.label("several blocks per bond")
    if c["cone"]:
        ctx.label(f"cone axis {len(c['cone'][1])}{c['cone'][0]}")
    if c["spiral"]:
        ctx.label(f"spiral vector {c['spiral'][0]}")


def nontrivial(c):
    c = c["content"]
    return bool(c["bonds"]) and (c["cell_units"] == "b" or c["scale"] is not None or c["coords"] != "rel" or (c["exchange_units"] or "m") != "m")


SUBCHECKS = [
    SubCheck(
        "specification",
        cases(),
        run,
        quick=3000,
        thorough=40000,
        rule="contents of a file over the whole grammar x two or three layouts; non-trivial: has bonds and a non-default unit, scale or coordinate form",
        nontrivial=nontrivial,
    )
]
ASSUMPTIONS = [
    "under no double counting only one member of a pair is listed",
    "negative scale is used with Angstrom only (volume in cubic Angstrom)",
    "blocks are skipped by '-' in whole combinations",
]
