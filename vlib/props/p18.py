import math
import os
import re
import tempfile

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.core import SubCheck, arr, close, ensure, fail, num, raises

MASKS = {
    "diagonal": lambda m: np.diag(np.diag(m)),
    "half": lambda m: np.array(m) * 0.5,
    "isotropic": lambda m: np.trace(m) / 3 * np.eye(3),
    "nothing": lambda m: np.zeros((3, 3)),
    "upper": lambda m: np.triu(m),
    "shift": lambda m: np.array(m) + np.arange(9).reshape(3, 3),
}


@st.composite
def cases(draw):
    spec = draw(gen.model(max_atoms=4, min_bonds=0, max_bonds=5, charge=True, far=True, vectors=True, wide=True))
    ids = gen.magnetic_ids(spec)
    n = len(ids)
    if not n:
        spec["onsite"] = [[0, draw(gen.matrix())]]
        n = 1
    materials = None
    if draw(st.booleans()):
        # materials are numbered without gaps, in any order
        k = draw(st.integers(1, n))
        labels = draw(st.permutations(range(k)))
        materials = [labels[x] for x in list(range(k)) + [draw(st.integers(0, k - 1)) for _ in range(n - k)]]
        materials = list(draw(st.permutations(materials)))
    return {
        "model": spec,
        "materials": materials,
        "anisotropic": draw(st.booleans()),
        "dmi": draw(st.booleans()),
        "mask": draw(st.sampled_from([None, None] + sorted(MASKS))),
        "decimals": draw(st.sampled_from([None, 5, 8, 12, 2])),
        "nologo": draw(st.booleans()),
        "first": draw(st.booleans()),
        "dirs": draw(gen.directions(len(spec["atoms"]))),
        "seed": draw(st.sampled_from([None, "model", "a.b", "sub/name"])),
    }


def lines_of(text):
    """Lines without the logo and comments, together with the section they belong to."""
    sections = {}
    name = None
    for line in text.split("\n"):
        s = line.strip()
        if s in ("# Unit cell size:", "# Unit cell lattice vectors:", "# Atoms", "# Interactions"):
            name = s[2:].rstrip(":")
            ensure(name not in sections, f"section {name} is repeated")
            sections[name] = []
        elif s.startswith("#") or not s:
            continue
        else:
            ensure(name is not None, f"line out of sections: {line!r}")
            sections[name].append(s.split())
    return sections


def numbers(tokens, what):
    try:
        return [float(x) for x in tokens]
    except ValueError:
        fail(f"{what}: {tokens}")


def expected_interactions(spec, ids, transform):
    """{(i, j, R): matrix in meV}, every interaction in vampire notation."""
    pairs, sites = ref.physical(spec)
    out = {}
    for (i, j, r), t in pairs.items():
        t = np.array(t)
        out[ids.index(i), ids.index(j), tuple(r)] = transform(-t)
        out[ids.index(j), ids.index(i), tuple(-x for x in r)] = transform(-t.T)
    for k, t in sites.items():
        out[ids.index(k), ids.index(k), (0, 0, 0)] = transform(-2 * np.array(t))
    return out


def transform_of(case):
    def transform(m):
        m = np.array(m, dtype=float)
        if case["mask"] is not None:
            return np.array(MASKS[case["mask"]](m), dtype=float)
        if not case["dmi"]:
            m = m - (m - m.T) / 2
        if not case["anisotropic"]:
            m = m - ((m + m.T) / 2 - np.trace(m) / 3 * np.eye(3))
        return m

    return transform


def check_ucf(text, case, spec, ids):
    materials = case["materials"] if case["materials"] is not None else list(range(len(ids)))
    s = lines_of(text)
    ensure(
        list(s) == ["Unit cell size", "Unit cell lattice vectors", "Atoms", "Interactions"], f"sections {list(s)}"
    )
    cell = np.array(spec["cell"], dtype=float)
    ensure(len(s["Unit cell size"]) == 1 and len(s["Unit cell lattice vectors"]) == 3, "number of lines of the cell")
    close(numbers(s["Unit cell size"][0], "cell size"), np.linalg.norm(cell, axis=1), "unit cell size", 6e-9, 1)
    close([numbers(x, "lattice vector") for x in s["Unit cell lattice vectors"]], cell, "lattice vectors", 6e-9, 1)
    head, *atoms = s["Atoms"]
    ensure([int(x) for x in head] == [len(ids), len(set(materials))], f"header of atoms {head}")
    ensure(len(atoms) == len(ids), f"{len(atoms)} lines of atoms for {len(ids)} magnetic atoms")
    for n, (line, k) in enumerate(zip(atoms, ids)):
        ensure(len(line) == 5 and int(line[0]) == n, f"line of the atom {n}: {line}")
        close(numbers(line[1:4], "position"), spec["atoms"][k]["pos"], f"position of atom {n}", 6e-9, 1)
        ensure(int(line[4]) == materials[n], f"material of the atom {n}: {line[4]}, expected {materials[n]}")
    head, *lines = s["Interactions"]
    expected = expected_interactions(spec, ids, transform_of(case))
    ensure(head == [str(len(expected)), "tensorial"], f"header of interactions {head}, expected {len(expected)} tensorial")
    ensure(len(lines) == len(expected), f"{len(lines)} lines of interactions, expected {len(expected)}")
    got = {}
    for n, line in enumerate(lines):
        ensure(len(line) == 15 and int(line[0]) == n, f"line of the interaction {n}: {line}")
        i, j, *r = (int(x) for x in line[1:6])
        key = (i, j, tuple(r))
        ensure(key not in got, f"interaction {key} is repeated")
        got[key] = np.array(numbers(line[6:], "tensor")).reshape(3, 3)
    if set(got) != set(expected):
        fail(f"interactions: missing {set(expected) - set(got)}, extra {set(got) - set(expected)}")
    decimals = 5 if case["decimals"] is None else case["decimals"]
    scale = max([1.0] + [np.abs(m).max() for m in expected.values()])
    for key, m in expected.items():
        value = got[key] / ref.MEV
        size = np.abs(m)
        with np.errstate(divide="ignore"):
            # last digit of the printed value
            last = 10.0 ** (np.floor(np.log10(np.where(size > 0, size * ref.MEV, 1e-300))) - decimals)
        bound = 0.51 * last / ref.MEV * 10.0 ** (np.zeros_like(last)) + 2e-12 * scale
        # a value just below a power of ten may be printed with one digit less
        bound = np.where(np.abs(value) >= 10.0 ** np.ceil(np.log10(np.where(size > 0, size * ref.MEV, 1e-300))) / ref.MEV, 5.1 * last / ref.MEV + 2e-12 * scale, bound)
        if not np.all(np.abs(value - m) <= bound):
            fail(f"interaction {key}: {value.tolist()} meV, expected {m.tolist()}")
    return got


def check_mat(text, case, spec, ids, h):
    materials = case["materials"] if case["materials"] is not None else list(range(len(ids)))
    values, count = {}, None
    for line in text.split("\n"):
        line = line.split("#")[0].split("!")[0].strip()
        if not line:
            continue
        key, _, value = line.partition("=")
        key, value = key.strip(), value.strip()
        if key == "material:num-materials":
            ensure(count is None, "number of materials is repeated")
            count = int(value)
            continue
        m = re.fullmatch(r"material\[(\d+)\]:(.+)", key)
        ensure(m is not None, f"line of the .mat file: {line!r}")
        k = (int(m.group(1)), m.group(2))
        ensure(k not in values, f"{key} is repeated")
        values[k] = value
    ensure(count == len(set(materials)), f"number of materials {count}, expected {len(set(materials))}")
    ensure({k[0] for k in values} == {x + 1 for x in materials}, f"materials {sorted({k[0] for k in values})}")
    for m in set(materials):
        k = ids[materials.index(m)]
        atom = spec["atoms"][k]
        s = np.array(atom["spin"], dtype=float)
        get = lambda x: values.get((m + 1, x)) or fail(f"material {m + 1} has no {x}")
        ensure(get("material-name") == atom["name"], f"name of material {m + 1}: {get('material-name')}, expected {atom['name']}")
        ensure(get("material-element") == [a.type for a in h.atoms][k], f"element of material {m + 1}: {get('material-element')}")
        close(float(get("atomic-spin-moment")), np.linalg.norm(s), f"spin of material {m + 1}", 1e-7)
        direction = get("initial-spin-direction")
        if np.linalg.norm(s) > 0:
            close(numbers(direction.split(","), "direction"), s / np.linalg.norm(s), f"spin direction of material {m + 1}", 6e-9, 1)
        else:
            ensure(direction == "random", f"spin direction of material {m + 1}: {direction}")


def strip(text):
    return [x.rstrip() for x in text.split("\n") if not x.strip().startswith("#") and x.strip()]


def check_logo(text, nologo, what):
    """The logo, with the version, is in the comments of the file if it is not switched off."""
    from magnopy import __version__

    found = any(__version__ in x for x in text.split("\n") if x.strip().startswith("#"))
    ensure(found is (not nologo), f"{what} {'without' if nologo else 'with'} nologo: the logo is {'' if found else 'not '}there")


def run(case, ctx):
    from magnopy.io.txt.vampire import dump_mat, dump_ucf, dump_vampire

    spec = case["model"]
    ids = gen.magnetic_ids(spec)
    h = ref.build(spec, notation_first=case["first"])
    before = ref.snapshot(h)
    kw = {"anisotropic": case["anisotropic"], "dmi": case["dmi"], "materials": case["materials"]}
    if case["mask"] is not None:
        kw["custom_mask"] = MASKS[case["mask"]]
    if case["decimals"] is not None:
        kw["decimals"] = case["decimals"]
    text = dump_ucf(h, nologo=case["nologo"], **kw)
    ensure(isinstance(text, str), f"dump_ucf returned {type(text)}")
    got = check_ucf(text, case, spec, ids)
    check_logo(text, case["nologo"], "dump_ucf")
    if case["mask"] is None and case["dmi"] and case["anisotropic"]:
        # energy that Vampire assigns to the spin directions
        e = ref.normed(case["dirs"])
        energy = -0.5 * sum(e[ids[i]] @ m @ e[ids[j]] for (i, j, _), m in got.items()) / ref.MEV
        decimals = 5 if case["decimals"] is None else case["decimals"]
        bound = 5 * 10.0**-decimals * (1 + sum(np.abs(m).sum() for m in got.values()) / ref.MEV)
        close(energy, ref.ferro_energy(spec, e[ids]), "energy of the UCF file", bound, 1)
        ctx.label("energy")
    mat = dump_mat(h, materials=case["materials"], nologo=case["nologo"])
    ensure(isinstance(mat, str), f"dump_mat returned {type(mat)}")
    check_mat(mat, case, spec, ids, h)
    check_logo(mat, case["nologo"], "dump_mat")
    if not case["nologo"]:
        # the logo is the default
        check_logo(dump_ucf(h, **kw), False, "dump_ucf by default")
        check_logo(dump_mat(h, materials=case["materials"]), False, "dump_mat by default")
    here = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            seed = case["seed"]
            args = {} if seed is None else {"seedname": seed}
            seed = seed or "vampire"
            if "/" in seed:
                os.mkdir(os.path.dirname(seed))
            dump_vampire(h, nologo=case["nologo"], **args, **kw)
            found = sorted(os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs)
            ensure(found == sorted([seed + ".UCF", seed + ".mat", "input"]), f"files of dump_vampire: {found}")
            read = lambda f: open(f, encoding="utf-8").read()
            ucf, mat2, inp = read(seed + ".UCF"), read(seed + ".mat"), read("input")
            for t, w in ((ucf, "UCF"), (mat2, ".mat"), (inp, "input")):
                check_logo(t, case["nologo"], f"{w} of dump_vampire")
            ensure(strip(ucf) == strip(text), "UCF of dump_vampire differs from dump_ucf")
            ensure(strip(mat2) == strip(mat), ".mat of dump_vampire differs from dump_mat")
            pairs = dict([y.strip() for y in x.split("=")] for x in strip(inp))
            ensure(
                pairs == {"material:file": seed + ".mat", "material:unit-cell-file": seed + ".UCF"},
                f"input file {pairs}",
            )
            out = dump_ucf(h, filename="one.UCF", nologo=True, **kw)
            ensure(out is None and strip(read("one.UCF")) == strip(text), "dump_ucf in the file")
            out = dump_mat(h, filename="one.mat", materials=case["materials"], nologo=True)
            ensure(out is None and strip(read("one.mat")) == strip(mat), "dump_mat in the file")
        finally:
            os.chdir(here)
    ref.same_snapshot(before, ref.snapshot(h), "Hamiltonian after the writing")
    ctx.label("materials" if case["materials"] is not None else "no materials")
    ctx.label(f"mask {case['mask']}")
    if len(ids) < len(spec["atoms"]):
        ctx.label("non-magnetic atoms")
    if spec["onsite"]:
        ctx.label("on-site")


def run_undefined(case, ctx):
    from magnopy.exceptions import NotationError
    from magnopy.io.txt.vampire import dump_ucf

    spec = ref.deep(case["model"])
    missing = case["missing"]
    h = ref.build(dict(spec, notation=None))
    for k, part in enumerate(ref.NOTATION_PARTS):
        if k not in missing:
            setattr(h, part, spec["notation"][k])
    before = ref.snapshot(h)
    raises(NotationError, lambda: dump_ucf(h), f"dump_ucf without {[ref.NOTATION_PARTS[k] for k in missing]}")
    ref.same_snapshot(before, ref.snapshot(h), "Hamiltonian after the refused writing")


SUBCHECKS = [
    SubCheck(
        "files",
        cases(),
        run,
        quick=3000,
        thorough=40000,
        rule="models in any notation with magnetic and non-magnetic atoms, materials, masks, decimals; non-trivial: has bonds",
        nontrivial=lambda c: bool(c["model"]["bonds"]),
    ),
    SubCheck(
        "undefined notation",
        st.fixed_dictionaries(
            {
                "model": gen.model(max_atoms=3, min_bonds=1, max_bonds=3),
                "missing": st.lists(st.integers(0, 3), min_size=1, max_size=4, unique=True),
            }
        ),
        run_undefined,
        quick=400,
        thorough=4000,
        rule="models with some parts of the notation undefined",
    ),
]
ASSUMPTIONS = [
    "spins are not zero; materials are numbered from zero without gaps",
    "masks act on every tensor of the file, the on-site ones included",
]
