"""Grammar of text model files: data -> logical document -> text, and its meaning.

A case is plain data; `document` turns it in sections of tokens, `render` writes the text in a
style given by a seed, `meaning` gives the Hamiltonian that the specification assigns to it."""

import math
import random

import numpy as np
from hypothesis import strategies as st

from vlib import gen

ANG, BOHR = 1e-10, 5.29177210903e-11
MEV = 1.602176634e-22
ENERGY = {
    "m": 1.0,
    "e": 1e3,
    "j": 1 / MEV,
    "k": 1.380649e-23 / MEV,
    "r": 6.62607015e-34 * 299792458 * 10973731.568160 / MEV,
}
# typical size of a parameter in these units
SIZE = {"m": 1.0, "e": 1e-3, "j": 1e-22, "k": 10.0, "r": 1e-4}
ENERGY_WORDS = {
    "m": ["meV", "m", "milli-electron-Volt", "MEV"],
    "e": ["eV", "e", "electron-Volt", "EV"],
    "j": ["J", "Joule", "j"],
    "k": ["K", "Kelvin", "k"],
    "r": ["Ry", "Rydberg", "r"],
}
NAMES = ["Fe1", "Fe2", "Cr_b", "cr_b", "1A", "iso", "D2", "m", "Fe-3", "Mn.x", "name", "S", "Co10", "X__y", "r1"]
TRUE = ["true", "t", "yes", "y", "1"]
FALSE = ["false", "f", "no", "n", "0"]
IGNORED = ["foo", "magmom", "U", "comment", "#none"][:4]


def number(lo=-4, hi=4):
    return gen.real(lo, hi, 16)


@st.composite
def contents(draw, max_atoms=4, max_bonds=4, simple=False):
    cell_units = draw(st.sampled_from([None, "a", "b"]))
    scale = draw(st.sampled_from(["none", "none", "one", "three", "volume"]))
    if scale == "volume" and cell_units == "b":
        scale = "one"
    c = {
        "cell": draw(gen.cell()),
        "cell_units": cell_units,
        "scale": None
        if scale == "none"
        else [draw(gen.real(0.25, 4, 8))]
        if scale == "one"
        else [draw(gen.real(0.25, 4, 8)) for _ in range(3)]
        if scale == "three"
        else [-draw(gen.grid(20, 200, 4))],
    }
    low, low_bonds = 1, 0
    if not simple and draw(st.integers(0, 19)) == 19:
        # sometimes more atoms and bonds than usual
        low, max_atoms, low_bonds, max_bonds = 6, 8, 4, 8
    n = draw(st.integers(low, max_atoms))
    names = draw(st.permutations(NAMES))[:n]
    coords = draw(st.sampled_from(["rel", "rel", "abs", "both"]))
    spin = draw(st.sampled_from(["none", "vec", "vec", "ang", "s", "vec+s", "vec+ang"]))
    orbital = draw(st.sampled_from(["none", "none", "vec", "ang", "s"]))
    total = draw(st.sampled_from(["none", "none", "vec", "ang", "s"]))
    c["coords"], c["spin"], c["orbital"], c["total"] = coords, spin, orbital, total
    c["has_g"], c["has_q"] = draw(st.booleans()), draw(st.booleans())
    c["ignored"] = draw(st.lists(st.sampled_from(IGNORED), unique=True, max_size=2))
    c["columns"] = draw(st.integers(0, 10**6))
    c["atoms_units"] = draw(st.sampled_from([None, "a", "b"] + (["r"] if coords == "rel" else [])))
    c["atoms"] = []
    for name in names:
        c["atoms"].append(
            {
                "name": name,
                "rel": draw(gen.vec(gen.real(-1, 1, 16))),
                "abs": draw(gen.vec(gen.real(-5, 5, 16))),
                "sv": draw(gen.vec(number(-3, 3))),
                "sp": draw(gen.real(0, 360, 2)),
                "st": draw(gen.real(0, 180, 2)),
                "s": draw(gen.real(0.25, 4, 8)),
                "g": draw(st.one_of(gen.real(0.5, 3, 8), gen.real(-3, 3, 8))),
                "q": draw(gen.real(-3, 3, 8)),
                "other": draw(st.lists(number(), min_size=8, max_size=8)),
                # blocks written as "-"
                "skip": draw(st.lists(st.sampled_from(["g", "q", "spin", "vec", "ang", "rel", "abs", "ignored", "orbital"]), unique=True, max_size=2))
                if draw(st.booleans())
                else [],
            }
        )
    # bonds
    raw = draw(
        st.lists(
            st.tuples(st.integers(0, n - 1), st.integers(0, n - 1), gen.vec(st.one_of(st.integers(-2, 2), st.integers(-2, 2), gen.RFAR))), min_size=low_bonds, max_size=max_bonds
        )
    )
    bonds, seen = [], set()
    for i, j, r in raw:
        if i == j and r == [0, 0, 0]:
            r = [0, 1, 0]
        key, _ = gen.pair_key(i, j, r)
        if key in seen:
            continue
        seen.add(key)
        blocks = draw(st.lists(st.sampled_from(["matrix", "iso", "dmi", "symm"]), unique=True, min_size=1, max_size=4))
        bonds.append(
            {
                "i": i,
                "j": j,
                "R": r,
                "blocks": blocks,
                "matrix": [[draw(number()) for _ in range(3)] for _ in range(3)],
                "iso": draw(number()),
                "dmi": [draw(number()) for _ in range(3)],
                "symm": [draw(number()) for _ in range(5)],
                "mirror": draw(st.booleans()),
            }
        )
    c["bonds"] = bonds
    c["onsite"] = [
        [k, [draw(number()) for _ in range(6)]]
        for k in draw(st.lists(st.integers(0, n - 1), unique=True, max_size=n))
    ]
    c["exchange_units"] = draw(st.sampled_from([None, "m", "e", "j", "k", "r"]))
    c["onsite_units"] = draw(st.sampled_from([None, "m", "e", "j", "k", "r"]))
    c["notation"] = [draw(st.booleans()), draw(st.booleans()), draw(gen.factor()), draw(gen.factor())]
    c["extra_notation"] = draw(st.booleans())
    c["cone"] = draw(
        st.one_of(
            st.none(),
            st.tuples(st.sampled_from([None, "r", "a"]), gen.nonzero_vec()).map(list),
            st.tuples(st.sampled_from([None, "r", "a"]), st.tuples(gen.real(0, 180, 2), gen.real(0, 360, 2)).map(list)).map(list),
        )
    )
    c["spiral"] = draw(st.one_of(st.none(), st.tuples(st.sampled_from([None, "r", "a"]), gen.vec(gen.real(-1, 1, 16))).map(list)))
    c["foreign"] = draw(st.sampled_from([None, None, "Extra", "kpath"]))
    return c


STYLE = st.tuples(st.integers(0, 3), st.integers(0, 10**6)).map(list)  # level, seed


# ------------------------------------------------------------------ logical document
def fnum(x, rng, level):
    """A spelling of the number that reads back exactly."""
    s = repr(float(x))
    if level < 2:
        return s
    k = rng.randrange(4)
    if k == 0 and float(x) == int(x) and abs(x) < 1e6:
        return str(int(x))
    if k == 1:
        return f"{float(x):.17e}"
    if k == 2 and not s.startswith("-"):
        return "+" + s
    return s


def case_of(word, rng, level):
    if level == 0:
        return word
    k = rng.randrange(4)
    if k == 0:
        return word.upper()
    if k == 1:
        return word.lower()
    if k == 2 and level > 1:
        return "".join(x.upper() if rng.randrange(2) else x.lower() for x in word)
    return word


def length_word(u, rng, level):
    if level == 0:
        return {"a": "Angstrom", "b": "Bohr", "r": "Relative"}[u]
    return case_of(rng.choice({"a": ["Angstrom", "A", "ang"], "b": ["Bohr", "b", "bohrs"], "r": ["Relative", "r", "rel"]}[u]), rng, level)


def coordinate_word(u, rng, level):
    if level == 0:
        return {"r": "Relative", "a": "Absolute"}[u]
    return case_of(rng.choice({"r": ["Relative", "r", "rel"], "a": ["Absolute", "a", "abs"]}[u]), rng, level)


def energy_word(u, rng, level):
    return ENERGY_WORDS[u][0] if level == 0 else case_of(rng.choice(ENERGY_WORDS[u]), rng, level)


def columns(c):
    """Header words of the atoms section in the order of the file."""
    cols = ["name"]
    if c["coords"] in ("rel", "both"):
        cols += ["r1", "r2", "r3"]
    if c["coords"] in ("abs", "both"):
        cols += ["x", "y", "z"]
    for letter, form in (("s", c["spin"]), ("l", c["orbital"]), ("j", c["total"])):
        if "vec" in form:
            cols += [letter + x for x in "xyz"]
        if form in ("ang", "vec+ang"):
            cols += [letter + "p", letter + "t", letter]
        if form in ("s", "vec+s"):
            cols += [letter]
    if c["has_g"]:
        cols.append("g")
    if c["has_q"]:
        cols.append("q")
    cols += [x.lower() for x in c["ignored"]]
    rng = random.Random(c["columns"])
    if c["columns"] % 3:
        rng.shuffle(cols)
    return cols


def skipped(c, atom):
    """Columns written as "-" for this atom; always whole combinations."""
    out = set()
    for s in atom["skip"]:
        if s == "g" and c["has_g"]:
            out.add("g")
        elif s == "q" and c["has_q"]:
            out.add("q")
        elif s == "ignored":
            out |= {x.lower() for x in c["ignored"]}
        elif s == "rel" and c["coords"] == "both" and "x" not in out:
            out |= {"r1", "r2", "r3"}
        elif s == "abs" and c["coords"] == "both" and "r1" not in out:
            out |= {"x", "y", "z"}
        elif s == "spin":
            out |= {x for x in columns(c) if x in ("sx", "sy", "sz", "sp", "st", "s")}
        elif s == "vec" and "vec" in c["spin"]:
            out |= {"sx", "sy", "sz"}
        elif s == "ang" and c["spin"] in ("ang", "vec+ang"):
            out |= {"sp", "st"}
        elif s == "orbital":
            out |= {x for x in columns(c) if x[0] == "l"}
    return out


def document(c, style):
    """List of sections; a section is a dict with the name and its blocks of lines (token lists).

    blocks: list of lists of lines; blocks after the first are separated by subseparators."""
    level, seed = style
    rng = random.Random(seed)
    num = lambda x: fnum(x, rng, level)
    word = lambda w: case_of(w, rng, level)
    sections = {}
    # cell
    lines = [[word("Cell")] + ([length_word(c["cell_units"], rng, level)] if c["cell_units"] else [])]
    if c["scale"] is not None:
        lines.append([num(x) for x in c["scale"]])
    lines += [[num(x) for x in v] for v in c["cell"]]
    sections["cell"] = [lines]
    # atoms
    cols = columns(c)
    lines = [[word("Atoms")] + ([length_word(c["atoms_units"], rng, level)] if c["atoms_units"] else [])]
    lines.append([word(x) for x in cols])
    for a in c["atoms"]:
        skip = skipped(c, a)
        row = []
        for k, x in enumerate(cols):
            if x in skip:
                row.append("-")
            elif x == "name":
                row.append(a["name"])
            elif x in ("r1", "r2", "r3"):
                row.append(num(a["rel"][int(x[1]) - 1]))
            elif x in ("x", "y", "z"):
                row.append(num(a["abs"]["xyz".index(x)]))
            elif x in ("sx", "sy", "sz"):
                row.append(num(a["sv"]["xyz".index(x[1])]))
            elif x in ("sp", "st", "s", "g", "q"):
                row.append(num(a[x]))
            else:
                row.append(num(a["other"][k % 8]))
        lines.append(row)
    sections["atoms"] = [lines]
    # notation
    if c["bonds"] or c["onsite"] or c["extra_notation"]:
        dc, sn, fe, fo = c["notation"]
        words = {
            "d": ["Double-counting", "d", "double"],
            "s": ["Spin-normalized", "s", "spins"],
            "e": ["Exchange-factor", "e", "exch"],
            "o": ["On-site-factor", "o", "onsite"],
        }
        pick = lambda k: word(words[k][0] if level == 0 else rng.choice(words[k]))
        truth = lambda v: word((TRUE if v else FALSE)[0] if level == 0 else rng.choice(TRUE if v else FALSE))
        need = notation_parts(c)
        lines = []
        if "d" in need:
            lines.append([pick("d"), truth(dc)])
        if "s" in need:
            lines.append([pick("s"), truth(sn)])
        if "e" in need:
            lines.append([pick("e"), num(fe)])
        if "o" in need:
            lines.append([pick("o"), num(fo)])
        if level > 1:
            rng.shuffle(lines)
        sections["notation"] = [[[word("Notation")]] + lines]
    # exchange
    if c["bonds"]:
        u = c["exchange_units"] or "m"
        z = SIZE[u]
        blocks = [[[word("Exchange")] + ([energy_word(u, rng, level)] if c["exchange_units"] else [])]]
        todo = []
        for b in c["bonds"]:
            todo.append((b, False))
            if b["mirror"] and c["notation"][0]:
                todo.append((b, True))
        if level > 2:
            rng.shuffle(todo)
        for b, flip in todo:
            i, j, r = (b["j"], b["i"], [-x for x in b["R"]]) if flip else (b["i"], b["j"], b["R"])
            lines = [[c["atoms"][i]["name"], c["atoms"][j]["name"]] + [str(x) for x in r]]
            for kind in b["blocks"]:
                if kind == "iso":
                    w = "Isotropic" if level == 0 else rng.choice(["Isotropic", "i", "iso"])
                    lines.append([word(w), num(b["iso"] * z)])
                elif kind == "dmi":
                    w = "DMI" if level == 0 else rng.choice(["DMI", "d"])
                    lines.append([word(w)] + [num((-x if flip else x) * z) for x in b["dmi"]])
                elif kind == "symm":
                    w = "Symmetric-anisotropy" if level == 0 else rng.choice(["Symmetric-anisotropy", "s", "symm"])
                    lines.append([word(w)] + [num(x * z) for x in b["symm"]])
                else:
                    w = "Matrix" if level == 0 else rng.choice(["Matrix", "m", "mat"])
                    m = np.array(b["matrix"])
                    m = m.T if flip else m
                    lines.append([word(w)])
                    lines += [[num(x * z) for x in row] for row in m.tolist()]
            blocks.append(lines)
        sections["exchange"] = blocks
    if c["onsite"]:
        u = c["onsite_units"] or "m"
        z = SIZE[u]
        blocks = [[[word("On-site")] + ([energy_word(u, rng, level)] if c["onsite_units"] else [])]]
        for k, v in c["onsite"]:
            blocks.append([[c["atoms"][k]["name"]], [num(x * z) for x in v]])
        sections["on-site"] = blocks
    if c["cone"] is not None:
        u, v = c["cone"]
        sections["cone-axis"] = [[[word("Cone-axis")] + ([coordinate_word(u, rng, level)] if u else []), [num(x) for x in v]]]
    if c["spiral"] is not None:
        u, v = c["spiral"]
        sections["spiral-vector"] = [[[word("Spiral-vector")] + ([coordinate_word(u, rng, level)] if u else []), [num(x) for x in v]]]
    if c["foreign"] is not None:
        sections[c["foreign"].lower()] = [[[c["foreign"], "1", "abc"], ["some", "text"], ["1", "2"]]]
    order = list(sections)
    if level > 0:
        rng.shuffle(order)
    return [{"name": k, "blocks": sections[k]} for k in order]


def notation_parts(c):
    """Parts of the notation written in the file."""
    need = set()
    if c["bonds"]:
        need |= set("dse")
    if c["onsite"]:
        need |= set("so")
    if c["extra_notation"]:
        need |= set("dseo")
    return need


# ------------------------------------------------------------------ text
def render(doc, style):
    level, seed = style
    rng = random.Random(seed + 1)
    out = []

    def noise():
        if level > 0 and rng.randrange(6) == 0:
            out.append(rng.choice(["", "   ", "# comment", "# ==========", "#", "  # Cell", "# ---------- 1 2 3", "#Matrix"]))

    def put(tokens):
        sep = " " if level == 0 else " " * rng.randrange(1, 1 + 2 * level)
        line = sep.join(tokens)
        if level > 0:
            line = " " * rng.choice([0, 0, 0, 3]) + line + " " * rng.choice([0, 0, 2])
            if rng.randrange(8) == 0:
                line += rng.choice(["# note", " # 1 2 3", " #", "# ==========="])
        out.append(line)
        noise()

    def separator(symbol):
        n = 80 if level == 0 else rng.choice([10, 11, 20, 80, 97])
        out.append(symbol * n)
        if level > 1 and rng.randrange(6) == 0:
            noise()
            out.append(symbol * 10)
        noise()

    noise()
    if level == 0 or rng.randrange(2):
        separator("=")
    for k, s in enumerate(doc):
        if k:
            separator("=")
        multi = s["name"] in ("exchange", "on-site")
        for n, block in enumerate(s["blocks"]):
            # the separator before the first bond is not necessary for the reading
            if multi and n > 0:
                separator("-")
            for tokens in block:
                put(tokens)
        if multi and (level == 0 or rng.randrange(2)):
            separator("-")
    if level == 0 or rng.randrange(2):
        separator("=")
    return "\n".join(out) + ("\n" if level == 0 or rng.randrange(2) else "")


# ------------------------------------------------------------------ meaning
def compose(b):
    """Matrix of a bond: parts overwrite the corresponding part of the full matrix."""
    m = np.array(b["matrix"], dtype=float) if "matrix" in b["blocks"] else np.zeros((3, 3))
    iso = np.trace(m) / 3 * np.eye(3)
    anti = (m - m.T) / 2
    symm = (m + m.T) / 2 - iso
    if "iso" in b["blocks"]:
        iso = b["iso"] * np.eye(3)
    if "dmi" in b["blocks"]:
        x, y, z = b["dmi"]
        anti = np.array([[0, z, -y], [-z, 0, x], [y, -x, 0]], dtype=float)
    if "symm" in b["blocks"]:
        xx, yy, xy, xz, yz = b["symm"]
        symm = np.array([[xx, xy, xz], [xy, yy, yz], [xz, yz, -xx - yy]], dtype=float)
    return iso + anti + symm


def meaning(c):
    lu = BOHR / ANG if c["cell_units"] == "b" else 1.0
    cell = np.array(c["cell"], dtype=float) * lu
    if c["scale"] is None:
        scale = np.ones(3)
    elif len(c["scale"]) == 3:
        scale = np.array(c["scale"], dtype=float)
    elif c["scale"][0] > 0:
        scale = np.ones(3) * c["scale"][0]
    else:
        scale = np.ones(3) * abs(c["scale"][0]) / abs(np.linalg.det(cell))
    cell = cell * scale
    au = BOHR / ANG if c["atoms_units"] == "b" else 1.0
    atoms = []
    cols = columns(c)
    for a in c["atoms"]:
        have = set(cols) - skipped(c, a)
        if "r1" in have:
            pos = list(a["rel"])
        else:
            pos = (np.array(a["abs"], dtype=float) * scale * au @ np.linalg.inv(cell)).tolist()
        if "sx" in have:
            spin = list(a["sv"])
        elif "sp" in have:
            t, p = math.radians(a["st"]), math.radians(a["sp"])
            spin = [a["s"] * math.sin(t) * math.cos(p), a["s"] * math.sin(t) * math.sin(p), a["s"] * math.cos(t)]
        elif "s" in have:
            spin = [0.0, 0.0, a["s"]]
        else:
            spin = [0.0, 0.0, 0.0]
        atoms.append(
            {
                "name": a["name"],
                "pos": pos,
                "spin": spin,
                "g": a["g"] if "g" in have else 2.0,
                "q": a["q"] if "q" in have else 0.0,
            }
        )
    zu = c["exchange_units"] or "m"
    bonds = [[b["i"], b["j"], b["R"], (compose(b) * SIZE[zu] * ENERGY[zu]).tolist()] for b in c["bonds"]]
    zu = c["onsite_units"] or "m"
    onsite = []
    for k, (xx, yy, zz, xy, xz, yz) in c["onsite"]:
        m = np.array([[xx, xy, xz], [xy, yy, yz], [xz, yz, zz]]) * SIZE[zu] * ENERGY[zu]
        onsite.append([k, m.tolist()])
    need = notation_parts(c) if (c["bonds"] or c["onsite"]) else set()
    notation = [v if k in need else None for k, v in zip("dseo", c["notation"])]
    cone = None
    if c["cone"] is not None:
        u, v = c["cone"]
        if len(v) == 2:
            a, b = math.radians(v[0]), math.radians(v[1])
            cone = [math.cos(b) * math.sin(a), math.sin(b) * math.sin(a), math.cos(a)]
        elif u == "a":
            cone = list(v)
        else:
            cone = (np.array(v) @ cell).tolist()
    spiral = None
    if c["spiral"] is not None:
        u, v = c["spiral"]
        if u == "a":
            # wulfric divides by the modulus of the volume: for left-handed cells all three
            # reciprocal vectors have the opposite sign
            rec = 2 * math.pi * np.linalg.inv(cell).T * np.sign(np.linalg.det(cell))
            spiral = (np.array(v) / lu @ np.linalg.inv(rec)).tolist()
        else:
            spiral = list(v)
    return {
        "cell": cell.tolist(),
        "atoms": atoms,
        "bonds": bonds,
        "onsite": onsite,
        "notation": notation,
        "cone_axis": cone,
        "spiral_vector": spiral,
    }
