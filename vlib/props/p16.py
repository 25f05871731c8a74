import copy
import os
import random
import tempfile

from hypothesis import strategies as st

from vlib import ref, txtgen
from vlib.core import SubCheck, ensure, fail

BAD_NUMBERS = ["abc", "1.0.0", "1,5", "--1", "1e", "0x1", "12a", "*", "1/2", "+-3"]
BAD_UNITS = {
    "cell": ["nm", "pm", "meV", "relative", "1.0"],
    "atoms": ["nm", "pm", "meV", "1.0"],
    "exchange": ["Tesla", "Hartree", "Angstrom", "cm-1", "1.0"],
    "on-site": ["Tesla", "Hartree", "Angstrom", "cm-1", "1.0"],
    "cone-axis": ["Bohr", "nm", "degrees", "1.0"],
    "spiral-vector": ["Bohr", "nm", "degrees", "1.0"],
    "notation": ["meV", "TB2J", "1.0"],
}


# ------------------------------------------------------------------ corruptions
# every function gets (sections by name, list of sections, contents, rng) and either corrupts the
# document so that the specification does not allow it any more or returns False
def drop_section(s, doc, c, rng):
    names = ["cell", "atoms"] + (["notation"] if c["bonds"] or c["onsite"] else [])
    name = rng.choice(names)
    doc[:] = [x for x in doc if x["name"] != name]


def misspell_section(s, doc, c, rng):
    names = ["cell", "atoms"] + (["notation"] if c["bonds"] or c["onsite"] else [])
    name = rng.choice(names)
    line = s[name]["blocks"][0][0]
    line[0] = rng.choice([line[0] + "s_", line[0][:-1], line[0][0] + "_" + line[0][1:]])


def repeat_section(s, doc, c, rng):
    name = rng.choice([x["name"] for x in doc if x["name"] in BAD_UNITS])
    doc.insert(rng.randrange(len(doc) + 1), copy.deepcopy(s[name]))


def cell_lines(s, doc, c, rng):
    lines = s["cell"]["blocks"][0]
    if rng.randrange(2):
        # too few lines
        del lines[-1]
        if c["scale"] is not None:
            del lines[-1]
    else:
        lines.append(["1", "2", "3"])
        if c["scale"] is None:
            lines.append(["1", "2", "4"])


def numbers(s, doc, c, required=True):
    """(line, position) of every number that has a meaning."""
    out = []
    for line in s["cell"]["blocks"][0][1:]:
        out += [(line, i) for i in range(len(line))]
    cols = txtgen.columns(c)
    for line, a in zip(s["atoms"]["blocks"][0][2:], c["atoms"]):
        skip = txtgen.skipped(c, a)
        for i, k in enumerate(cols):
            if k != "name" and k not in skip and k not in {x.lower() for x in c["ignored"]}:
                out.append((line, i))
    if "notation" in s and (c["bonds"] or c["onsite"]):
        for line in s["notation"]["blocks"][0][1:]:
            if line[0][0].lower() in "eo":
                out.append((line, 1))
    if "exchange" in s:
        for block in s["exchange"]["blocks"][1:]:
            for line in block[1:]:
                start = 1 if line[0][0].isalpha() else 0
                out += [(line, i) for i in range(start, len(line))]
    if "on-site" in s:
        for block in s["on-site"]["blocks"][1:]:
            out += [(block[1], i) for i in range(6)]
    for name in ("cone-axis", "spiral-vector"):
        if name in s:
            line = s[name]["blocks"][0][1]
            out += [(line, i) for i in range(len(line))]
    return out


def bad_number(s, doc, c, rng):
    line, i = rng.choice(numbers(s, doc, c))
    line[i] = rng.choice(BAD_NUMBERS)


def count_lines(s, c):
    """(line, may one token be removed)"""
    out = []
    lines = s["cell"]["blocks"][0][1:]
    for n, line in enumerate(lines):
        out.append((line, len(line) > 1))
    for line in s["atoms"]["blocks"][0][1:]:
        out.append((line, True))
    if "notation" in s and (c["bonds"] or c["onsite"]):
        for line in s["notation"]["blocks"][0][1:]:
            out.append((line, True))
    if "exchange" in s:
        for block in s["exchange"]["blocks"][1:]:
            for line in block:
                if len(line) == 1:
                    out.append((line, False))
                else:
                    out.append((line, True))
    if "on-site" in s:
        for block in s["on-site"]["blocks"][1:]:
            out += [(block[0], False), (block[1], True)]
    if "spiral-vector" in s:
        out.append((s["spiral-vector"]["blocks"][0][1], True))
    return out


def number_count(s, doc, c, rng):
    line, may_remove = rng.choice(count_lines(s, c))
    if may_remove and rng.randrange(2):
        del line[rng.randrange(1, len(line)) if len(line) > 1 else 0]
    else:
        line.append(rng.choice(["1", "0.5", "2.25"]))


def cone_count(s, doc, c, rng):
    if "cone-axis" not in s:
        return False
    line = s["cone-axis"]["blocks"][0][1]
    if rng.randrange(2):
        del line[1:]
    else:
        line += ["1"] * (4 - len(line))


def unknown_atom(s, doc, c, rng):
    places = []
    for name in ("exchange", "on-site"):
        if name in s:
            for block in s[name]["blocks"][1:]:
                places += [(block[0], i) for i in range(2 if name == "exchange" else 1)]
    if not places:
        return False
    line, i = rng.choice(places)
    names = [a["name"] for a in c["atoms"]]
    options = ["Zz9", line[i] + "x", "Fe"] + [v for v in (line[i].swapcase(), line[i].upper()) if v not in names]
    line[i] = rng.choice([v for v in options if v not in names])


def bad_cell_index(s, doc, c, rng):
    if "exchange" not in s:
        return False
    line = rng.choice(s["exchange"]["blocks"][1:])[0]
    line[rng.randrange(2, 5)] = rng.choice(["1.5", "a", "1.0", "-", "1e0", "0,1"])


def bad_units(s, doc, c, rng):
    name = rng.choice([x["name"] for x in doc if x["name"] in BAD_UNITS])
    line = s[name]["blocks"][0][0]
    word = rng.choice(BAD_UNITS[name])
    if len(line) > 1:
        line[1] = word
    else:
        line.append(word)
    if rng.randrange(4) == 0 and name != "notation":
        # two units: a correct one and one too many
        line[1] = rng.choice(["Angstrom"] if name in ("cell", "atoms", "cone-axis", "spiral-vector") else ["meV"])
        line.append(word)


def notation_missing(s, doc, c, rng):
    need = set()
    if c["bonds"]:
        need |= set("dse")
    if c["onsite"]:
        need |= set("so")
    if not need:
        return False
    k = rng.choice(sorted(need))
    lines = s["notation"]["blocks"][0]
    lines[:] = lines[:1] + [x for x in lines[1:] if x[0][0].lower() != k]
    if rng.randrange(2):
        lines.append(["Unknown", "1"])


def notation_repeated(s, doc, c, rng):
    if not (c["bonds"] or c["onsite"]):
        return False
    lines = s["notation"]["blocks"][0]
    lines.insert(rng.randrange(1, len(lines) + 1), list(rng.choice(lines[1:])))


def notation_value(s, doc, c, rng):
    if not (c["bonds"] or c["onsite"]):
        return False
    line = rng.choice(s["notation"]["blocks"][0][1:])
    if line[0][0].lower() in "ds":
        line[1] = rng.choice(["maybe", "2", "tru", "truee", "-", "0.0", "fals", "None"])
    else:
        line[1] = rng.choice(["true", "abc", "1/2", "-", "0,5"])


def column(s, index=None, remove=True):
    for line in s["atoms"]["blocks"][0][1:]:
        del line[index]


def column_removed(s, doc, c, rng):
    cols = txtgen.columns(c)
    options = [k for k in cols if k in ("name", "r1", "r2", "r3", "x", "y", "z") or (k[0] in "slj" and len(k) == 2)]
    options = [k for k in options if k not in {x.lower() for x in c["ignored"]}]
    column(s, cols.index(rng.choice(options)))


def column_repeated(s, doc, c, rng):
    cols = txtgen.columns(c)
    i = rng.randrange(len(cols))
    for line in s["atoms"]["blocks"][0][1:]:
        line.append(line[i])


def partial_skip(s, doc, c, rng):
    """One member of a combination is skipped for one atom."""
    n = rng.randrange(len(c["atoms"]))
    skip = txtgen.skipped(c, c["atoms"][n])
    cols = txtgen.columns(c)
    options = [k for k in cols if k in ("name", "r1", "r2", "r3", "x", "y", "z") or (k[0] in "slj" and len(k) == 2)]
    options = [k for k in options if k not in skip and k not in {x.lower() for x in c["ignored"]}]
    if not options:
        return False
    s["atoms"]["blocks"][0][2 + n][cols.index(rng.choice(options))] = "-"


def atom_name(s, doc, c, rng):
    cols = txtgen.columns(c)
    k = cols.index("name")
    lines = s["atoms"]["blocks"][0][2:]
    if len(lines) > 1 and rng.randrange(2):
        i, j = rng.sample(range(len(lines)), 2)
        lines[i][k] = lines[j][k]
    else:
        rng.choice(lines)[k] = rng.choice(["_Fe", "-x", "__a", "a__", "*1", ".5", "+Fe"])


def no_atoms(s, doc, c, rng):
    del s["atoms"]["blocks"][0][rng.choice([1, 2, 2]) :]


def bad_scale(s, doc, c, rng):
    lines = s["cell"]["blocks"][0]
    if c["scale"] is None:
        lines.insert(1, None)
    if rng.randrange(2):
        lines[1] = [rng.choice(["0", "0.0", "-0"])]
    else:
        lines[1] = ["1", "2", "1.5"]
        for k in rng.sample(range(3), rng.choice([1, 1, 2, 3])):
            lines[1][k] = rng.choice(["0", "-1", "-0.25"])


def dependent_vectors(s, doc, c, rng):
    lines = s["cell"]["blocks"][0]
    i, j = rng.sample([-1, -2, -3], 2)
    lines[i] = list(lines[j]) if rng.randrange(2) else ["0", "0", "0"]


def zero_cone(s, doc, c, rng):
    if "cone-axis" not in s:
        return False
    s["cone-axis"]["blocks"][0][1] = ["0", "0.0", "-0"]


def vector_lines(s, doc, c, rng):
    options = [k for k in ("cone-axis", "spiral-vector") if k in s]
    if not options:
        return False
    lines = s[rng.choice(options)]["blocks"][0]
    if rng.randrange(2):
        del lines[1]
    else:
        lines.append(["0", "0", "1"])


def bond_lines(s, doc, c, rng):
    if "exchange" not in s:
        return False
    blocks = s["exchange"]["blocks"]
    block = rng.choice(blocks[1:])
    kind = rng.randrange(4)
    if kind == 0:
        # no values
        del block[1:]
    elif kind == 1:
        # without the names
        del block[0]
    elif kind == 2:
        # a value given twice
        starts = [i for i, line in enumerate(block) if i > 0 and line[0][0].isalpha()]
        i = rng.choice(starts)
        size = 4 if block[i][0][0].lower() == "m" else 1
        block += [list(x) for x in block[i : i + size]]
    else:
        starts = [i for i, line in enumerate(block) if i > 0 and line[0][0].lower() == "m"]
        if not starts:
            return False
        del block[starts[0] + rng.randrange(1, 4)]


def on_site_lines(s, doc, c, rng):
    if "on-site" not in s:
        return False
    block = rng.choice(s["on-site"]["blocks"][1:])
    kind = rng.randrange(3)
    if kind == 0:
        del block[1]
    elif kind == 1:
        del block[0]
    else:
        block.append(["1", "2", "3", "4", "5", "6"])


def empty_section(s, doc, c, rng):
    options = [k for k in ("exchange", "on-site") if k in s]
    if not options:
        return False
    del s[rng.choice(options)]["blocks"][1:]


def short_separator(s, doc, c, rng):
    return "text"


CORRUPTIONS = [
    drop_section,
    misspell_section,
    repeat_section,
    cell_lines,
    bad_number,
    bad_number,
    number_count,
    number_count,
    cone_count,
    unknown_atom,
    bad_cell_index,
    bad_units,
    notation_missing,
    notation_repeated,
    notation_value,
    column_removed,
    column_repeated,
    partial_skip,
    atom_name,
    no_atoms,
    bad_scale,
    dependent_vectors,
    zero_cone,
    vector_lines,
    bond_lines,
    on_site_lines,
    empty_section,
    short_separator,
]


def shorten(text, rng):
    lines = text.split("\n")
    places = [i for i, x in enumerate(lines) if len(x) >= 10 and (x == "=" * len(x) or x == "-" * len(x))]
    if not places:
        return None
    i = rng.choice(places)
    lines[i] = lines[i][0] * rng.randrange(1, 10)
    return "\n".join(lines)


def corrupt(case):
    """(name of the corruption, text)"""
    c, style = case["content"], case["style"]
    rng = random.Random(case["seed"])
    k = case["kind"]
    for shift in range(len(CORRUPTIONS)):
        f = CORRUPTIONS[(k + shift) % len(CORRUPTIONS)]
        doc = txtgen.document(c, style)
        done = f({x["name"]: x for x in doc}, doc, c, rng)
        if done is False:
            continue
        text = txtgen.render(doc, style)
        if done == "text":
            text = shorten(text, rng)
            if text is None:
                continue
        return f.__name__, text
    return None, None


def load(text, d, raw=False):
    from magnopy import load_spinham_txt

    path = os.path.join(d, "model.txt")
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)
    ref.after_other(path, "txt", load_spinham_txt)
    return load_spinham_txt(path)


def run_corrupt(case, ctx):
    from magnopy.exceptions import FailedToVerifyTxtModelFile

    name, text = corrupt(case)
    ctx.label(name)
    with tempfile.TemporaryDirectory() as d:
        try:
            load(text, d)
        except FailedToVerifyTxtModelFile:
            return
        except Exception as e:
            fail(f"{name}: raised {type(e).__name__}: {e} for\n{text}")
    fail(f"{name}: the file is accepted\n{text}")


def corrupt_cases():
    return st.fixed_dictionaries(
        {
            "content": txtgen.contents(max_atoms=3, max_bonds=3),
            "style": txtgen.STYLE,
            "kind": st.integers(0, len(CORRUPTIONS) - 1),
            "seed": st.integers(0, 10**6),
        }
    )


# ------------------------------------------------------------------ any text
WORDS = (
    "Cell cell Atoms Notation Exchange On-site Cone-axis Spiral-vector name r1 r2 r3 x y z s sx sy sz sp st l lx g q j "
    "Matrix Isotropic DMI Symmetric-anisotropy Double-counting Spin-normalized Exchange-factor On-site-factor true false "
    "meV eV J K Ry Angstrom Bohr relative absolute 0 1 -1 0.5 2.5e-1 -3 1e5 - + # #x . _ __ é ½ Fe1 A A__ 1A \u00a0 \t ==== ---- ========== "
    "---------- =========== m i d e o"
).split(" ")


def soup_cases():
    edits = st.lists(
        st.tuples(
            st.sampled_from(["token", "insert", "delete", "line-", "line2", "swap", "join", "split", "word"]),
            st.integers(0, 10**6),
            st.integers(0, 10**6),
            st.sampled_from(WORDS),
        ).map(list),
        min_size=1,
        max_size=4,
    )
    valid = st.fixed_dictionaries(
        {"content": txtgen.contents(max_atoms=3, max_bonds=3), "style": txtgen.STYLE, "edits": edits}
    )
    line = st.lists(st.sampled_from(WORDS), max_size=6).map(" ".join)
    free = st.fixed_dictionaries({"lines": st.lists(line, max_size=14)})
    chars = st.fixed_dictionaries(
        {"lines": st.lists(st.text(st.characters(codec="utf-8", exclude_characters="\r"), max_size=12), max_size=6)}
    )
    return st.one_of(valid, valid, valid, valid, free, chars)


def soup_text(case):
    if "lines" in case:
        return "\n".join(case["lines"])
    lines = txtgen.render(txtgen.document(case["content"], case["style"]), case["style"]).split("\n")
    for kind, a, b, word in case["edits"]:
        full = [i for i, x in enumerate(lines) if x.split()] or [0]
        i = full[a % len(full)]
        tokens = lines[i].split()
        if kind == "line-":
            del lines[i]
            if not lines:
                lines = [""]
        elif kind == "line2":
            lines.insert(full[b % len(full)], lines[i])
        elif kind == "swap":
            j = full[b % len(full)]
            lines[i], lines[j] = lines[j], lines[i]
        elif kind == "join" and i + 1 < len(lines):
            lines[i : i + 2] = [lines[i] + " " + lines[i + 1]]
        elif kind == "word":
            lines.insert(i, word)
        elif tokens:
            k = b % len(tokens)
            if kind == "token":
                tokens[k] = word
            elif kind == "insert":
                tokens.insert(k, word)
            elif kind == "delete":
                del tokens[k]
            if kind == "split":
                lines[i : i + 1] = [" ".join(tokens[:k]), " ".join(tokens[k:])]
            else:
                lines[i] = " ".join(tokens)
    return "\n".join(lines)


def outline(text):
    """Names of atoms and bonds of a file, read in the most permissive way."""
    sections = [[]]
    for line in text.split("\n"):
        if line.startswith("#"):
            continue
        line = line.split("#")[0].strip()
        if not line:
            continue
        if line.startswith("=" * 10):
            sections.append([])
        else:
            sections[-1].append(line)
    found = {}
    for s in sections:
        if s:
            found[s[0].split()[0].lower()] = s
    return found


def excluded(found):
    """Histories outside of the domain: a bond of an atom with itself, the same pair given twice."""
    pairs = []
    for line in found.get("exchange", []):
        t = line.split()
        if len(t) == 5:
            try:
                r = tuple(int(x) for x in t[2:])
            except ValueError:
                continue
            if t[0] == t[1] and r == (0, 0, 0):
                return True
            pairs.append((t[0], t[1], r))
            pairs.append((t[1], t[0], tuple(-x for x in r)))
    if len(set(pairs)) != len(pairs):
        return True
    sites = [x for x in found.get("on-site", [])[1:] if len(x.split()) == 1]
    return len(set(x for x in sites if set(x) != {"-"})) != len([x for x in sites if set(x) != {"-"}])


def run_soup(case, ctx):
    from magnopy.exceptions import FailedToVerifyTxtModelFile

    text = soup_text(case)
    found = outline(text)
    if excluded(found):
        ctx.label("excluded")
        return
    with tempfile.TemporaryDirectory() as d:
        try:
            h = load(text, d)
        except FailedToVerifyTxtModelFile:
            ctx.label("rejected")
            return
        except Exception as e:
            fail(f"raised {type(e).__name__}: {e} for\n{text}")
    ctx.label("accepted")
    ensure("cell" in found and "atoms" in found, f"a file without cell or atoms is accepted\n{text}")
    ensure(len(h.atoms) == len(found["atoms"]) - 2, f"not every line of atoms is an atom: {[a.name for a in h.atoms]}\n{text}")
    if "exchange" in found:
        starts = [k + 1 for k, x in enumerate(found["exchange"]) if x.startswith("-" * 10)] + [1]
        heads = [found["exchange"][k] for k in starts if k < len(found["exchange"])]
        heads = [x.split() for x in heads if not x.startswith("-" * 10)]
        bonds = {(a, b, tuple(int(x) for x in r)) for a, b, *r in heads}
        got = {(a1.name, a2.name, tuple(r)) for a1, a2, r, _ in h.exchange}
        missing = {x for x in bonds if x not in got and (x[1], x[0], tuple(-y for y in x[2])) not in got}
        ensure(not missing, f"bonds {missing} of the file are not in the Hamiltonian\n{text}")


def nontrivial_soup(case):
    return "content" in case


SUBCHECKS = [
    SubCheck(
        "corrupted",
        corrupt_cases(),
        run_corrupt,
        quick=7000,
        thorough=100000,
        rule="valid contents over the whole grammar, one required element removed or corrupted (28 kinds of corruptions); non-trivial: the file has bonds or on-site parameters",
        nontrivial=lambda c: bool(c["content"]["bonds"] or c["content"]["onsite"]),
    ),
    SubCheck(
        "any text",
        soup_cases(),
        run_soup,
        quick=7000,
        thorough=100000,
        rule="valid files after one to four random edits, random words and random characters; non-trivial: starts from a valid file",
        nontrivial=nontrivial_soup,
    ),
]
ASSUMPTIONS = [
    "NaN and infinity are not used as numbers; a bond of an atom with itself and parameters given twice are outside of the domain",
    "unknown sections, columns and notation properties are ignored by the specification, hence not corruptions",
]
