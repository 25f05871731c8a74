import contextlib
import io
import os
import random
import tempfile

import h5py
import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref, txtgen
from vlib.core import SubCheck, close, ensure, fail, raises
from vlib.props import p17

LENGTH_UNITS = {"a": "Angstrom", "b": "Bohr"}
ENERGY_UNITS = {"m": "milli-electron-Volt", "e": "electron-Volt", "j": "Joule", "k": "Kelvin", "r": "Rydberg"}
VECTOR_UNITS = {"r": "Relative", "a": "Absolute"}
GROUPS = ["spinham", "model", "a/b", "x/y/z", "Spin Hamiltonian", "10"]


@st.composite
def cases(draw):
    """Contents that both formats can hold."""
    c = draw(txtgen.contents(max_atoms=4, max_bonds=5))
    c["scale"] = None
    c["coords"], c["spin"] = "rel", draw(st.sampled_from(["vec", "vec", "vec+s", "vec+ang"]))
    c["has_g"] = c["has_q"] = True
    c["atoms_units"] = None
    for a in c["atoms"]:
        a["skip"] = []
        # zero spins are not in the domain of the normalized notation, others are not changed
    for b in c["bonds"]:
        b["blocks"] = ["matrix"]
    if c["cone"] is not None and len(c["cone"][1]) == 2:
        c["cone"] = [c["cone"][0], draw(gen.nonzero_vec())]
    if c["cell_units"] == "b" and c["spiral"] is not None:
        c["spiral"][0] = "r"
    return {
        "content": c,
        "style": draw(txtgen.STYLE),
        # atoms without charge; the text has no such
        "no_charge": draw(st.lists(st.integers(0, 3), max_size=2)),
        "extra": draw(st.lists(st.sampled_from(["moments", "foreign", "groups", "attr"]), unique=True, max_size=4)),
        "group": draw(st.sampled_from(GROUPS)),
        "named": draw(st.booleans()),
        "types": draw(st.integers(0, 10**6)),
        "general_onsite": draw(st.booleans()),
        "skew": draw(gen.vec(gen.grid(-2, 2, 8))),
    }


@st.composite
def many_cases(draw):
    case = draw(cases())
    c = case["content"]
    n0 = len(c["atoms"])
    n = draw(st.integers(10, 13))
    for k in range(n0, n):
        a = dict(c["atoms"][k % n0])
        a["name"] = f"At{k}"
        a["rel"] = draw(gen.vec(gen.real(-1, 1, 16)))
        c["atoms"].append(a)
    have = {(b["i"], b["j"], tuple(b["R"])) for b in c["bonds"]}
    for k in range(n):
        b = {"i": k, "j": (k + 3) % n, "R": [0, 0, 5], "blocks": ["matrix"], "iso": 0.0, "dmi": [0, 0, 0], "symm": [0] * 5, "mirror": False}
        b["matrix"] = (np.eye(3) * (k + 1)).tolist()
        c["bonds"].append(b)
    c["onsite"] = [[k, [float(k), 0.0, 1.0, 0.0, 0.0, 0.5]] for k in draw(st.permutations(range(n)))]
    return case


def spell(word, rng):
    return rng.choice([word, word.lower(), word.upper(), word.swapcase()])


def numbers(x, rng):
    """The same numbers in another type of the dataset."""
    a = np.array(x, dtype=float)
    if (a == np.round(a)).all() and rng.randrange(2):
        return a.astype(rng.choice([np.int64, np.int32]))
    return a


def write(case, path, contents):
    c = contents
    rng = random.Random(case["types"])
    with h5py.File(path, "a") as f:
        if "groups" in case["extra"]:
            f.create_group("other").attrs["type"] = "Something"
            f["other"].attrs["units"] = "Angstrom"
            f.create_dataset("notes", data=[1, 2, 3])
        g = f.create_group(case["group"])
        g.attrs["type"] = "SpinHamiltonian"
        if "attr" in case["extra"]:
            g.attrs["comment"] = "text"
        cell = g.create_group("cell")
        cell.attrs["units"] = spell(LENGTH_UNITS[c["cell_units"] or "a"], rng)
        for k, v in zip(("a1", "a2", "a3"), c["cell"]):
            cell.create_dataset(k, data=numbers(v, rng))
        atoms = g.create_group("atoms")
        order = list(range(len(c["atoms"])))
        if rng.randrange(2):
            rng.shuffle(order)
        for k in order:
            a = c["atoms"][k]
            x = atoms.create_group(str(k + 1))
            x.create_dataset("name", data=a["name"] if rng.randrange(2) else np.bytes_(a["name"].encode()))
            x.create_dataset("position", data=numbers(a["rel"], rng))
            x.create_dataset("spin", data=numbers(a["sv"], rng))
            x.create_dataset("g-factor", data=a["g"])
            if k not in case["no_charge"]:
                x.create_dataset("charge", data=a["q"])
            if "moments" in case["extra"]:
                x.create_dataset("orbital-moment", data=[1.0, 2.0, 3.0])
                x.create_dataset("total-moment", data=[0.0, 0.0, 5.0])
        if c["bonds"] or c["onsite"] or c["extra_notation"]:
            n = g.create_group("notation")
            need = txtgen.notation_parts(c)
            names = dict(zip("dseo", ("double-counting", "spin-normalized", "exchange-factor", "on-site-factor")))
            for k, v in zip("dseo", c["notation"]):
                if k in need:
                    n.create_dataset(names[k], data=(rng.choice([int(v), bool(v)]) if k in "ds" else v))
        if c["bonds"]:
            u = c["exchange_units"] or "m"
            e = g.create_group("exchange")
            e.attrs["units"] = spell(ENERGY_UNITS[u], rng)
            listed = []
            for b in c["bonds"]:
                m = np.array(b["matrix"]) * txtgen.SIZE[u]
                listed.append((b["i"], b["j"], b["R"], m))
                if b["mirror"] and c["notation"][0]:
                    listed.append((b["j"], b["i"], [-x for x in b["R"]], m.T))
            for k, (i, j, r, m) in enumerate(listed):
                x = e.create_group(str(k + 1))
                x.create_dataset("atom-1", data=c["atoms"][i]["name"])
                x.create_dataset("atom-2", data=c["atoms"][j]["name"])
                x.create_dataset("ijk", data=r)
                x.create_dataset("matrix", data=m)
        elif "foreign" in case["extra"] and c["extra_notation"]:
            # a group without bonds
            g.create_group("exchange").attrs["units"] = "Kelvin"
        if c["onsite"]:
            u = c["onsite_units"] or "m"
            o = g.create_group("on-site")
            o.attrs["units"] = spell(ENERGY_UNITS[u], rng)
            for n, (k, v) in enumerate(c["onsite"]):
                x = o.create_group(str(n + 1))
                x.create_dataset("atom", data=c["atoms"][k]["name"])
                x.create_dataset("matrix", data=onsite_matrix(case, v) * txtgen.SIZE[u])
        for name, v in (("cone-axis", c["cone"]), ("spiral-vector", c["spiral"])):
            if v is not None:
                x = g.create_dataset(name, data=numbers(v[1], rng))
                # text takes relative coordinates when the units are not given
                x.attrs["units"] = spell(VECTOR_UNITS[v[0] or "r"], rng)
        if "foreign" in case["extra"]:
            g.create_group("k-path").create_dataset("points", data=[[0, 0, 0], [1, 0, 0]])


def onsite_matrix(case, v):
    xx, yy, zz, xy, xz, yz = v
    m = np.array([[xx, xy, xz], [xy, yy, yz], [xz, yz, zz]], dtype=float)
    if case["general_onsite"]:
        x, y, z = case["skew"]
        m = m + np.array([[0, z, -y], [-z, 0, x], [y, -x, 0]])
    return m


def meaning(case):
    """Meaning of the hdf5 file: as of the text, but for general matrices and missing charges."""
    c = case["content"]
    spec = txtgen.meaning(c)
    u = c["onsite_units"] or "m"
    spec["onsite"] = [[k, (onsite_matrix(case, v) * txtgen.SIZE[u] * txtgen.ENERGY[u]).tolist()] for k, v in c["onsite"]]
    for k in case["no_charge"]:
        if k < len(spec["atoms"]):
            spec["atoms"][k]["q"] = None
    return spec


TOL = dict(tol_cell=1e-9, tol_pos=1e-10, tol_spin=1e-9, tol_g=1e-12, tol_par=1e-9, tol_par_rel=1e-9, tol_vec=1e-8)


def run(case, ctx):
    from magnopy import load_spinham, load_spinham_hdf5, load_spinham_txt

    expected = meaning(case)
    c = case["content"]
    empty = "foreign" in case["extra"] and c["extra_notation"] and not c["bonds"]
    if empty:
        for k, name in enumerate("dseo"):
            expected["notation"][k] = c["notation"][k]
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "model.hdf5")
        write(case, path, c)
        with open(path, "rb") as f:
            stored = f.read()
        kw = {"groupname": case["group"]} if case["named"] else {}
        h = load_spinham_hdf5(path, **kw)
        ref.compare_model(h, expected, "hdf5", default_charge=None, **TOL)
        with open(path, "rb") as f:
            ensure(f.read() == stored, "the file was modified by the reading")
        s = ref.snapshot(h)
        for fmt in (None, "hdf5", "HDF5"):
            ref.same_snapshot(s, ref.snapshot(load_spinham(path, **({"spinham_format": fmt} if fmt else {}), **kw)), f"load_spinham with {fmt}")
        # the equivalent text
        if not (case["general_onsite"] and c["onsite"]) and not empty:
            text = txtgen.render(txtgen.document(c, case["style"]), case["style"])
            tpath = os.path.join(d, "model.txt")
            ref.write_text(tpath, text)
            ht = load_spinham_txt(tpath)
            spec = ref.spec_of_snapshot(s)
            for a in spec["atoms"]:
                a["q"] = a["q"] or 0.0 if a["q"] is None else a["q"]
            got = ref.spec_of_snapshot(ref.snapshot(ht))
            for a, q in zip(spec["atoms"], case["content"]["atoms"]):
                a["q"] = q["q"]
            # a bond may be listed from any end
            ref.compare_model(ht, dict(spec, bonds=unique(spec)), "text against hdf5", **TOL)
            ctx.label("equivalent text")
        if "groups" in case["extra"]:
            raises(KeyError, lambda: load_spinham_hdf5(path, groupname="nothing"), "unknown group")
    for key in ("cell_units", "exchange_units", "onsite_units"):
        ctx.label(f"{key} {c[key]}")
    for key in ("cone", "spiral"):
        if c[key]:
            ctx.label(f"{key} {c[key][0]}")


def unique(spec):
    out, seen = [], set()
    for i, j, r, m in spec["bonds"]:
        key, _ = gen.pair_key(i, j, r)
        if key not in seen:
            seen.add(key)
            out.append([i, j, r, m])
    return out


# ------------------------------------------------------------------ corrupted files
def corrupted_cases():
    return st.fixed_dictionaries({"base": cases(), "kind": st.integers(0, 30), "word": st.sampled_from(["Furlong", "meVs", "", "nm", "m", "Ry", "degrees"]), "which": st.integers(0, 99)})


def run_corrupted(case, ctx):
    from magnopy import load_spinham_hdf5

    base, c = case["base"], case["base"]["content"]
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "model.hdf5")
        write(base, path, c)
        kinds = ["cell", "atoms", "units cell", "a2", "atom name", "position"]
        if c["bonds"]:
            kinds += ["units exchange", "notation", "double-counting", "spin-normalized", "exchange-factor", "bond atom", "bond matrix", "bond ijk"]
        if c["onsite"]:
            kinds += ["units on-site", "notation", "spin-normalized", "on-site-factor", "site atom", "site matrix"]
        if c["cone"]:
            kinds += ["units cone-axis"]
        if c["spiral"]:
            kinds += ["units spiral-vector"]
        kind = kinds[case["kind"] % len(kinds)]
        with h5py.File(path, "a") as f:
            g = f[base["group"]]
            pick = lambda x: x[sorted(x)[case["which"] % len(x)]]
            if kind in ("cell", "atoms", "notation"):
                del g[kind]
            elif kind.startswith("units "):
                g[kind[6:]].attrs["units"] = case["word"]
            elif kind == "a2":
                del g["cell/a2"]
            elif kind == "atom name":
                del pick(g["atoms"])["name"]
            elif kind == "position":
                del pick(g["atoms"])["position"]
            elif kind in ("double-counting", "spin-normalized", "exchange-factor", "on-site-factor"):
                del g["notation"][kind]
            elif kind == "bond atom":
                b = pick(g["exchange"])
                key = ["atom-1", "atom-2"][case["which"] % 2]
                del b[key]
                b.create_dataset(key, data="Zz9")
            elif kind == "bond matrix":
                del pick(g["exchange"])["matrix"]
            elif kind == "bond ijk":
                del pick(g["exchange"])["ijk"]
            elif kind == "site atom":
                s = pick(g["on-site"])
                del s["atom"]
                s.create_dataset("atom", data="Zz9")
            elif kind == "site matrix":
                del pick(g["on-site"])["matrix"]
        ctx.label(kind)
        what = f"hdf5 file with corrupted {kind}"
        load = lambda: load_spinham_hdf5(path, groupname=base["group"])
        if kind.startswith("units "):
            raises(ValueError, load, what + f" ({case['word']})")
        else:
            try:
                load()
            except Exception:
                return
            fail(f"{what} is accepted")


# ------------------------------------------------------------------ dispatch
def dispatch_cases():
    return st.fixed_dictionaries(
        {
            "content": cases(),
            "tb2j": p17.cases(),
            "name": st.sampled_from(
                ["m.hdf5", "m.txt", "m", "exchange.out", "my_exchange.out", "m.HDF5", "hdf5", "m.hdf5.txt", "exchange.out.txt", "m.hdf", "exchange.outs", "x.hdf5/m.txt", "x/exchange.out", "m.out", "exchange_out", "exchange.txt", "mexchange.out"]
            ),
            "source": st.sampled_from(["txt", "hdf5", "tb2j"]),
            "spell": st.integers(0, 3),
            "explicit": st.booleans(),
            "wrong": st.sampled_from(["json", "", "text", "h5", "TB2", "hdf5 ", "vampire"]),
        }
    )


def run_dispatch(case, ctx):
    from magnopy import load_spinham, load_spinham_hdf5, load_spinham_txt
    from magnopy.io.txt.tb2j import load_tb2j

    name, source = case["name"], case["source"]
    guessed = "hdf5" if name.endswith(".hdf5") else "tb2j" if name.endswith("exchange.out") else "txt"
    if not case["explicit"]:
        source = guessed
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        c = case["content"]
        if source == "hdf5":
            write(c, path, c["content"])
            direct = load_spinham_hdf5
        elif source == "txt":
            with open(path, "w", encoding="utf-8") as f:
                f.write(txtgen.render(txtgen.document(c["content"], c["style"]), c["style"]))
            direct = load_spinham_txt
            ref.after_other(path, "txt", lambda p: load_spinham(p, spinham_format="txt"))
        else:
            with open(path, "w", encoding="utf-8") as f:
                f.write(p17.render(case["tb2j"]))
            direct = load_tb2j
            ref.after_other(path, "tb2j", lambda p: load_spinham(p, spinham_format="tb2j"))
        kw = {}
        if case["explicit"]:
            kw["spinham_format"] = [source, source.upper(), source.capitalize(), source.swapcase()][case["spell"]]
        if source == "txt" and case["spell"] < 2:
            kw["save_filtered"] = True
        h = load_spinham(path, **kw)
        if "save_filtered" in kw:
            saved = os.path.join(os.path.dirname(path), "filtered_" + os.path.basename(path))
            ensure(os.path.isfile(saved), "the filtered file is not saved by load_spinham")
            ref.same_snapshot(ref.snapshot(direct(saved)), ref.snapshot(h), "the filtered file")
        ref.same_snapshot(ref.snapshot(direct(path)), ref.snapshot(h), f"{name} with {kw}")
        raises(ValueError, lambda: load_spinham(path, spinham_format=case["wrong"]), f"format {case['wrong']!r}")
    ctx.label(f"{source} {'explicit' if case['explicit'] else 'guessed'}")


def nontrivial(c):
    c = c["content"]
    return bool(c["bonds"]) and (c["exchange_units"] or "m") != "m"


SUBCHECKS = [
    SubCheck(
        "specification",
        cases(),
        run,
        quick=1600,
        thorough=40000,
        rule="hdf5 files over units, spellings, types of the datasets, optional parts and foreign groups, together with the equivalent text; non-trivial: bonds in other units than meV",
        nontrivial=nontrivial,
    ),
    SubCheck(
        "many",
        many_cases(),
        run,
        quick=240,
        thorough=3000,
        rule="the same with ten or more atoms, bonds and on-site terms",
        nontrivial=nontrivial,
    ),
    SubCheck(
        "corrupted",
        corrupted_cases(),
        run_corrupted,
        quick=1200,
        thorough=20000,
        rule="a required part is missing or names something unknown: an exception has to be raised (ValueError for units)",
        nontrivial=lambda c: bool(c["base"]["content"]["bonds"]),
    ),
    SubCheck(
        "dispatch",
        dispatch_cases(),
        run_dispatch,
        quick=1200,
        thorough=20000,
        rule="load_spinham over names of files, explicit formats in any case and unknown formats",
        nontrivial=lambda c: c["explicit"] or c["name"] not in ("m.txt", "m"),
    ),
]
ASSUMPTIONS = [
    "absolute spiral vectors together with the cell in Bohr are not used (the specification of hdf5 does not say in which units they are)",
    "under no double counting only one member of a pair is listed",
]
