import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.core import SubCheck, close, ensure, fail, raises
from vlib.props.p03 import PREDEFINED

PARTS = ["double_counting", "spin_normalized", "exchange_factor", "on_site_factor"]

SET = st.one_of(
    st.tuples(st.just("part0"), st.booleans()),
    st.tuples(st.just("part1"), st.booleans()),
    st.tuples(st.just("part2"), gen.factor()),
    st.tuples(st.just("part3"), gen.factor()),
    st.tuples(st.just("part0"), st.sampled_from([0, 1])),
    st.tuples(st.just("part2"), st.sampled_from([1, 2, -1])),
    st.tuples(st.just("name"), st.tuples(st.sampled_from(sorted(PREDEFINED)), st.integers(0, 2)).map(list)),
    st.tuples(st.sampled_from(["tuple", "list", "array", "iter"]), gen.notation4()),
    st.tuples(st.sampled_from(["tuple", "list"]), st.tuples(st.booleans(), st.booleans(), gen.factor()).map(list)),
    st.tuples(
        st.just("bad"),
        st.sampled_from(
            ["", "spin", "heisenberg", "tb2", "magnopy2", " tb2j", [], [True], [True, False], [True, False, 1.0, 1.0, 1.0], 5, 1.5, None, True,
             [True, False, 2.0, "factor"], [False, True, 3.0, "x"], [True, True, -2.0, ""], [False, False, "y", 2.0],
             [False, True, "z"], [True, False, None], [False, True, 1.0, None], [True, True, [1.0], 1.0], [False, False, 2.0, []], [True, False, "exchange"], [True, True, 0.25, "1.0.0"]]
        ),
    ),
    st.tuples(st.just("badpart"), st.tuples(st.integers(2, 3), st.sampled_from(["factor", "", "1 2", "--1", None, [], [1.0], [1.0, 2.0]])).map(list)),
    st.tuples(st.just("bond"), st.integers(0, 5)),
    st.tuples(st.just("onsite"), st.integers(0, 3)),
).map(list)


@st.composite
def cases(draw):
    return {
        "model": draw(gen.model(notation=False, max_bonds=6, far=True, wide=True)),
        "constructor": draw(st.one_of(st.none(), st.none(), st.tuples(st.sampled_from(["name", "tuple"]), st.sampled_from(sorted(PREDEFINED)), gen.notation4()).map(list))),
        "from_crystal": draw(st.booleans()),
        "initial": draw(st.integers(0, 6)),
        "mirrored": draw(st.booleans()),
        "ops": draw(st.lists(SET, min_size=1, max_size=7)),
    }


def case_of(name, k):
    return [name, name.upper(), name.capitalize()][k]


class Model:
    """Parameters and notation as the documentation defines them."""

    def __init__(self, spins):
        self.spins = spins
        self.parts = [None] * 4
        self.bonds = {}
        self.onsite = {}

    def add(self, i, j, r, m):
        m = np.array(m, dtype=float)
        self.bonds[(i, j, tuple(r))] = m
        if self.parts[0]:
            self.bonds[gen.mirror(i, j, r)] = m.T

    def set_part(self, n, value):
        old = self.parts[n]
        value = bool(value) if n < 2 else float(value)
        self.parts[n] = value
        if n == 0:
            factor = 1.0
            if old is not None and old != value:
                factor = 2.0 if old else 0.5
            new = {}
            for (i, j, r), m in self.bonds.items():
                if value:
                    new.setdefault((i, j, r), m * factor)
                    k = gen.mirror(i, j, r)
                    if k not in self.bonds:
                        new[k] = m.T * factor
                elif ref.is_canonical(i, j, r, None):
                    new[(i, j, r)] = m * factor
                elif gen.mirror(i, j, r) not in self.bonds:
                    new[gen.mirror(i, j, r)] = m.T * factor
            self.bonds = new
        elif n == 1 and old is not None and old != value:
            for (i, j, r), m in self.bonds.items():
                s = self.spins[i] * self.spins[j]
                self.bonds[(i, j, r)] = m * s if value else m / s
            for k, m in self.onsite.items():
                s = self.spins[k] ** 2
                self.onsite[k] = m * s if value else m / s
        elif n == 2 and old is not None:
            for k, m in self.bonds.items():
                self.bonds[k] = m * (old / value)
        elif n == 3 and old is not None:
            for k, m in self.onsite.items():
                self.onsite[k] = m * (old / value)


def compare(h, model, what):
    from magnopy.exceptions import NotationError

    for n, part in enumerate(PARTS):
        if model.parts[n] is None:
            raises(NotationError, lambda: getattr(h, part), f"{what}: reading {part}")
        else:
            got = getattr(h, part)
            if n < 2:
                ensure(isinstance(got, (bool, np.bool_)) and bool(got) == model.parts[n], f"{what}: {part} is {got!r}, expected {model.parts[n]}")
            else:
                close(got, model.parts[n], f"{what}: {part}", tol=1e-12)
    if any(p is None for p in model.parts):
        raises(NotationError, lambda: h.notation, f"{what}: reading notation")
    else:
        ref.check_notation(h, model.parts, what)
    ref.compare_bonds(ref.read_bonds(h), model.bonds, what)
    ref.compare_bonds(ref.read_onsite(h), model.onsite, what + " on-site")


def uses(h, model, what, ctx):
    """Energies and files are not made of parameters without defined meaning."""
    from magnopy import Energy, MagnonDispersion, dump_spinham_txt
    from magnopy.exceptions import NotationError
    from magnopy.io.txt.vampire import dump_ucf

    needed = set()
    if model.bonds:
        needed |= {0, 1, 2}
    if model.onsite:
        needed |= {1, 3}
    if any(model.parts[k] is None for k in needed):
        ctx.label("use without the notation")
        raises(NotationError, lambda: Energy(h), f"{what}: Energy")
        raises(NotationError, lambda: MagnonDispersion(h), f"{what}: MagnonDispersion")
        raises(NotationError, lambda: dump_spinham_txt(h, print_if_none=False), f"{what}: dump_spinham_txt")
        raises(NotationError, lambda: dump_ucf(h), f"{what}: dump_ucf")
    elif needed:
        # what is not needed does not have to be defined
        MagnonDispersion(h)
        if model.bonds:
            Energy(h)


def run(case, ctx):
    from magnopy import SpinHamiltonian

    from wulfric import Atom, Crystal

    spec = case["model"]
    model = Model(ref.spins_of(spec))
    kwargs = {}
    if case["constructor"] is not None:
        kind, name, value = case["constructor"]
        kwargs["notation"] = name if kind == "name" else tuple(value)
        for n, v in enumerate(PREDEFINED[name] if kind == "name" else value):
            model.set_part(n, v)
    if case["from_crystal"]:
        crystal = Crystal(cell=np.array(spec["cell"]))
        for a in spec["atoms"]:
            crystal.add_atom(name=a["name"], position=a["pos"], spin=a["spin"], g_factor=a["g"], relative=True)
        h = SpinHamiltonian(crystal, **kwargs)
    else:
        h = SpinHamiltonian(cell=np.array(spec["cell"]), **kwargs)
        for a in spec["atoms"]:
            h.add_atom(name=a["name"], position=a["pos"], spin=a["spin"], g_factor=a["g"], relative=True)
    names = [a["name"] for a in spec["atoms"]]
    todo_b, todo_o = list(spec["bonds"]), list(spec["onsite"])

    def add_bond():
        if todo_b:
            i, j, r, m = todo_b.pop(0)
            h.add_exchange(names[i], names[j], tuple(r), matrix=m)
            model.add(i, j, r, m)
            if case["mirrored"] and model.parts[0] is None:
                jj, ii, rr = gen.mirror(i, j, r)
                h.add_exchange(names[jj], names[ii], rr, matrix=np.array(m).T)
                model.add(jj, ii, rr, np.array(m).T)
                ctx.label("both members given")

    def add_onsite():
        if todo_o:
            k, m = todo_o.pop(0)
            h.add_on_site(names[k], matrix=m)
            model.onsite[k] = np.array(m, dtype=float)

    for _ in range(case["initial"]):
        add_bond()
        if todo_o:
            add_onsite()
    compare(h, model, "start")
    for n, (kind, value) in enumerate(case["ops"]):
        what = f"step {n} {kind} {value}"
        if kind == "bond":
            add_bond()
        elif kind == "onsite":
            add_onsite()
        elif kind == "bad":
            v = tuple(value) if isinstance(value, list) and n % 2 else value
            raises(ValueError, lambda: setattr(h, "notation", v), f"{what}: notation = {v!r}")
            ctx.label("rejected")
        elif kind == "badpart":
            raises(ValueError, lambda: setattr(h, PARTS[value[0]], value[1]), f"{what}: {PARTS[value[0]]} = {value[1]!r}")
            ctx.label("rejected")
        elif kind.startswith("part"):
            k = int(kind[4])
            if model.parts[k] is None:
                ctx.label("first definition of " + PARTS[k])
            setattr(h, PARTS[k], value)
            model.set_part(k, value)
        else:
            if kind == "name":
                h.notation = case_of(*value)
                full = PREDEFINED[value[0]]
            else:
                full = value if len(value) == 4 else [value[0], value[1], value[2], value[2]]
                h.notation = {"tuple": tuple, "list": list, "array": np.array, "iter": iter}[kind](value)
            if any(p is None for p in model.parts):
                ctx.label("first definition by notation")
            for k in range(4):
                model.set_part(k, full[k])
        compare(h, model, what)
    uses(h, model, "at the end", ctx)


SUBCHECKS = [
    SubCheck(
        "definition-history",
        cases(),
        run,
        quick=5000,
        thorough=60000,
        rule="histories of partial definitions, redefinitions, rejected values and additions of parameters; non-trivial: has a parameter and at least one definition",
        nontrivial=lambda c: len(c["model"]["bonds"]) + len(c["model"]["onsite"]) > 0 and any(o[0] not in ("bond", "onsite", "bad", "badpart") for o in c["ops"]),
    )
]
ASSUMPTIONS = ["all spins and factors are non-zero", "rejected values: unknown strings, iterables of a wrong length or with a factor that is not a number, not iterables"]
