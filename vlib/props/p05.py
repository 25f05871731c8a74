"""Histories of the container operations against a dictionary model."""

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.core import SubCheck, arr, close, ensure, fail, raises

POOL = ["Fe", "Fe", "Cr", "Mn1", "Mn2", "Ni", "Ni"]
IDX = st.one_of(st.integers(0, 5), st.integers(0, 12))
R = gen.vec(st.integers(-1, 1))

VALUE = st.one_of(
    st.tuples(st.just("matrix"), gen.matrix(("full", "symm"))),
    st.tuples(st.just("parameter"), gen.matrix(("full",))),
    st.tuples(st.just("array"), gen.matrix(("full",))),
    st.tuples(st.just("kwargs"), st.tuples(gen.ENTRY, gen.vec(gen.ENTRY)).map(list)),
).map(list)

# key that differs from the one of an existing bond in one respect
NEAR = st.one_of(
    st.none(), st.tuples(st.integers(0, 9), st.sampled_from(["swap", "minus", "mirror", "second", "shift"])).map(list)
)

OP = st.one_of(
    st.tuples(st.just("add"), IDX, IDX, R, VALUE, st.integers(0, 3)),
    st.tuples(st.just("add"), IDX, IDX, R, VALUE, st.integers(0, 3)),
    st.tuples(st.just("add"), IDX, IDX, R, VALUE, st.integers(0, 3)),
    # rewrite or remove something that exists (index of the bond, from which end)
    st.tuples(st.just("rewrite"), st.integers(0, 9), st.booleans(), VALUE, st.integers(0, 3)),
    st.tuples(st.just("remove"), st.integers(0, 9), st.booleans(), st.integers(0, 3)),
    st.tuples(st.just("remove-any"), IDX, IDX, R, st.booleans(), st.integers(0, 3), NEAR),
    st.tuples(st.just("os-add"), IDX, VALUE, st.integers(0, 3)),
    st.tuples(st.just("os-add"), IDX, VALUE, st.integers(0, 3)),
    st.tuples(st.just("os-remove"), IDX, st.booleans(), st.integers(0, 3)),
    st.tuples(st.just("atom-add"), st.sampled_from(["Co", "Gd", "Tb", "Ho"]), st.integers(0, 1)),
    st.tuples(st.just("foreign"), st.sampled_from(["La", "Ce", "Nd"]), IDX, R, VALUE, st.booleans()),
    st.tuples(st.just("foreign-os"), st.sampled_from(["La", "Ce", "Nd"]), VALUE),
    st.tuples(st.just("atom-remove"), IDX, st.booleans()),
    st.tuples(st.just("query"), IDX, IDX, R, st.integers(0, 3), NEAR),
).map(list)

CASE = st.fixed_dictionaries(
    {
        "names": st.one_of(
            st.lists(st.sampled_from(POOL), min_size=2, max_size=4),
            st.lists(st.sampled_from(POOL), min_size=2, max_size=4),
            st.lists(st.sampled_from(POOL), min_size=10, max_size=13),
        ),
        "notation": st.one_of(
            st.none(),
            st.tuples(st.sampled_from([True, True, False]), st.booleans(), gen.factor(), gen.factor()).map(list),
        ),
        "ops": st.lists(OP, min_size=3, max_size=25),
        # not every step is looked at
        "every": st.sampled_from([1, 1, 2, 3]),
    }
)


class Run:
    def __init__(self, case):
        from magnopy import SpinHamiltonian

        self.h = SpinHamiltonian(cell=[[3.0, 0, 0], [0.5, 4, 0], [0, 0, 5]])
        self.notation = case["notation"]
        if self.notation is not None:
            self.h.notation = tuple(self.notation)
        self.dc = self.notation[0] if self.notation else None
        self.atoms = []  # magnopy's Atom objects
        self.bonds = {}  # (id1, id2, R) -> matrix; id is (name, index)
        self.onsite = {}
        for k, name in enumerate(case["names"]):
            self.add_atom(name)

    def ident(self, atom):
        return (atom.name, atom.index)

    def add_atom(self, name, as_object=False):
        from wulfric import Atom

        n = len(self.h.atoms)
        pos = [0.1 * n, 0.2, 0.05 * n]
        if as_object:
            atom = Atom(name=name, position=pos, spin=(0, 0, 1.5))
            self.h.add_atom(atom)
        else:
            self.h.add_atom(name=name, position=pos, spin=(0, 0, 1.5))
        ensure(len(self.h.atoms) == n + 1, f"{len(self.h.atoms)} atoms after adding one to {n}")
        self.atoms.append(self.h.atoms[-1])

    def ref_to(self, k, how):
        """Atom, name or full name."""
        atom = self.atoms[k]
        names = [a.name for a in self.atoms]
        if how % 2 == 0:
            return atom
        if names.count(atom.name) == 1:
            return atom.name
        return atom.fullname

    def near_miss(self, k, how):
        a, b, r = sorted(self.bonds)[k % len(self.bonds)]
        ids = [self.ident(x) for x in self.atoms]
        i, j = ids.index(a), ids.index(b)
        if how in ("swap", "mirror"):
            i, j = j, i
        if how in ("minus", "mirror"):
            r = tuple(-x for x in r)
        if how == "second":
            j = (j + 1) % len(ids)
        if how == "shift":
            r = (r[0] + 1, r[1], r[2])
        return i, j, r

    def is_self(self, i, j, r):
        return i == j and tuple(r) == (0, 0, 0)

    def put(self, i, j, r, m):
        a, b = self.ident(self.atoms[i]), self.ident(self.atoms[j])
        r = tuple(r)
        self.bonds[(a, b, r)] = m
        if self.dc:
            self.bonds[(b, a, tuple(-x for x in r))] = m.T

    def drop(self, key):
        a, b, r = key
        found = self.bonds.pop(key, None) is not None
        if self.dc:
            self.bonds.pop((b, a, tuple(-x for x in r)), None)
        return found


def value_of(value):
    """Arguments for add_* and the matrix."""
    from magnopy import MatrixParameter

    kind, data = value
    if kind == "kwargs":
        iso, d = data
        m = np.eye(3) * iso + np.array([[0, d[2], -d[1]], [-d[2], 0, d[0]], [d[1], -d[0], 0]])
        return (), {"iso": iso, "dmi": d}, m
    m = np.array(data, dtype=float)
    if kind == "matrix":
        return (), {"matrix": data}, m
    if kind == "array":
        return (np.array(data),), {}, m
    return (MatrixParameter(matrix=data),), {}, m


def check(s, what, ctx):
    h = s.h
    got = {}
    ex = h.exchange
    n = len(ex)
    listed = list(ex)
    ensure(n == len(s.bonds) and len(listed) == n, f"{what}: {n} bonds (len), {len(listed)} listed, expected {len(s.bonds)}")
    for a, b, r, p in listed:
        key = (s.ident(a), s.ident(b), tuple(r))
        ensure(key not in got, f"{what}: bond {key} is listed twice")
        got[key] = arr(p.matrix, (3, 3), "matrix")
    ensure(set(got) == set(s.bonds), f"{what}: bonds {sorted(got)}, expected {sorted(s.bonds)}")
    for k, m in s.bonds.items():
        close(got[k], m, f"{what}: value of {k}", 1e-12)
    os_it = h.on_site
    n_os = len(os_it)
    os_got = {s.ident(a): arr(p.matrix, (3, 3), "matrix") for a, p in os_it}
    ensure(set(os_got) == set(s.onsite) and n_os == len(s.onsite), f"{what}: on-site {sorted(os_got)} ({n_os}), expected {sorted(s.onsite)}")
    for k, m in s.onsite.items():
        close(os_got[k], m, f"{what}: on-site of {k}", 1e-12)
    # magnetic atoms
    mag = set(s.onsite) | {k[0] for k in s.bonds} | {k[1] for k in s.bonds}
    ma = list(h.magnetic_atoms)
    ensure(len(ma) == len(mag) and {s.ident(a) for a in ma} == mag, f"{what}: magnetic atoms {[s.ident(a) for a in ma]}, expected {sorted(mag)}")
    ensure(all(ma[k].index <= ma[k + 1].index for k in range(len(ma) - 1)), f"{what}: magnetic atoms are not sorted by index")
    ensure(h.I == len(mag), f"{what}: I = {h.I}, expected {len(mag)}")
    ensure([s.ident(a) for a in h.atoms] == [s.ident(a) for a in s.atoms], f"{what}: atoms {[s.ident(a) for a in h.atoms]}")
    # exchange_like
    if s.notation is not None:
        like = h.exchange_like
        total = len(s.bonds) + len(s.onsite)
        ensure(len(like) == total, f"{what}: len(exchange_like) = {len(like)}, expected {total}")
        items = list(like)
        ensure(len(items) == total, f"{what}: exchange_like lists {len(items)}, expected {total}")
        factor = s.notation[3] / s.notation[2]
        seen = set()
        for a, b, r, p in items:
            key = (s.ident(a), s.ident(b), tuple(r))
            ensure(key not in seen, f"{what}: exchange_like lists {key} twice")
            seen.add(key)
            if key[0] == key[1] and tuple(r) == (0, 0, 0):
                ensure(key[0] in s.onsite, f"{what}: exchange_like lists on-site term of {key[0]}")
                close(p.matrix, s.onsite[key[0]] * factor, f"{what}: exchange_like on-site", 1e-12)
            else:
                ensure(key in s.bonds, f"{what}: exchange_like lists {key}")
                close(p.matrix, s.bonds[key], f"{what}: exchange_like bond", 1e-12)


def run(case, ctx):
    s = Run(case)
    h = s.h
    check(s, "start", ctx)
    for n, op in enumerate(case["ops"]):
        what = f"step {n} {op[0]} {op[1:4]}"
        kind = op[0]
        na = len(s.atoms)
        if kind in ("add", "rewrite"):
            if kind == "add":
                _, i, j, r, value, how = op
                if na == 0:
                    continue
                i, j, r = i % na, j % na, tuple(r)
                if s.is_self(i, j, r):
                    r = (1, 0, 0)
            else:
                if not s.bonds:
                    continue
                _, k, flip, value, how = op
                a, b, r = sorted(s.bonds)[k % len(s.bonds)]
                ids = [s.ident(x) for x in s.atoms]
                i, j = ids.index(a), ids.index(b)
                if flip and s.dc:
                    i, j, r = j, i, tuple(-x for x in r)
                    ctx.label("rewritten from the other end")
            ka, kb = s.ident(s.atoms[i]), s.ident(s.atoms[j])
            if s.dc is False and (kb, ka, tuple(-x for x in r)) in s.bonds:
                continue
            args, kwargs, m = value_of(value)
            a, b = s.ref_to(i, how), s.ref_to(j, how // 2)
            if args and how == 3:
                h[a, b, r] = args[0]
            else:
                h.add_exchange(a, b, r, *args, **kwargs)
            s.put(i, j, r, m)
        elif kind == "remove":
            _, k, flip, how = op
            if not s.bonds:
                continue
            a, b, r = sorted(s.bonds)[k % len(s.bonds)]
            ids = [s.ident(x) for x in s.atoms]
            i, j = ids.index(a), ids.index(b)
            if flip and s.dc:
                i, j, r = j, i, tuple(-x for x in r)
            x, y = s.ref_to(i, how), s.ref_to(j, how // 2)
            if how >= 2:
                del h[x, y, r]
            else:
                h.remove_exchange(x, y, r)
            s.drop((s.ident(s.atoms[i]), s.ident(s.atoms[j]), r))
        elif kind == "remove-any":
            _, i, j, r, strict, how = op[:6]
            if na == 0:
                continue
            i, j, r = i % na, j % na, tuple(r)
            if len(op) > 6 and op[6] is not None and s.bonds:
                i, j, r = s.near_miss(*op[6])
            x, y = s.ref_to(i, how), s.ref_to(j, how // 2)
            key = (s.ident(s.atoms[i]), s.ident(s.atoms[j]), r)
            if key in s.bonds:
                h.remove_exchange(x, y, r, raise_if_no_bond=strict)
                s.drop(key)
            elif strict:
                raises(KeyError, lambda: h.remove_exchange(x, y, r), what + ": removing an absent bond")
                ctx.label("absent bond")
            elif how >= 2:

                def delete():
                    del h[x, y, r]

                raises(KeyError, delete, what + ": deleting an absent bond")
            else:
                h.remove_exchange(x, y, r, raise_if_no_bond=False)
        elif kind == "os-add":
            _, i, value, how = op
            if na == 0:
                continue
            i = i % na
            args, kwargs, m = value_of(value)
            if args and how >= 2:
                h[s.ref_to(i, how)] = args[0]
            else:
                h.add_on_site(s.ref_to(i, how), *args, **kwargs)
            s.onsite[s.ident(s.atoms[i])] = m
        elif kind == "os-remove":
            _, i, strict, how = op
            if na == 0:
                continue
            i = i % na
            key = s.ident(s.atoms[i])
            x = s.ref_to(i, how)
            if key in s.onsite:
                if how >= 2:
                    del h[x]
                else:
                    h.remove_on_site(x, raise_if_no_bond=strict)
                del s.onsite[key]
            elif strict:
                raises(KeyError, lambda: h.remove_on_site(x), what + ": removing an absent on-site term")
            else:
                h.remove_on_site(x, raise_if_no_bond=False)
        elif kind == "atom-add":
            if op[1] in [a.name for a in s.atoms]:
                continue
            s.add_atom(op[1], as_object=bool(op[2]))
        elif kind == "foreign":
            # atom that is not in the crystal is added together with the bond
            from wulfric import Atom

            _, name, j, r, value, first = op
            if na == 0 or name in [a.name for a in s.atoms]:
                continue
            j, r = j % na, tuple(r)
            atom = Atom(name=name, position=(0.3, 0.3, 0.7), spin=(0, 1, 0))
            args, kwargs, m = value_of(value)
            other = s.atoms[j]
            if first:
                h.add_exchange(atom, other, r, *args, **kwargs)
            else:
                h.add_exchange(other, atom, r, *args, **kwargs)
            ensure(len(h.atoms) == na + 1, f"{what}: {len(h.atoms)} atoms, expected {na + 1}")
            s.atoms.append(h.atoms[-1])
            if first:
                s.put(na, j, r, m)
            else:
                s.put(j, na, r, m)
            ctx.label("bond with an atom from outside")
        elif kind == "foreign-os":
            from wulfric import Atom

            _, name, value = op
            if name in [a.name for a in s.atoms]:
                continue
            atom = Atom(name=name, position=(0.3, 0.3, 0.7), spin=(0, 1, 0))
            args, kwargs, m = value_of(value)
            h.add_on_site(atom, *args, **kwargs)
            ensure(len(h.atoms) == na + 1, f"{what}: {len(h.atoms)} atoms, expected {na + 1}")
            s.atoms.append(h.atoms[-1])
            s.onsite[s.ident(s.atoms[-1])] = m
        elif kind == "atom-remove":
            _, i, by_name = op
            if na <= 1:
                continue
            i = i % na
            key = s.ident(s.atoms[i])
            h.remove_atom(s.ref_to(i, 1 if by_name else 0))
            del s.atoms[i]
            s.bonds = {k: m for k, m in s.bonds.items() if key not in k[:2]}
            s.onsite.pop(key, None)
            ctx.label("atom removed")
        elif kind == "query":
            _, i, j, r, how = op[:5]
            if na == 0:
                continue
            i, j, r = i % na, j % na, tuple(r)
            if len(op) > 5 and op[5] is not None and s.bonds:
                i, j, r = s.near_miss(*op[5])
            x, y = s.ref_to(i, how), s.ref_to(j, how // 2)
            key = (s.ident(s.atoms[i]), s.ident(s.atoms[j]), r)
            ensure(((x, y, r) in h) == (key in s.bonds), f"{what}: membership of {key}")
            if key in s.bonds:
                close(h[x, y, r].matrix, s.bonds[key], f"{what}: item {key}", 1e-12)
            else:
                raises(KeyError, lambda: h[x, y, r], f"{what}: item {key}")
            ensure((x in h) == (key[0] in s.onsite), f"{what}: membership of on-site {key[0]}")
            if key[0] in s.onsite:
                close(h[x].matrix, s.onsite[key[0]], f"{what}: on-site item {key[0]}", 1e-12)
            else:
                raises(KeyError, lambda: h[x], f"{what}: on-site item {key[0]}")
        # membership of every bond by every kind of the reference
        if n % case["every"] == 0:
            check(s, what, ctx)
        ctx.label(kind)
    check(s, "end", ctx)
    ids = [s.ident(x) for x in s.atoms]
    for a, b, r in s.bonds:
        for how in (0, 1, 2, 3):
            key = (s.ref_to(ids.index(a), how), s.ref_to(ids.index(b), how // 2), r)
            ensure(key in h, f"end: {key} is not in the Hamiltonian")
            close(h[key].matrix, s.bonds[(a, b, r)], f"end: item {key}", 1e-12)
    ctx.label({None: "undefined", True: "double counting", False: "no double counting"}[s.dc])


SUBCHECKS = [
    SubCheck(
        "history",
        CASE,
        run,
        quick=8000,
        thorough=60000,
        rule="histories of 3-25 operations on 2-4 (and added) atoms; non-trivial: at least one removal or rewriting and at least two additions",
        nontrivial=lambda c: sum(o[0] in ("add", "os-add", "foreign") for o in c["ops"]) >= 2
        and any(o[0] in ("remove", "remove-any", "rewrite", "atom-remove", "os-remove") for o in c["ops"]),
    )
]
ASSUMPTIONS = [
    "bond of an atom with itself in the same cell is not used",
    "without double counting a pair is not given from both ends",
    "notation stays as at the start of the history (changes of it: P03, P04)",
]
