import operator

import numpy as np
from hypothesis import strategies as st

from vlib.core import SubCheck, arr, ensure, fail, raises
from vlib.gen import matrix, real, vec

M = matrix(("full", "float", "iso", "dmi", "symm"))
SCALAR = st.one_of(real(-5, 5), st.integers(-4, 4))

NEAR = st.tuples(
    st.integers(0, 2), st.integers(0, 2), st.sampled_from([0.0, 1e-3, -1e-5, 1e-6, 1e-8, -1e-9, 1e-11, 1e-13])
).map(list)

OP = st.one_of(
    st.tuples(st.sampled_from(["add", "sub", "eq", "ne"]), st.just("mp"), M),
    st.tuples(st.sampled_from(["eq", "ne"]), st.just("mat"), M),
    # the same matrix, or one component of it changed by a little
    st.tuples(st.sampled_from(["eq", "ne"]), st.sampled_from(["near-mp", "near-mat"]), NEAR),
    st.tuples(st.sampled_from(["mul", "rmul"]), st.just("num"), SCALAR),
    st.tuples(st.sampled_from(["truediv", "floordiv", "mod"]), st.just("num"), SCALAR.filter(lambda x: abs(x) > 1e-3)),
    st.tuples(st.sampled_from(["mul", "rmul"]), st.just("npnum"), SCALAR),
    st.tuples(st.sampled_from(["matmul", "rmatmul"]), st.sampled_from(["vec", "list"]), vec(real(-5, 5))),
    st.tuples(st.sampled_from(["matmul", "rmatmul"]), st.sampled_from(["mat", "list", "mp"]), M),
    st.tuples(st.sampled_from(["neg", "pos", "abs", "T", "array", "det", "norm", "exp", "sum", "trace", "dot", "same", "repr"]), st.just("none"), st.none()),
)

CASE = st.fixed_dictionaries(
    {
        "a": M,
        "ops": st.lists(OP, min_size=1, max_size=3).map(lambda x: [list(o) for o in x]),
        "mut": st.sampled_from(["xx", "matrix", "inplace", "iso", "dmi", "zy"]),
        "side": st.sampled_from(["result", "operand", "other"]),
        "value": real(-5, 5),
    }
)


def mutate(p, how, value):
    if how in ("xx", "zy"):
        setattr(p, how, getattr(p, how) + 1.5 + abs(value))
    elif how == "matrix":
        p.matrix = np.ones((3, 3)) * (value + 11)
    elif how == "inplace":
        p.matrix *= 2
        p.matrix += 1.25
    elif how == "iso":
        p.iso = p.iso + 3.5
    elif how == "dmi":
        p.dmi = np.array(p.dmi) + 1.0


def exact(got, expected, what):
    got = arr(got, np.shape(expected), what)
    same = (got == expected) | (np.isnan(got) & np.isnan(expected))
    # one unit in the last place is allowed (operations may be fused differently)
    ok = same | (np.abs(got - expected) <= 4 * np.finfo(float).eps * np.maximum(np.abs(expected), 1.0))
    ensure(np.all(ok), f"{what}: got {got}, expected {expected}")


def run(case, ctx):
    from magnopy import MatrixParameter

    for op, kind, value in case["ops"]:
        a = MatrixParameter(matrix=case["a"])
        ma = np.array(case["a"], dtype=float)
        if kind in ("near-mp", "near-mat"):
            k, l, delta = value
            value = [list(row) for row in case["a"]]
            value[k][l] += delta
            kind = kind[5:]
            ctx.label("nearly equal operand" if value != case["a"] else "equal operand")
        if kind == "mp":
            b, mb = MatrixParameter(matrix=value), np.array(value, dtype=float)
        elif kind in ("mat", "vec"):
            b, mb = np.array(value, dtype=float), np.array(value, dtype=float)
        elif kind == "list":
            b, mb = value, np.array(value, dtype=float)
        elif kind == "npnum":
            b = mb = np.float64(value)
        else:
            b = mb = value
        what = f"{op} with {kind}"
        is_mp = False
        if op in ("add", "sub", "mul", "truediv", "floordiv", "mod"):
            r = getattr(operator, op)(a, b)
            e = getattr(operator, op)(ma, mb)
            is_mp = True
        elif op == "rmul":
            r, e = b * a, mb * ma
            is_mp = kind != "npnum"
        elif op == "matmul":
            r, e = a @ b, ma @ mb
        elif op == "rmatmul":
            r, e = b @ a, mb @ ma
        elif op in ("eq", "ne"):
            r = bool(a == b) if op == "eq" else bool(a != b)
            e = bool((ma == mb).all()) if op == "eq" else not bool((ma == mb).all())
            ensure(r == e, f"{what}: got {r}, expected {e}")
        elif op == "same":
            c = MatrixParameter(matrix=case["a"])
            ensure(bool(a == c) and bool(a == ma), "parameter differs from the one with the same matrix")
            r = e = 0
        elif op in ("neg", "pos", "abs"):
            f = {"neg": operator.neg, "pos": operator.pos, "abs": abs}[op]
            r, e, is_mp = f(a), f(ma), True
        elif op == "T":
            r, e, is_mp = a.T, ma.T, True
        elif op == "array":
            r, e = np.array(a), ma
        elif op == "det":
            r, e = np.linalg.det(a), np.linalg.det(ma)
        elif op == "norm":
            r, e = np.linalg.norm(a), np.linalg.norm(ma)
        elif op == "exp":
            r, e = np.exp(a), np.exp(ma)
        elif op == "sum":
            r, e = np.sum(np.array(a)), np.sum(ma)
        elif op == "trace":
            r, e = np.trace(a), np.trace(ma)
        elif op == "dot":
            r, e = np.dot(a, ma), np.dot(ma, ma)
        elif op == "repr":
            r, e = eval(repr(a), {"MatrixParameter": MatrixParameter, "array": np.array}), None
            # repr prints with the precision of numpy, at least eight digits
            rr = arr(r.matrix, (3, 3), "repr")
            ensure(np.allclose(rr, ma, rtol=1e-6, atol=1e-6), f"repr gives {rr} for {ma}")
            e = rr
            is_mp = True
        if is_mp:
            ensure(isinstance(r, MatrixParameter), f"{what}: result is {type(r).__name__}")
            exact(r.matrix, e, what)
        else:
            exact(r, e, what)
        # operands are unchanged
        exact(a.matrix, ma, f"{what}: left operand")
        if kind == "mp":
            exact(b.matrix, mb, f"{what}: right operand")
        elif kind in ("mat", "vec"):
            exact(b, mb, f"{what}: right operand")
        # no shared state
        if is_mp or (isinstance(r, np.ndarray) and r.shape != ()):
            ctx.label("aliasing: " + case["side"])
            if case["side"] == "result":
                if is_mp:
                    mutate(r, case["mut"], case["value"])
                else:
                    r += 7.5
                exact(a.matrix, ma, f"{what}: operand after a change of the result")
                if kind == "mp":
                    exact(b.matrix, mb, f"{what}: other operand after a change of the result")
                elif kind in ("mat", "vec"):
                    exact(b, mb, f"{what}: other operand after a change of the result")
            elif case["side"] == "operand" or kind not in ("mp", "mat", "vec"):
                mutate(a, case["mut"], case["value"])
                exact(r.matrix if is_mp else r, e, f"{what}: result after a change of the operand")
            else:
                if kind == "mp":
                    mutate(b, case["mut"], case["value"])
                else:
                    b += 7.5
                exact(r.matrix if is_mp else r, e, f"{what}: result after a change of the other operand")
                exact(a.matrix, ma, f"{what}: operand after a change of the other operand")
        ctx.label(op)


def nontrivial(case):
    m = np.array(case["a"])
    return bool(np.abs(m - m[0, 0] * np.eye(3)).max() > 0)


SUBCHECKS = [
    SubCheck(
        "operators",
        CASE,
        run,
        quick=16000,
        thorough=120000,
        rule="matrix, one to three operators with operands of every supported kind, one later modification; non-trivial: matrix is not isotropic",
        nontrivial=nontrivial,
    )
]
ASSUMPTIONS = ["equality within four units in the last place", "divisors are not zero"]
