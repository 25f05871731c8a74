"""Printed parameters and banners show what they were given."""

import contextlib
import io
import sys

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.core import SubCheck, close, ensure, fail

NUMBER = st.one_of(
    gen.ENTRY,
    st.floats(-1e6, 1e6, allow_subnormal=False),
    st.floats(-1e-3, 1e-3, allow_subnormal=False),
    st.sampled_from([0.0, -0.0, 1e-12, -1e-9, 123456.789, -99999.99995, 0.5, 1.0]),
)
FORMAT = st.one_of(
    st.none(),
    st.just(""),
    st.tuples(
        st.sampled_from(["", "<", ">", "^"]),
        st.sampled_from(["", "+", " "]),
        st.sampled_from(["", "8", "14"]),
        st.integers(0, 9),
        st.sampled_from("fFeEg"),
    ).map(list),
)


@st.composite
def parameters(draw):
    return {"matrix": draw(st.lists(st.lists(NUMBER, min_size=3, max_size=3), min_size=3, max_size=3)), "formats": draw(st.lists(FORMAT, min_size=1, max_size=3))}


def run_parameters(case, ctx):
    from magnopy import MatrixParameter

    matrix = np.array(case["matrix"])
    p = MatrixParameter(matrix)
    for fmt in case["formats"]:
        if not fmt:
            given, sign, tail = "" if fmt is not None else None, "", ".4f"
        else:
            align, sign, width, precision, kind = fmt
            given, tail = f"{align}{sign}{width}.{precision}{kind}", f".{precision}{kind}"
        text = str(p) if given is None else format(p, given) if case["matrix"][0][0] > 0 else f"{{:{given}}}".format(p)
        ensure(isinstance(text, str), f"format {given!r} gives {text!r}")
        lines = text.split("\n")
        ensure(len(lines) == 3, f"format {given!r}: {len(lines)} lines")
        ensure(len({len(x) for x in lines}) == 1, f"format {given!r}: lines of different length {lines}")
        expected = [[format(x + 0.0, sign + tail).strip() for x in row] for row in matrix]
        got = [x.split() for x in lines]
        ensure(got == expected, f"format {given!r}: {got}, expected {expected}")
        ctx.label("str" if given is None else "empty" if given == "" else "with type " + fmt[4])
    text = repr(p)
    again = eval(text, {"MatrixParameter": MatrixParameter, "array": np.array})
    ensure(isinstance(again, MatrixParameter), f"repr {text}")
    # numpy keeps nine significant digits of every element if they are small, large or of different magnitude
    size = np.abs(matrix[matrix != 0])
    spread = size.size > 0 and (size.min() < 1e-4 or size.max() >= 1e8 or size.max() / size.min() > 1000)
    allowed = (0 if spread else 1e-8) + 1e-8 * np.abs(matrix)
    ensure((np.abs(again.matrix - matrix) <= allowed).all(), f"repr {text} of {matrix.tolist()}")
    ensure(np.array_equal(p.matrix, matrix), "printing changed the parameter")


WORDS = st.lists(st.text(st.sampled_from("abcXYZ019.:/()"), min_size=1, max_size=9), min_size=1, max_size=5).map(" ".join)
WORDS = st.one_of(WORDS, WORDS, st.text(st.sampled_from("abcXYZ019.:/()"), min_size=40, max_size=58))
LOGO = st.fixed_dictionaries(
    {
        "info": st.one_of(st.none(), st.lists(WORDS, max_size=16)),
        "line_length": st.one_of(st.none(), st.integers(0, 130)),
        "flat": st.booleans(),
        "date_time": st.booleans(),
        "comment": st.sampled_from([None, True, False, "# ", "//", "% comment "]),
    }
)
BLOCKS = "█▄▀╗╔═╝╚║"


def run_logo(case, ctx):
    from magnopy import __doclink__, __release_date__, __version__
    from magnopy._pinfo import logo

    given = None if case["info"] is None else list(case["info"])
    text = logo(given, line_length=case["line_length"], flat=case["flat"], date_time=case["date_time"], comment=case["comment"])
    ensure(given == case["info"], "logo changed the list of information")
    comment = {None: "", True: "# ", False: ""}.get(case["comment"], case["comment"])
    lines = text.split("\n")
    for x in lines:
        ensure(x.startswith(comment), f"line {x!r} does not start with {comment!r}")
    lines = [x[len(comment) :] for x in lines]
    lengths = {len(x) for x in lines}
    ensure(len(lengths) == 1, f"lines have lengths {sorted(lengths)}")
    length = lengths.pop()
    asked = case["line_length"]
    ensure(length >= 70 and (asked is None or length >= asked), f"lines have length {length}, asked {asked}")
    ensure(asked is None or asked < 72 or length == asked, f"lines have length {length}, asked {asked}")
    words = []
    for x in lines:
        # the cat is on the right of the information
        left = x.rstrip()
        while left and (left[-1] in BLOCKS + " "):
            left = left[:-1]
        if not set(left) & set(BLOCKS) and left.strip():
            words.append(left.strip())
    if case["info"] is None:
        for piece in (__version__, __doclink__, str(__release_date__)):
            ensure(any(piece in w for w in words), f"{piece!r} is not in the banner {words}")
        ensure(any("Generated" in w for w in words) == case["date_time"], f"date in the banner: {words}")
    else:
        ensure(words == case["info"], f"banner shows {words}, given {case['info']}")
        ensure(bool(case["info"]) or len(lines) == (5 if case["flat"] else 6), f"{len(lines)} lines without information")
        ctx.label("long" if len(case["info"]) > 7 else "short")


COMMANDS = [[], ["logo"], ["warranty"], ["conditions"], ["version"], ["-v"], ["--version"], ["-gc"], ["--git-commit"], ["-h"], ["wrong"], ["--wrong"]]


def run_command(case, ctx):
    import magnopy
    from magnopy.__main__ import main

    argv = COMMANDS[case["command"]]
    out, err = io.StringIO(), io.StringIO()
    code = 0
    old = sys.argv
    sys.argv = ["magnopy"] + argv
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            main()
    except SystemExit as e:
        code = e.code
    finally:
        sys.argv = old
    text = out.getvalue()
    what = argv[0] if argv else "nothing"
    if what in ("wrong", "--wrong"):
        ensure(code not in (0, None) and err.getvalue(), f"{what}: exit code {code}")
        return
    ensure(code in (0, None), f"{what}: exit code {code}")
    expected = {
        "nothing": ["usage", magnopy.__version__],
        "-h": ["usage", magnopy.__version__],
        "logo": [magnopy.__version__, magnopy.__doclink__, "▄   ▄"],
        "warranty": ["THERE IS NO WARRANTY", "CORRECTION."],
        "conditions": ["GNU GENERAL PUBLIC LICENSE", "Version 3", "END OF TERMS AND CONDITIONS"],
    }.get(what, [str(magnopy.__git_commit__)] if what in ("-gc", "--git-commit") else [magnopy.__version__])
    for piece in expected:
        ensure(piece in text, f"{what}: {piece!r} is not in the output")


SUBCHECKS = [
    SubCheck("parameters", parameters(), run_parameters, quick=10000, thorough=80000, rule="matrices over twelve orders of magnitude x format specifications; non-trivial: no symmetric matrix", nontrivial=lambda c: c["matrix"] != np.array(c["matrix"]).T.tolist()),
    SubCheck("banner", LOGO, run_logo, quick=6000, thorough=40000, rule="lists of up to sixteen lines x length of lines x style x comments; non-trivial: has lines of information", nontrivial=lambda c: bool(c["info"])),
    SubCheck("command", st.fixed_dictionaries({"command": st.integers(0, len(COMMANDS) - 1)}), run_command, quick=128, thorough=64, rule="every command and flag of magnopy; every case is non-trivial"),
]
ASSUMPTIONS = ["lines of information have at most 58 characters, as documented", "format specifications have a precision (and no filling character)"]
