"""What a user sees of a list of models in a fresh process: results as plain data.

As a script: a server that reads one JSON request per line and answers it from a forked child, so that
no request sees what another one left behind."""

import contextlib
import io
import json
import os
import re
import sys
import tempfile

import numpy as np


def plain(x):
    a = np.asarray(x)
    if np.iscomplexobj(a):
        return [a.real.tolist(), a.imag.tolist()]
    return a.tolist()


def lines(text):
    """Without comments that show the time."""
    return [x for x in text.split("\n") if not re.search(r"\d+:\d+:\d+", x)]


def edit(h, step, extra):
    """One edit of the Hamiltonian, chosen by plain data."""
    from magnopy import MatrixParameter

    kind, n = step
    exchange = [(a, b, r) for a, b, r, _ in h.exchange]
    if kind == "copy":
        return h.copy()
    if kind == "dc":
        h.double_counting = bool(n % 2)
    elif kind == "sn":
        h.spin_normalized = bool(n % 2)
    elif kind == "name":
        h.notation = ["SpinW", "TB2J", "Vampire", "Grogu", "Magnopy"][n % 4]
    elif kind == "filter":
        return h.filtered(max_distance=2.0 + n)
    elif kind == "remove" and exchange:
        h.remove_exchange(*exchange[n % len(exchange)])
    elif kind == "rewrite" and exchange:
        a, b, r = exchange[n % len(exchange)]
        h[a, b, r] = MatrixParameter(matrix=np.array(h[a, b, r].matrix) * 2 + extra)
    elif kind == "onsite-remove":
        sites = [a for a, _ in h.on_site]
        if sites:
            h.remove_on_site(sites[n % len(sites)])
    elif kind == "atom-remove" and len(h.atoms) > 1:
        h.remove_atom(h.atoms[n % len(h.atoms)])
    elif kind == "atom-add":
        name = ["Zr", "Ta", "Os", "Pt"][n % 4]
        if name not in [a.name for a in h.atoms]:
            h.add_atom(name, position=[0.125 * n, 0.3, 0.7], spin=[0, 1.0, 0.5])
            h.add_on_site(name, matrix=np.diag([1.0, 2.0, 3.0 + n]))
            h.add_exchange(name, h.atoms[0].name, (1, 0, n % 3), matrix=np.array([[1, 2, 3], [4, 5, 6], [7, 8, n]], dtype=float))
    return h


def look(h, spec, out, what, scratch, hist):
    from magnopy import Energy, MagnonDispersion, dump_spinham_hdf5, dump_spinham_txt, load_spinham_hdf5, load_spinham_txt
    from magnopy.io.txt.vampire import dump_mat, dump_ucf

    def put(name, f):
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                out[f"{what}: {name}"] = f()
        except Exception as e:
            out[f"{what}: {name}"] = f"{type(e).__name__}"

    put("atoms", lambda: [[a.name, a.index] for a in h.atoms])
    put("magnetic atoms", lambda: [[a.name, a.index] for a in h.magnetic_atoms])
    put("exchange", lambda: [[a.name, b.name, [int(x) for x in r], plain(p.matrix)] for a, b, r, p in h.exchange])
    put("on-site", lambda: [[a.name, plain(p.matrix)] for a, p in h.on_site])
    put("exchange_like", lambda: [[a.name, b.name, [int(x) for x in r], plain(p.matrix)] for a, b, r, p in h.exchange_like])
    put("notation", lambda: [h.double_counting, h.spin_normalized, h.exchange_factor, h.on_site_factor])
    n = h.I
    dirs = np.array(spec["dirs"], dtype=float)[:n]
    axis = np.array(spec["axis"], dtype=float)
    q = np.array(spec["q"], dtype=float)

    def energies():
        e = Energy(h)
        e.magnetic_field = [1.0, -2.0, 0.5]
        return [float(e.ferro(dirs)), float(e.antiferro(dirs, axis, q)), float(e.spiral(dirs, axis, q))]

    def spins():
        e = Energy(h)
        return [plain(e.spins), plain(e.g_factors)]

    def optimum():
        e = Energy(h)
        if spec["kind"] == "ferro":
            return [plain(x) for x in e.optimize("ferro", initial_guess=dirs, max_iterations=2)]
        if spec["kind"] == "antiferro":
            return [plain(x) for x in e.optimize("antiferro", initial_guess=(dirs, axis), antiferro_q=q, max_iterations=1)]
        return [plain(x) for x in e.optimize("spiral", initial_guess=(dirs, axis, q), max_iterations=1)]

    def magnons():
        md = MagnonDispersion(h)
        return [plain(md.omegas([q, 2 * q])), plain(md.S), plain(md.J(q))]

    put("energies", energies)
    put("spins", spins)
    put("optimum", optimum)
    put("magnons", magnons)
    put("ucf", lambda: lines(dump_ucf(h)))
    put("mat", lambda: lines(dump_mat(h)))

    def text():
        path = os.path.join(scratch, "t.txt")
        dump_spinham_txt(h, filename=path, write_spin_angles=bool(len(spec["steps"]) % 2))
        return lines(open(path).read())

    put("txt", text)

    def through_txt():
        path = os.path.join(scratch, "h.txt")
        dump_spinham_txt(h, filename=path)
        return [[a.name, b.name, [int(x) for x in r], plain(p.matrix)] for a, b, r, p in load_spinham_txt(path).exchange]

    def through_hdf5():
        path = os.path.join(scratch, "h.hdf5")
        dump_spinham_hdf5(h, path, overwrite=True)
        g = load_spinham_hdf5(path)
        return [
            [[a.name, b.name, [int(x) for x in r], plain(p.matrix)] for a, b, r, p in g.exchange],
            [[a.name, plain(p.matrix)] for a, p in g.on_site],
            [a.name for a in g.magnetic_atoms],
        ]

    put("through txt", through_txt)
    put("through hdf5", through_hdf5)


def observe(spec):
    from vlib import ref

    out = {}
    with tempfile.TemporaryDirectory() as scratch:
        h = ref.build(spec["model"], spec.get("notation_first", True))
        look(h, spec, out, "start", scratch, [])
        for k, step in enumerate(spec["steps"]):
            try:
                h = edit(h, step, 0.25)
            except Exception as e:
                out[f"edit {k}"] = type(e).__name__
        look(h, spec, out, "end", scratch, [])
    return out


def serve():
    import hypothesis  # noqa: F401  (imported by vlib.gen)
    import magnopy  # noqa: F401

    from vlib import ref  # noqa: F401

    import logging

    logging.disable(logging.CRITICAL)
    out = os.fdopen(os.dup(1), "w")
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    for line in sys.stdin:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                request = json.loads(line)
                specs, order = request["specs"], request["order"]
                answer = [None] * len(specs)
                for k in order:
                    answer[k] = observe(specs[k])
                text = json.dumps(answer)
            except BaseException as e:
                import traceback

                text = json.dumps({"error": traceback.format_exc()})
            with os.fdopen(w, "w") as f:
                f.write(text)
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            text = f.read()
        os.waitpid(pid, 0)
        out.write(text.replace("\n", " ") + "\n")
        out.flush()


if __name__ == "__main__":
    serve()
