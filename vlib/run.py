"""Runner: ./check <ID> [--tier quick|thorough] [--replay FILE]"""

import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue as queuelib
import shutil
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXIT_ERROR = 3


def scratch(base=None):
    d = tempfile.mkdtemp(prefix="verif-", dir=base)
    os.environ["MPLCONFIGDIR"] = os.path.join(d, "mpl")
    if base is None:
        os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(d, "hypothesis")
    os.chdir(d)
    return d


def worker(pid, tier, seed, wid, nworkers, only, cap, shrink_cap, out, scale, base):
    d = scratch(base)
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    try:
        _worker(pid, tier, seed, wid, nworkers, only, cap, shrink_cap, out, scale)
    except BaseException:
        out.put(("error", wid, traceback.format_exc()))
    finally:
        os.chdir("/")
        shutil.rmtree(d, ignore_errors=True)


def _worker(pid, tier, seed, wid, nworkers, only, cap, shrink_cap, out, scale):
    import logging

    logging.disable(logging.CRITICAL)
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    from vlib.core import HarnessError, Violation, dumps, run_case

    mod = importlib.import_module(f"vlib.props.{pid.lower()}")
    subs = [s for s in mod.SUBCHECKS if only is None or s.name == only]
    started = time.monotonic()
    results = []
    total_weight = sum(getattr(s, "time_share", 1.0) for s in subs)
    for s_i, sub in enumerate(subs):
        n_total = sub.quick if tier == "quick" else sub.thorough
        n_total = int(n_total * scale)
        n = max(1, -(-n_total // nworkers))
        state = {
            "evals": 0,
            "skipped": 0,
            "nontrivial": set(),
            "samples": [],
            "labels": {},
            "fails": {},
            "last": None,
            "t_fail": None,
            "harness": None,
        }
        # every sub-check has its share of the time of the worker
        t_end = started + cap * sum(
            getattr(s, "time_share", 1.0) for s in subs[: s_i + 1]
        ) / total_weight

        def body(case):
            now = time.monotonic()
            key = hashlib.sha1(dumps(case).encode()).hexdigest()
            if key in state["fails"]:
                state["last"] = key
                raise Violation(state["fails"][key][1])
            if state["t_fail"] is None:
                if now > t_end:
                    state["skipped"] += 1
                    return
            elif now > state["t_fail"] + shrink_cap:
                return
            state["evals"] += 1
            if state["t_fail"] is None and sub.nontrivial(case):
                if key not in state["nontrivial"]:
                    state["nontrivial"].add(key)
                    if len(state["samples"]) < 3 or len(state["nontrivial"]) in (40, 80):
                        state["samples"].append(json.loads(dumps(case)))
            try:
                labels = run_case(sub, case, 150 if state["t_fail"] is None else 20)
            except Violation as e:
                state["fails"][key] = (json.loads(dumps(case)), str(e))
                state["last"] = key
                if state["t_fail"] is None:
                    state["t_fail"] = time.monotonic()
                raise
            except HarnessError as e:
                state["harness"] = (json.loads(dumps(case)), str(e))
                raise
            for label in labels:
                state["labels"][label] = state["labels"].get(label, 0) + 1

        test = given(sub.strategy)(body)
        test = settings(
            max_examples=n,
            deadline=None,
            database=None,
            derandomize=False,
            suppress_health_check=list(HealthCheck),
            phases=[Phase.generate, Phase.shrink],
            report_multiple_bugs=False,
            print_blob=False,
            verbosity=hypothesis.Verbosity.quiet,
        )(test)
        test = hypothesis.seed((seed * 100003 + wid) * 1009 + s_i)(test)
        error = None
        try:
            test()
        except Violation:
            pass
        except HarnessError:
            pass
        except BaseException:
            # Hypothesis' own complaints (Flaky, ...) count only if nothing was found
            error = traceback.format_exc()
        if state["harness"] is not None and not state["fails"]:
            out.put(("error", wid, f"{pid}/{sub.name}: {state['harness'][1]}\ncase: {json.dumps(state['harness'][0])[:3000]}"))
            return
        if state["fails"]:
            case, msg = state["fails"][state["last"]]
            out.put(("violation", wid, sub.name, case, msg, state["evals"]))
            return
        if error is not None:
            out.put(("error", wid, f"{pid}/{sub.name}: {error}"))
            return
        results.append(
            {
                "sub": sub.name,
                "evals": state["evals"],
                "skipped": state["skipped"],
                "nontrivial": list(state["nontrivial"]),
                "samples": state["samples"],
                "labels": state["labels"],
            }
        )
    out.put(("done", wid, results))


def known_findings(pid):
    """Lines 'known: property=<id> sub=<sub> contains=<text> | <description>'"""
    result = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith(f"known: property={pid} "):
                result.append(line.strip())
    return result


def shorten(x, depth=0):
    s = json.dumps(x)
    return x if len(s) < 3000 else s[:3000] + "..."


def main():
    p = argparse.ArgumentParser()
    p.add_argument("property")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--replay")
    p.add_argument("--only")
    p.add_argument("--workers", type=int, default=None)
    p.add_argument("--scale", type=float, default=1.0)
    args = p.parse_args()
    pid = args.property
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()

    if args.replay:
        path = os.path.abspath(args.replay)
        d = scratch()
        try:
            from vlib.core import HarnessError, Violation, run_case

            import logging

            logging.disable(logging.CRITICAL)
            rep = json.load(open(path))
            mod = importlib.import_module(f"vlib.props.{pid.lower()}")
            sub = [s for s in mod.SUBCHECKS if s.name == rep["sub"]][0]
            stdout = sys.stdout
            sys.stdout = open(os.devnull, "w")
            try:
                run_case(sub, rep["case"])
            except Violation as e:
                sys.stdout = stdout
                print(f"{pid}/{sub.name}: {e}")
                print(f"VIOLATION property={pid} replay={path}")
                return 1
            except HarnessError as e:
                sys.stdout = stdout
                print(f"HARNESS ERROR {e}")
                return EXIT_ERROR
            finally:
                sys.stdout = stdout
            print(f"{pid}/{sub.name}: replay holds")
            return 0
        finally:
            os.chdir("/")
            shutil.rmtree(d, ignore_errors=True)

    try:
        # import in the parent: workers are forked from it
        import numpy  # noqa: F401

        d0 = scratch()
        mod = importlib.import_module(f"vlib.props.{pid.lower()}")
    except Exception:
        traceback.print_exc()
        return EXIT_ERROR
    finally:
        os.chdir("/")

    import magnopy

    src = os.path.realpath(os.environ.get("MAGNOPY_SRC", "/repo/src"))
    if not os.path.realpath(magnopy.__file__).startswith(src + "/"):
        print(f"magnopy is imported from {magnopy.__file__}, not from {src}")
        return EXIT_ERROR

    nworkers = args.workers or min(8, os.cpu_count() or 1)
    cap = getattr(mod, "QUICK_CAP", 150) if tier == "quick" else getattr(mod, "THOROUGH_CAP", 700)
    shrink_cap = 30 if tier == "quick" else 60
    out = mp.get_context("fork").Queue()
    procs = []
    for w in range(nworkers):
        pr = mp.get_context("fork").Process(
            target=worker,
            args=(pid, tier, seed, w, nworkers, args.only, cap, shrink_cap, out, args.scale, d0),
        )
        pr.start()
        procs.append(pr)

    done, violation, errors = [], None, []
    pending = set(range(nworkers))
    while pending:
        try:
            msg = out.get(timeout=1)
        except queuelib.Empty:
            for w in list(pending):
                if not procs[w].is_alive() and out.empty():
                    # give the queue a moment
                    time.sleep(0.5)
                    if out.empty():
                        pending.discard(w)
                        errors.append(f"worker {w} died with {procs[w].exitcode}")
            continue
        pending.discard(msg[1])
        if msg[0] == "done":
            done.append(msg[2])
        elif msg[0] == "error":
            errors.append(msg[2])
        else:
            violation = msg
            break
    for pr in procs:
        if violation is not None and pr.is_alive():
            pr.terminate()
        pr.join(20)
    shutil.rmtree(d0, ignore_errors=True)
    # evidence
    subs = {}
    order = [s for s in mod.SUBCHECKS if args.only is None or s.name == args.only]
    for s in order:
        subs[s.name] = {"evaluations": 0, "skipped_by_time_cap": 0, "nt": set(), "samples": [], "labels": {}, "rule": s.rule}
    for results in done:
        for r in results:
            x = subs[r["sub"]]
            x["evaluations"] += r["evals"]
            x["skipped_by_time_cap"] += r["skipped"]
            x["nt"] |= set(r["nontrivial"])
            x["samples"].extend(r["samples"])
            for k, v in r["labels"].items():
                x["labels"][k] = x["labels"].get(k, 0) + v
    violations = 0
    replay = None
    if violation is not None:
        violations = 1
        _, _, sname, case, text, evals = violation
        subs[sname]["evaluations"] += evals
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        replay = os.path.join(HERE, "replays", f"{pid}-{sname}.json")
        with open(replay, "w") as f:
            json.dump({"property": pid, "sub": sname, "seed": seed, "message": text, "case": case}, f, indent=1)
    samples = []
    for name, x in subs.items():
        for s in x["samples"][:2]:
            samples.append({"sub": name, "case": shorten(s)})
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(x["evaluations"] for x in subs.values()),
            "distinct_nontrivial": sum(len(x["nt"]) for x in subs.values()),
            "rule": "; ".join(f"{n}: {x['rule']}" for n, x in subs.items()),
            "samples": samples,
            "subchecks": {
                n: {
                    "evaluations": x["evaluations"],
                    "distinct_nontrivial": len(x["nt"]),
                    "skipped_by_time_cap": x["skipped_by_time_cap"],
                    "classes": dict(sorted(x["labels"].items())),
                }
                for n, x in subs.items()
            },
            "workers": nworkers,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 3),
        "violations": violations,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    if violation is not None:
        print(f"{pid}/{violation[2]}: {violation[4]}")
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    if errors:
        print("HARNESS ERROR")
        for e in errors[:1]:
            print(e)
        return EXIT_ERROR
    for line in known_findings(pid):
        print("KNOWN-FINDING: " + line[len("known: "):])
    c = evidence["coverage"]
    print(
        f"{pid}: held on {c['evaluations']} cases ({c['distinct_nontrivial']} distinct non-trivial), "
        f"{evidence['wall_s']:.1f} s"
    )
    for n, x in c["subchecks"].items():
        print(f"  {n}: {x['evaluations']} cases, skipped {x['skipped_by_time_cap']}")
    return 0


if __name__ == "__main__":
    sys.exit(main())
