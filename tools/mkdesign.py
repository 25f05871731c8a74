"""Writes DESIGN.md from design.md, design_tail.md, the property modules and seeded/*/meta.json."""
import importlib, json, os, subprocess, sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [here, "/repo/src"]
titles = {}
for line in open(f"{here}/properties.jsonl"):
    d = json.loads(line)
    titles[d["id"]] = d["title"]
out = []
for line in open(f"{here}/tools/design.md"):
    if not line.startswith("@"):
        out.append(line.rstrip("\n"))
        continue
    pid, text = line[1:].strip().split(" ", 1)
    out += [f"### {pid} {titles[pid]}", "", text.strip(), ""]
    m = importlib.import_module(f"vlib.props.{pid.lower()}")
    for s in m.SUBCHECKS:
        out.append(f"* `{s.name}` ({s.quick} quick / {s.thorough} thorough): {s.rule}")
    out += ["", "Assumptions: " + "; ".join(m.ASSUMPTIONS) + ".", ""]
for line in open(f"{here}/tools/design_tail.md"):
    if line.startswith("@FIXES"):
        for f in open(f"{here}/KNOWN_FINDINGS.txt"):
            if f.startswith("fixed: property="):
                p, commit, text = f[len("fixed: property=") :].strip().split(" ", 2)
                out.append(f"* {p} `{commit}`: {text}")
    elif line.startswith("@SEEDED"):
        caught = json.load(open(f"{here}/tools/caught.json"))
        out += ["| bug | property | needs | what it breaks | caught by |", "|---|---|---|---|---|"]
        for b in sorted(os.listdir(f"{here}/seeded")):
            d = json.load(open(f"{here}/seeded/{b}/meta.json"))
            cell = lambda x: str(x).replace("|", "/").replace("\n", " ")
            out.append(f"| {b} | {d['property']} | {cell(d['needs'])} | {cell(d['what_it_breaks'])} | {caught.get(b, '?')} |")
    else:
        out.append(line.rstrip("\n"))
open(f"{here}/DESIGN.md", "w").write("\n".join(out) + "\n")
