"""Assemble DESIGN.md from design/*.md, properties.jsonl, the checks and seeded/."""

import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
read = lambda p: open(os.path.join(HERE, p)).read()  # noqa: E731


def consts(path):
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1:
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except Exception:
                pass
    return out


notes = {}
for block in read("design/properties.md").split("\n## ")[1:]:
    head, body = block.split("\n", 1)
    notes[head.strip()] = body.strip()

out = [read("design/head.md"), "## The properties and how each is decided\n"]
for line in read("properties.jsonl").splitlines():
    p = json.loads(line)
    c = consts(os.path.join(HERE, "checks", p["id"] + ".py"))
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(notes[p["id"]] + "\n")
    out.append(f"* Workload: {c['NOTE']}" if "NOTE" in c else "")
    out.append(f"* Space: {p['quantifier']['text']}. {c['RULE']}")
    out.append(f"* Beyond the tests: {p['why_tests_cant']}")
    if c.get("ASSUMPTIONS"):
        out.append("* Not judged: " + " ".join(a[0].upper() + a[1:].rstrip(".") + "." for a in c["ASSUMPTIONS"]))
    out.append("")
out.append(read("design/tail.md"))
out.append("| change | property | needs | breaks | caught by |\n|---|---|---|---|---|")
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.loads(read(f"seeded/{d}/meta.json"))
    by = m.get("caught_by", m["property"])
    out.append(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {by} |")
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write("\n".join(x for x in out if x is not None).replace("\n\n\n", "\n\n") + "\n")
