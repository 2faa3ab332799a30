"""Regenerate MANIFEST.json from properties.jsonl and checks/*.py (static read only)."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def consts(path):
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1:
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except Exception:
                pass
    return out


checks, na = [], []
NA = {}
for line in open(os.path.join(HERE, "properties.jsonl")):
    pid = json.loads(line)["id"]
    path = os.path.join(HERE, "checks", f"{pid}.py")
    if not os.path.exists(path):
        na.append({"property": pid, "reason": NA.get(pid, "check not built yet")})
        continue
    c = consts(path)
    checks.append(
        {
            "property": pid,
            "quick_cmd": f"./run {pid} quick",
            "thorough_cmd": f"./run {pid} thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": c.get(
                "TECHNIQUE",
                "runtime monitoring: online reference-model monitor over randomised, "
                "fault-injected executions of the real code",
            ),
            "level": c["LEVEL"],
            "level_note": c.get(
                "NOTE",
                "Sampled executions under a virtual clock; every execution is judged by an "
                "independent oracle. No claim beyond the executions explored.",
            ),
        }
    )
m = {
    "version": 1,
    "setup_cmd": "mkdir -p evidence replays",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks are needed in /repo: monitors attach from outside (virtual event "
    "loop, recording radio, wrapped methods).",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
