"""Writes MANIFEST.json from properties.jsonl and the property modules that exist."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def constants(path):
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return out


checks, missing = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    prop = json.loads(line)["id"]
    path = os.path.join(HERE, "rv", "props", prop.lower() + ".py")
    if not os.path.exists(path):
        missing.append({"property": prop, "reason": "no monitor written yet"})
        continue
    conf = constants(path)
    checks.append({
        "property": prop,
        "quick_cmd": "./check.sh %s quick" % prop,
        "thorough_cmd": "./check.sh %s thorough" % prop,
        "evidence_file": "evidence/%s.json" % prop,
        "technique": conf.get("TECHNIQUE", "runtime monitor with a reference-model oracle over generated workloads"),
        "level": conf.get("LEVEL", "exploration"),
        "level_note": "Held on the executions observed, not proved. Workload and oracle: " + conf["RULE"] + ". Assumes: "
                      + "; ".join(conf.get("ASSUMPTIONS", ["nothing beyond the property"])) + ".",
    })
manifest = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": missing,
            "notes": "No hooks: the monitors observe the library at its public interface and import it from /repo/src."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
