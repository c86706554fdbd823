"""Writes properties.jsonl and MANIFEST.json from the PROP descriptions of the check modules (plus na.json)."""
import importlib.util, json, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "mc"))
props, checks = [], []
for f in sorted((V / "mc" / "checks").glob("[A-Z][0-9][0-9].py")):
    spec = importlib.util.spec_from_file_location(f.stem, f)
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    p = m.PROP
    assert len(p["title"]) <= 80, (f, len(p["title"]))
    props.append(dict(id=f.stem, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                      anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mechanism"]], hook_needed=None)))
    level = getattr(m, "LEVEL", "model_checking")
    checks.append(dict(property=f.stem, quick_cmd=f"./run.sh {f.stem} quick", thorough_cmd=f"./run.sh {f.stem} thorough", evidence_file=f"evidence/{f.stem}.json",
                       technique=p.get("technique", "explicit-state model checking of the real code: exhaustive bounded enumeration of executions, each replayed against an independent reference model" if level == "model_checking"
                                       else "exhaustive fault-point enumeration over all bounded histories on the real code"),
                       level=level, level_note=m.BOUNDS))
na = json.loads((V / "mc" / "na.json").read_text()) if (V / "mc" / "na.json").exists() else []
for n in na: props.append({k: v for k, v in n["prop"].items()})
with open(V / "properties.jsonl", "w", encoding="utf-8") as out:
    for p in props: out.write(json.dumps(p, ensure_ascii=False) + "\n")
manifest = dict(version=1, setup_cmd="bash setup.sh", checks=checks,
                not_applicable=[dict(property=n["prop"]["id"], reason=n["reason"]) for n in na],
                notes="All checks are mc/checks/<ID>.py, run by run.sh against /repo's working tree (pure Python: nothing is built). No hooks were needed.")
(V / "MANIFEST.json").write_text(json.dumps(manifest, ensure_ascii=False, indent=1) + "\n", encoding="utf-8")
try:
    import jsonschema
    for p in props: jsonschema.validate(p, json.load(open("/root/.vp/PROPERTIES.schema.json")))
    jsonschema.validate(manifest, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError: pass
print(len(props), "properties", len(checks), "checks")
