"""Writes /verif/MANIFEST.json from the check modules."""
import glob, importlib, json, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

NA = {}


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "..", "properties.jsonl")) if l.strip()]
    checks, na = [], []
    for p in props:
        f = os.path.join(HERE, "checks", p.lower() + ".py")
        if not os.path.exists(f):
            na.append({"property": p, "reason": NA.get(p, "no check built yet")})
            continue
        c = importlib.import_module("checks." + p.lower()).CHECK
        checks.append({
            "property": p,
            "quick_cmd": "python3-vt check.py %s --tier quick" % p,
            "thorough_cmd": "python3-vt check.py %s --tier thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": c.technique,
            "level": c.level,
            "level_note": c.note})
    m = {"version": 1,
         "setup_cmd": "python3-vt pbt/build.py asan tsan py",
         "checks": checks, "not_applicable": na,
         "notes": "Every check builds /repo's current working tree by itself (keyed by a hash of the sources) under /verif/_build; "
                  "setup_cmd only warms that build. No hooks in /repo are needed."}
    with open(os.path.join(HERE, "..", "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
