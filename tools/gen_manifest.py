"""Regenerates /verif/MANIFEST.json from the rule modules that exist."""
import ast, json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTE = ("Abstract interpretation of the package's own source, path by path, re-read on every run; nothing of it is "
        "executed. Assumes the modelled behaviour of the external calls (listed as assumptions in the evidence) and "
        "decides the abstract inputs the rules enumerate (see DESIGN.md), not unbounded ones unless they are symbolic.")
NA = {
    "C32": "Whether the imported values equal what bash declared is an equality between the run-time output of bash, over "
           "unbounded text, and the result of regular-expression parsing of it; no static rule in reach bounds it.",
    "C33": "What browsing must show depends on the processes that exist at run time; the source only delegates to psutil, "
           "so no static rule can decide it (names and call forms in ps.py and tree.py are covered by C24).",
}
PENDING = "no check built yet"


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        f = os.path.join(ROOT, "sa", "rules", i.lower() + ".py")
        if i in NA or not os.path.exists(f):
            na.append({"property": i, "reason": NA.get(i, PENDING)})
            continue
        tech = "path-sensitive interprocedural dataflow (abstract interpretation of the source)"
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "TECHNIQUE":
                tech = ast.literal_eval(n.value)
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "other",
                       "level_note": NOTE})
    m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
         "notes": "Stdlib-only static analyser in sa/ (engine) and sa/rules/ (one module per property); no hooks in "
                  "/repo. Known findings and repaired defects: known_findings.txt. Planted bugs: seeded/."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
