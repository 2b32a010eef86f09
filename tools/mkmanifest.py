"""MANIFEST.json from the checks that exist (checks/Cxx.py with a META dict literal)."""
import ast, json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = os.path.join(R, "checks", p["id"] + ".py")
    meta = None
    if os.path.exists(f):
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.Assign) and n.targets[0].id == "META":
                meta = eval(compile(ast.Expression(n.value), f, "eval"))
    if meta is None:
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 checks/%s.py" % p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough python3 checks/%s.py" % p["id"],
                   "technique": meta["technique"], "level": "model_checking", "level_note": meta["note"]})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py",
           "hooks": {"guard": "none", "enable": "no hooks: the checks only use the modules' public ports", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "TLA+ specifications in spec/, checked with TLC; see DESIGN.md"},
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
