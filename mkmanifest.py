"""writes MANIFEST.json"""
import json, re
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
src = open("/verif/check.py").read()
claimed = set(re.findall(r'"(C\d\d)": c\d\d', src))
T = "explicit TLA+ specification checked with TLC; behaviours recorded from (or generated for) the real code validated against it by TLC"
notes = json.load(open("/verif/levels.json"))
m = {"version": 1,
     "setup_cmd": "python3 setup.py",
     "hooks": {"guard": "cfg(zok_verif)", "enable": "RUSTFLAGS=\"--cfg zok_verif\"", "source_commits": ["50df5cb"]},
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
                 "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                 "technique": T, "level": "model_checking", "level_note": notes[p["id"]]} for p in props if p["id"] in claimed],
     "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in claimed]}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
