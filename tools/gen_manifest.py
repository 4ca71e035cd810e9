#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the properties that have a module in js/props."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
notes = json.load(open(root + '/tools/levels.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(f'{root}/js/props/{i}.mjs'):
        t, n = notes[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                       "technique": t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": notes.get('na', {}).get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "./build.sh app ts cli types tiny", "checks": checks, "not_applicable": na,
     "notes": "All checks: seeded generation with explicit oracles, see DESIGN.md. No hooks are needed in /repo."}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
print(len(checks), 'checks', len(na), 'na')
