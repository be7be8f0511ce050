#!/usr/bin/env python3
"""Single source of truth for properties.jsonl and MANIFEST.json."""
import json, subprocess
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, level, technique, note, claimed=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe, level=level, technique=technique, note=note, claimed=claimed))
exec(open('/verif/tools/props.py').read())
with open('/verif/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({
            "id": p['id'], "title": p['title'], "statement": p['statement'],
            "quantifier": {"over": p['over'], "text": p['qtext']},
            "why_tests_cant": p['why'],
            "anchors": {"files": p['files'], "mechanism": [{"name": a, "where": b} for a, b in p['mech']],
                        "observe_at": [x.strip() for x in p['observe'].split(';')]},
        }) + "\n")
m = {"version": 1, "setup_cmd": "/verif/setup.sh",
     "hooks": {"guard": HOOK_GUARD, "enable": HOOK_ENABLE, "source_commits": HOOK_COMMITS},
     "checks": [{"property": p['id'], "quick_cmd": f"/verif/check.sh {p['id']} quick",
                 "thorough_cmd": f"/verif/check.sh {p['id']} thorough",
                 "evidence_file": f"evidence/{p['id']}.json",
                 "technique": p['technique'], "level": p['level'], "level_note": p['note']} for p in P if p['claimed']],
     "not_applicable": NOT_APPLICABLE, "notes": NOTES}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(P), "properties")
