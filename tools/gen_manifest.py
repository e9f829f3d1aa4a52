import json,sys
sys.path.insert(0,'/verif')
from specs import notes
rows=[json.loads(l) for l in open('/verif/properties.jsonl')]
m={"version":1,
 "setup_cmd":"python3-vt tools/setup.py",
 "checks":[{"property":r['id'],
   "quick_cmd":f"python3-vt check.py {r['id']} --tier quick",
   "thorough_cmd":f"python3-vt check.py {r['id']} --tier thorough",
   "technique":notes.technique(r['id']),
   "level":notes.LEVEL.get(r['id'],'exploration'),
   "level_note":notes.explain(r['id'])} for r in rows],
 "not_applicable":[]}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
