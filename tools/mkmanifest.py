"""writes /verif/MANIFEST.json from checks.REGISTRY and the texts below"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
from checks import TECH, NA
out = {'version': 1, 'setup_cmd': 'python3 -c "import ast, sys; assert sys.version_info >= (3, 9)"', 'checks': [], 'not_applicable': []}
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
for i in ids:
    if i in checks.REGISTRY:
        t, lvl, note = TECH[i]
        out['checks'].append(dict(property=i, quick_cmd='python3 run.py %s --tier quick' % i,
                                  thorough_cmd='python3 run.py %s --tier thorough' % i,
                                  technique=t, level=lvl, level_note=note))
    else:
        out['not_applicable'].append(dict(property=i, reason=NA.get(i, 'No check has been built for this property yet.')))
json.dump(out, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
