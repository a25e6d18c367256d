"""Writes /verif/MANIFEST.json from the check modules present in mc/."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
NA = {}
mods = {}
for f in sorted(os.listdir(os.path.join(ROOT, 'mc'))):
    if f[0] == 'c' and f[1:3].isdigit() and f.endswith('.py'):
        mods[f[:3].upper()] = 'mc.' + f[:-3]
checks, na = [], []
for p in props:
    i = p['id']
    if i in mods:
        m = importlib.import_module(mods[i])
        checks.append({'property': i, 'quick_cmd': f'./check {i}', 'thorough_cmd': f'./check {i} --tier thorough', 'evidence_file': f'evidence/{i}.json',
                       'technique': m.TECH, 'level': 'model_checking',
                       'level_note': 'Complete within the stated bounds, on the real code. Space: ' + m.RULE + '. Assumes: ' + '; '.join(m.ASSUME) + '.'})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
               'notes': 'Every check enumerates its bounded space completely and runs the code of /repo in-process; no hooks are needed in /repo.'}, f, indent=1)
print(len(checks), 'checks;', len(na), 'not claimed')
