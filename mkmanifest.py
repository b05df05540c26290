import json, os
L = {}
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
notes = json.load(open('/verif/level_notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(f'/verif/checks/{i.lower()}.py'):
        checks.append(dict(property=i, quick_cmd=f'/opt/venv/bin/python run.py {i} --tier quick',
                           thorough_cmd=f'/opt/venv/bin/python run.py {i} --tier thorough',
                           evidence_file=f'evidence/{i}.json', technique=notes[i]['technique'], level='exploration',
                           level_note=notes[i]['note']))
    else:
        na.append(dict(property=i, reason='check under construction'))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python setup.py', checks=checks, not_applicable=na,
               notes='Property-based testing (Hypothesis) against independent NumPy reference models; see DESIGN.md. '
                     'No hooks in /repo are needed. Each check starts 8 workers that import /repo through the editable install.'),
          open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), len(na))
