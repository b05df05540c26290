"""Nothing to build: checks that the interpreter, Hypothesis and the package under test can be imported."""
import os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
assert os.path.isdir(VT + '/hypothesis') or os.path.isdir('/opt/veriftools/wheels')
for f in ('properties.jsonl', 'MANIFEST.json', 'known_findings.json'):
    assert os.path.exists(os.path.join(here, f))
os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
print('ok')
