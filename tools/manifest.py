"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.notes import NOTES, NOT_APPLICABLE  # noqa: E402

props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
  if p in NOTES:
    level, note = NOTES[p]
    checks.append({
        'property': p,
        'quick_cmd': 'python3-vt run_check.py ' + p,
        'thorough_cmd': 'VERIF_TIER=thorough python3-vt run_check.py ' + p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': 'contracts and lemmas over the source in /repo, verification conditions generated on '
                     'every run and discharged by polynomial normal forms, z3 and cvc5',
        'level': level, 'level_note': note})
  else:
    na.append({'property': p, 'reason': NOT_APPLICABLE.get(p, 'check not built yet')})
m = {
    'version': 1,
    'setup_cmd': 'python3-vt -c "import z3, numpy" && /opt/venv/bin/python -c "import numpy, scipy"',
    'checks': checks, 'not_applicable': na,
    'hooks': {'guard': 'none (no hooks in /repo)', 'enable': 'nothing to enable', 'source_commits': []},
    'notes': 'See DESIGN.md. Every check reads the source in /repo on each run; nothing is cached.',
}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
