"""Write MANIFEST.json from hv/meta.py"""
import json
import os

from hv.meta import META

ROOT = os.path.dirname(os.path.abspath(__file__))
manifest = {
    'version': 1,
    'setup_cmd': 'python3-vt setup_check.py',
    'checks': [{'property': prop, 'quick_cmd': f'python3-vt check.py {prop}', 'thorough_cmd': f'python3-vt check.py {prop}', 'evidence_file': f'evidence/{prop}.json',
                'technique': info['technique'], 'level': info['level'], 'level_note': info['note']} for prop, info in META.items()],
    'not_applicable': []
}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w', encoding='utf-8') as fh:
    json.dump(manifest, fh, indent=1)
    fh.write('\n')
