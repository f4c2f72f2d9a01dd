"""Writes properties.jsonl and MANIFEST.json from tools/props_text.py and the props/*.py that exist."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props_text import P, TECH, LEVELNOTE, NOTES
hooks = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%H %s'], capture_output=True, text=True).stdout.split('\n')
hooks = [l.split()[0] for l in hooks if ' verif:' in l]
checks, na = [], []
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(q) + '\n')
        if os.path.exists(os.path.join(V, 'props', p['id'] + '.py')) and not p.get('na'):
            checks.append(dict(property=p['id'], quick_cmd='python3-vt vcgen/check.py %s' % p['id'], thorough_cmd='python3-vt vcgen/check.py %s' % p['id'],
                               technique=TECH, level='proof', level_note=p.get('note', '') + ' ' + LEVELNOTE))
        else:
            na.append(dict(property=p['id'], reason=p.get('na') or 'no contracts for it yet'))
m = dict(version=1, setup_cmd='python3-vt -c "import z3" && goto-cc --version >/dev/null && cvc5 --version >/dev/null', 
         hooks=dict(guard='VERIF_CONTRACTS', enable='vcgen/check.py compiles the sources with goto-cc -DVERIF_CONTRACTS (never linked into a server)', source_commits=hooks),
         checks=checks, not_applicable=na, notes=NOTES)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
