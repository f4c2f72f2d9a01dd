"""COVERAGE.md from the evidence of the last run of every check (run them on the unchanged tree first)."""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ev = {}
for f in sorted(glob.glob(here + '/evidence/C*.json')):
    e = json.load(open(f)); ev[e['property']] = e
titles = {}
for l in open(here + '/properties.jsonl'):
    d = json.loads(l); titles[d['id']] = d['title']
where = {}
for i, e in ev.items():
    for f in e['coverage']['functions']:
        where.setdefault(f['function'], set()).add(i)
pre = 'assumed contract (not verified by this check): '
out = ['# What is under contract', '',
       'Generated by `tools/mkcoverage.py` from the evidence files of a run on the unchanged tree.', '']
nf = no = nd = 0
alone = set()
for i, e in ev.items():
    if i not in titles:
        continue
    c = e['coverage']
    out += ['## %s %s' % (i, titles[i]), '',
            '%d of %d obligations discharged over %d functions (%s).' % (c['discharged'], c['obligations'], len(c['functions']), ', '.join('%s %d' % kv for kv in sorted(c['discharged_by'].items()))), '']
    unit = {}
    for f in c['functions']:
        unit.setdefault(f['unit'], []).append(f)
        nf += 1
    no += c['obligations']; nd += c['discharged']
    for u in sorted(unit):
        out.append('* `%s`: %s' % (u, ', '.join('%s (%d%s)' % (f['function'], f['obligations'], '' if not f['loops_by_invariant'] else '; loops: ' + ' '.join(f['loops_by_invariant'])) for f in sorted(unit[u], key=lambda f: f['function']))))
    b = [f['function'] for f in c['functions'] if f['bounded']]
    if b:
        out.append('* bounded, not proved: ' + ', '.join(b))
    a = []
    for s in e['assumptions']:
        if s.startswith(pre):
            n = s[len(pre):]
            w = sorted(where.get(n.split()[0], set()) - {i})
            if w:
                a.append('%s (under contract in %s)' % (n.split()[0], ', '.join(w)))
            else:
                a.append(n); alone.add(n)
    if a:
        out.append('* assumed contracts: ' + ', '.join(a))
    out.append('')
out[3:3] = ['%d functions (counted once per unit), %d of %d obligations discharged; %d assumed contracts are verified nowhere here.' % (nf, nd, no, len(alone)), '']
open(here + '/COVERAGE.md', 'w').write('\n'.join(out))
