"""fills the tables of DESIGN.md (from DESIGN.in.md) out of the registry, the contracts and the planted bugs"""
import importlib, json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from pv.registry import CHECKS, NOT_APPLICABLE
props = [json.loads(x) for x in open(os.path.join(V, 'properties.jsonl'))]
man = json.load(open(os.path.join(V, 'MANIFEST.json')))
na = {x.get('property') or x.get('id'): x['reason'] for x in man['not_applicable']}
out = []
for p in props:
    i = p['id']
    out.append(f"### {i} {p['title']}\n")
    if i not in CHECKS:
        out.append(f"Not applicable: {na.get(i) or NOT_APPLICABLE.get(i)}\n")
        continue
    c = CHECKS[i]
    out.append(c['note'] + '\n')
    out.append('Contracts:\n')
    for m, n, *only in c['contracts']:
        k = getattr(importlib.import_module('pv.contracts.' + m), n)
        d = ' '.join((k.title or k.__doc__ or '').split())
        out.append(f"* `{k.target}` ({m}.{n}): {d}")
    asm = sorted({a for m, n, *_ in c['contracts'] for a in getattr(importlib.import_module('pv.contracts.' + m), n).assumes} | set(c.get('assumptions', ())))
    if asm:
        out.append('\nAssumed: ' + '; '.join(asm) + '.')
    if c.get('bounded'):
        out.append('\nBounded stand-ins (run on every check, labelled bounded in the evidence): ' + '; '.join(f.__name__ + ': ' + ' '.join((f.__doc__ or '').split()) for f in c['bounded']))
    if c.get('search'):
        out.append('\nSearch for a failing input when an obligation fails: ' + ', '.join(f.__name__ for f in c['search']) + '.')
    out.append('')
seeds = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
res = {}
rp = os.path.join(V, 'tools', 'seed_results.json')
if os.path.exists(rp):
    res = json.load(open(rp))
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    n = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    seeds.append(f"| {n} | {m['property']} | {m['needs']}: {m['what_it_breaks']} | {res.get(n, '')} |")
t = open(os.path.join(V, 'DESIGN.in.md')).read()
open(os.path.join(V, 'DESIGN.md'), 'w').write(t.replace('DECIDED_TABLE', '\n'.join(out)).replace('SEED_TABLE', '\n'.join(seeds)))
