"""assembles DESIGN.md from tools/design_head.md, the registered checks and tools/design_notes.json
(python: /opt/venv/bin/python -B tools/gen_design.py). Quick timings come from tools/timings.json,
the planted-bug table from tools/caught.json."""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from harness import registry
registry.load_all()


def j(name, d):
    p = os.path.join(HERE, 'tools', name)
    return json.load(open(p)) if os.path.exists(p) else d


props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
notes, times, caught = j('design_notes.json', {}), j('timings.json', {}), j('caught.json', {})
out = [open(os.path.join(HERE, 'tools', 'design_head.md')).read().rstrip(), '', '## Per property', '']
for p in props:
    i = p['id']
    s = registry.SPECS.get(i)
    out.append('### %s — %s' % (i, p['title']))
    out.append('')
    n = notes.get(i, {})
    if s is None:
        out += ['Not claimed: ' + n.get('na', '?'), '']
        continue
    out.append('- **Decided by**: ' + n.get('how', ''))
    out.append('- **Oracle**: ' + n.get('oracle', ''))
    out.append('- **Bounds (quick)**: ' + s.bounds['quick'])
    out.append('- **Bounds (thorough)**: ' + s.bounds['thorough'])
    if s.assumptions:
        out.append('- **Assumes**: ' + '; '.join(s.assumptions))
    if n.get('limits'):
        out.append('- **Outside / corrected**: ' + n['limits'])
    if i in times:
        out.append('- **Cost (quick)**: about %s s' % times[i])
    b = sorted(k for k, v in caught.items() if v[0] == i)
    if b:
        out.append('- **Planted bugs**: ' + ', '.join('%s (%s)' % (k, caught[k][1]) for k in b))
    out.append('')
tail = os.path.join(HERE, 'tools', 'design_tail.md')
if os.path.exists(tail):
    out.append(open(tail).read().rstrip())
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out).rstrip() + '\n')
print(len(out), 'lines')
