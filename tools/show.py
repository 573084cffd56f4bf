#!/usr/bin/env python3
"""Shows a RingMachine replay compactly: the rejected step and its operands."""
import json, sys
def hx(w): return hex(int.from_bytes(bytes(w), 'little')) if isinstance(w, list) else w
for f in sys.argv[1:]:
    d = json.load(open(f))['info']
    e = d.get('event')
    if not e: print(f, str(d)[:300]); continue
    regs = {}
    for b in d['before']:
        if 'open' in b and 'd' in b:
            regs[b['d']] = (b['kind'], b['nb'], b['op'], b.get('x'), [hx(w) for w in b['open'][0]][:6], b['sh'])
    n = d['before'][0] if d['before'] else {}
    print('==', f.split('/')[-1], n.get('proto'), n.get('k'), n.get('n'), {k: v for k, v in e.items() if k not in ('raw', 'open')})
    for x in e.get('x', []): print('   ', x, regs.get(x))
    if 'open' in e:
        for o in e['open'][:3]: print('   ->', [hx(w) for w in o][:6])
