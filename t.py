import sys, importlib, time
sys.path.insert(0, '/verif')
sys.setrecursionlimit(20000)
from vf.ast import *
from vf import runner
m = importlib.import_module('contracts.' + sys.argv[1])
sel = sys.argv[2] if len(sys.argv) > 2 else None
asts = {}
def ast_of(c):
    if c.tu not in asts:
        t = time.time(); d, cmd = dump_tu(c.tu, getattr(m, 'FLAGS', ())); asts[c.tu] = AST(d, cmd); print('ast', c.tu, time.time() - t)
    return asts[c.tu]
cons = [c for c in m.CONTRACTS if sel is None or sel in c.name]
t = time.time()
gens = runner.generate(cons, ast_of)
print('gen', time.time() - t)
runner.discharge(gens, budget=float(sys.argv[3]) if len(sys.argv) > 3 else 60)
for g in gens:
    bad = [o for o in g['obls'] if o['result'] != 'unsat']
    quiet = not bad and g['status'] == 'ok' and not any(all(x == 'unsat' for x in v) for v in g['cover_res'].values())
    if quiet: continue
    print(g['name'], g['where'], g['status'], g.get('error', ''), 'obls', len(g['obls']), 'trivial', g['trivial'], 'paths', g['paths'], 'bad', len(bad), 'maxt %.1f' % max([o['time'] for o in g['obls']] + [0]), 'gen %.1f' % g['gen_s'])
    print('   covers', {k: sorted(set(v)) for k, v in g['cover_res'].items()})
    nb = globals().setdefault('NB', [0]); nb[0] += 1
    if nb[0] > 6: continue
    for o in bad[:8]: print('   BAD', o['result'], o['kind'], o['name'], 'line', o['line'], 'path', o['path'], [x[:60] for x in o['tries']], {k: v for k, v in (o['model'] or {}).items() if len(v) < 40 and '?' not in k and '_k' not in k})
    for o in sorted(g['obls'], key=lambda o: -o['time'])[:2]:
        if o['time'] > 3: print('   slow %.1f %s %s' % (o['time'], o['name'], o['tries']))
print('OBL', sum(len(g['obls']) + g['trivial'] for g in gens), 'max', max([o['time'] for g in gens for o in g['obls']] + [0]), 'slow', [(g['name'], o['name'], round(o['time'], 1), o['backend']) for g in gens for o in g['obls'] if o['time'] > 5][:8])
print('total', time.time() - t)

import os
if os.environ.get('DUMP'):
    k = 0
    for g in gens:
        for o in g['obls']:
            if o['result'] != 'unsat': open('/tmp/dump%d.smt2' % k, 'w').write('; %s %s\n' % (g['name'], o['name']) + o['smt']); k += 1
