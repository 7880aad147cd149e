"""dbg.py fn [label-substring]: run one function, show kept loop invariants and the facts of the failing obligations"""
import sys, os, proof, spec, stage, sym, lib, time
import prove as PV
from z3 import *
proof.load_all(); sd = stage.stage(); fn = sys.argv[1]; c = spec.CONTRACTS[fn]
prog = sym.Program(lambda u: stage.goto_json(sd, u))
for u in c.get('units', []): prog.add(u)
ex = sym.Ex(prog, dict(spec.CONTRACTS), lib, c.get('opts'))
t=time.time()
try: ex.verify(c.get('csym', fn), c, c['unit'])
except Exception:
    import traceback; traceback.print_exc(); print('line', ex.line); print('inlined', ex.inlined)
print('exec', time.time()-t, ex.stats)
for l, h in ex.newhints.items():
    print('inv', l)
    for x in h: print('     ', x)
if len(sys.argv) > 2:
    n = 0
    for o in ex.obligs:
        if sys.argv[2] in o.label and (len(sys.argv) < 4 or sys.argv[3] == str(o.line)) and o.status is None:
            PV.discharge(ex, [o], timeout=5, retry=False)
            if o.status != 'proved':
                print('-----', o.label, o.line, o.status); print('trace', [(l, b) for f, l, b in o.trace])
                for f in o.facts: print('   F', simplify(f) if not is_quantifier(f) else f)
                print('   G', o.goal); n += 1
                if n >= int(os.environ.get('N', '1')): break
