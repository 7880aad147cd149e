import sys, time, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts'))
import stage, ir, sym, lib, prove, spec
import importlib, traceback
def load_all():
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py'): importlib.import_module(f[:-3])
if __name__ == '__main__':
    load_all()
    sd = stage.stage()
    fns = sys.argv[1:]
    verbose = '-v' in fns; fns = [f for f in fns if f != '-v']
    for fn in fns:
        c = spec.CONTRACTS[fn]
        prog = sym.Program(lambda u: stage.goto_json(sd, u))
        t0 = time.time()
        for u in c.get('units', []): prog.add(u)
        contracts = {k: v for k, v in spec.CONTRACTS.items()}
        ex = sym.Ex(prog, contracts, lib, c.get('opts'))
        try:
            ex.verify(fn, c, c['unit'])
        except Exception:
            traceback.print_exc()
            print('line', getattr(ex, 'line', None)); continue
        t1 = time.time()
        n = prove.discharge(ex, ex.obligs, timeout=int(os.environ.get('T', '10')))
        t2 = time.time()
        bad = [o for o in ex.obligs if o.status != 'proved']
        print('%s: %d obligations, %d not proved; returns %d; inlined %s; trusted %s; exec %.1fs solve %.1fs; %s' % (fn, len(ex.obligs), len(bad), ex.nret, sorted(ex.inlined), sorted(ex.used_trusted), t1 - t0, t2 - t1, ex.stats))
        for o in (bad if not verbose else ex.obligs):
            print('   ', o.status, o.label, 'line', o.line, o.info[:200])
        for l, h in ex.newhints.items(): print('   inv', l, h)
