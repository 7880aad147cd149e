"""Prove a set of contracted functions (and every contract they rely on) on /repo's current source."""
import sys, os, time, traceback, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'contracts'))
import stage, ir, sym, lib, prove, spec, importlib
from z3 import BoolVal

def load_all():
    d = os.path.join(os.path.dirname(HERE), 'contracts')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and not f.startswith('_'): importlib.import_module(f[:-3])

# which candidate loop invariants were inductive last time: tried first, to save the search (they are proved again)
HF = os.path.join(os.path.dirname(HERE), 'contracts', 'hints.json')
HINTS = __import__('json').load(open(HF)) if os.path.exists(HF) and not os.environ.get('NOHINTS') else {}
def prove_fn(fn, sd, timeout, jobs, deadline):
    if fn in HINTS:
        # candidates restricted to the remembered ones; if that is not enough (the code changed), search them all
        r = prove_fn1(fn, sd, timeout, jobs, deadline, HINTS[fn])
        if r['status'] == 'proved' or time.time() > deadline - 60: return r
        r2 = prove_fn1(fn, sd, timeout, jobs, deadline, {})
        return r2 if r2['status'] != 'undecided' or r['status'] == 'undecided' else r
    return prove_fn1(fn, sd, timeout, jobs, deadline, {})
def prove_fn1(fn, sd, timeout, jobs, deadline, hints):
    """-> summary dict (picklable)"""
    t0 = time.time()
    c = spec.CONTRACTS[fn]
    r = dict(fn=fn, unit=c['unit'], status='undecided', obligations=0, discharged=0, failed=[], undecided=[], backends={}, solver_s=0.0,
             trusted=[], contracts=[], inlined=[], assumptions=[], returns=0, note='', wall_s=0)
    if c.get('trusted'):
        r['status'] = 'assumed'; return r
    try:
        prog = sym.Program(lambda u: stage.goto_json(sd, u))
        for u in c.get('units', []): prog.add(u)
        ex = sym.Ex(prog, dict(spec.CONTRACTS), lib, c.get('opts'))
        ex.hints = dict(hints)
        ex.deadline = min(deadline, time.time() + c.get('time', 240))
        try:
            ex.verify(c.get('csym', fn), c, c['unit'])
        finally:
            r['trusted'] = sorted(ex.used_trusted); r['contracts'] = sorted(ex.used_contracts); r['inlined'] = sorted(ex.inlined - {fn})
            r['assumptions'] = sorted(ex.assumptions); r['newhints'] = ex.newhints
        r['exec_s'] = round(time.time() - t0, 2)
        r['returns'] = ex.nret
        prove.discharge(ex, ex.obligs, timeout=c.get('timeout', timeout), jobs=jobs, stop=deadline)
        # vacuity: the precondition, and at least one returning path, must not be contradictory
        live = 0
        vac = [sym.Oblig('%s/vacuity/precondition' % fn, ex.precond, BoolVal(False), 'vacuity', '')] + \
              [sym.Oblig('%s/vacuity/ret%d' % (fn, n), list(s.facts), BoolVal(False), 'vacuity', '') for n, s in enumerate(ex.endstates[:6])]
        prove.discharge(ex, vac, timeout=2, jobs=jobs, retry=False, backs=prove.BACK[:1])
        prebad = vac[0].status == 'proved'
        live = sum(1 for v in vac[1:] if v.status != 'proved')
        r['obligations'] = len(ex.obligs)
        for o in ex.obligs:
            if o.status == 'proved':
                r['discharged'] += 1; r['backends'][o.backend] = r['backends'].get(o.backend, 0) + 1
            elif o.status == 'failed': r['failed'].append((o.label, str(o.line), o.info))
            else: r['undecided'].append((o.label, str(o.line), o.info))
            r['solver_s'] += o.secs
            if os.environ.get('SLOW') and o.secs > 4: print('SLOW %.1f %s %s %s' % (o.secs, o.backend, o.label, o.line), flush=True)
        r['solver_s'] = round(r['solver_s'], 2)
        kinds = {}
        for o in ex.obligs: kinds[o.kind] = kinds.get(o.kind, 0) + 1
        r['kinds'] = kinds
        if prebad or (ex.nret and not live): r['note'] = 'vacuous: contradictory precondition or no feasible returning path'; r['status'] = 'undecided'
        elif not ex.obligs: r['note'] = 'no obligation generated'
        elif r['failed']: r['status'] = 'failed'
        elif r['undecided']: r['note'] = 'solver time limit on %d obligations' % len(r['undecided'])
        else: r['status'] = 'proved'
    except (ir.Unsupported, sym.Give) as e:
        r['note'] = '%s: %s (line %s)' % (type(e).__name__, e, getattr(locals().get('ex'), 'line', '?'))
    except Exception as e:
        r['note'] = 'engine error %s: %s (line %s) %s' % (type(e).__name__, e, getattr(locals().get('ex'), 'line', '?'), traceback.format_exc()[-600:] if os.environ.get('VDEBUG') else '')
    r['wall_s'] = round(time.time() - t0, 2)
    return r

def _job(a): return prove_fn(*a)

def prove_set(fns, sd, timeout=10, deadline=None, workers=6, log=None, abort=None, only=False, onstart=None):
    load_all()
    deadline = deadline or time.time() + int(os.environ.get('TO', '800'))
    todo, seen, out = list(fns), set(fns), {}
    # generate the GOTO dumps up front (shared by the workers)
    ctx = mp.get_context('fork')
    with ctx.Pool(workers) as pool:
        if onstart: onstart()   # only now may the caller start threads: forking beside a running thread can deadlock the workers
        pend = {}
        def submit(f): pend[f] = pool.apply_async(_job, ((f, sd, timeout, 2, deadline),))
        for f in todo: submit(f)
        while pend:
            for f in list(pend):
                a = pend[f]
                try: r = a.get(0.05)
                except mp.TimeoutError:
                    stopped = abort and abort()
                    if time.time() > deadline + 40 or stopped:
                        out[f] = dict(fn=f, unit=spec.CONTRACTS[f]['unit'], status='undecided', obligations=0, discharged=0, failed=[], undecided=[], backends={}, solver_s=0.0, trusted=[], contracts=[], inlined=[], assumptions=[], returns=0, note='not finished: a failing input was already found' if stopped else 'time limit', wall_s=0)
                        del pend[f]
                    continue
                del pend[f]; out[f] = r
                if log: log(r)
                for g in r['contracts']:
                    if not only and g not in seen and g in spec.CONTRACTS:
                        seen.add(g); submit(g)
        pool.terminate()
    return out
def show(r, verbose=False):
    print('%-34s %-10s %3d/%3d obl, ret %d, exec %.1fs solve %.1fs  inl %s contracts %s %s' % (r['fn'], r['status'], r['discharged'], r['obligations'], r['returns'], r.get('exec_s', 0), r['solver_s'], ','.join(r['inlined']), ','.join(r['contracts']), r['note']), flush=True)
    for k in ('failed', 'undecided'):
        for l, ln, info in r[k]: print('    ', k, l, 'line', ln, info)
if __name__ == '__main__':
    load_all()
    fns = sys.argv[1:] or sorted(spec.CONTRACTS)
    sd = stage.stage()
    t = time.time()
    for u in sorted({spec.CONTRACTS[f]['unit'] for f in fns}): stage.goto_json(sd, u)
    out = prove_set(fns, sd, timeout=int(os.environ.get('T', '10')), log=show)
    if os.environ.get('SAVEHINTS'):
        H = __import__('json').load(open(HF)) if os.path.exists(HF) else {}
        for f, r in out.items():
            if r['status'] == 'proved' and r.get('newhints'): H[f] = r['newhints']
        __import__('json').dump(H, open(HF, 'w'), indent=0, sort_keys=True)
    print('total', round(time.time() - t, 1), {s: sum(1 for r in out.values() if r['status'] == s) for s in {r['status'] for r in out.values()}})
