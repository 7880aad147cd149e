#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's current source.

 1. stage /repo's sources and extract the GOTO program of each unit (vc/stage.py)
 2. symbolic execution + contracts -> proof obligations; z3/cvc5 must accept every one (vc/proof.py)
 3. the native driver (native/<id>.c, real library, AddressSanitizer) replays the property's executable
    oracle on generated inputs: it supplies the failing input for a failed obligation and is the bounded
    stand-in for functions outside the verifier's reach
Exit 0: held.  Exit 1: a VIOLATION line."""
import sys, os, json, time, tempfile, threading, re, shutil
V = os.path.dirname(os.path.abspath(__file__))
if 'z3' not in sys.modules:
    try: import z3
    except ImportError: os.execvp('python3-vt', ['python3-vt'] + sys.argv)
sys.path.insert(0, os.path.join(V, 'vc'))
import stage, nativeb, proof, spec, props

GENERAL = ['The extraction drops OpenMP pragmas: loops marked parallel are proved with sequential semantics',
 'double arithmetic is treated as real arithmetic with an uninterpreted isnan (no rounding, overflow or NaN propagation)',
 'size_t/int sums and products are treated as mathematical integers (no wrap-around; size_t values below 2^63); other conversions and size_t subtraction are exact',
 'malloc/calloc/realloc/gsl_*_alloc succeed; the C type discipline holds (a cell written as one type is read as that type)',
 'libc and GSL behave as modelled in vc/lib.py (trusted_base lists those used in this run)',
 'notices written through apop_opts.log_file have no other effect; apop_opts.stop_on_warning does not stop the program',
 "the verifier itself (vc/sym.py, vc/lib.py), goto-cc's parse of the staged source, z3 and cvc5"]

def known(pid):
    out = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) driver=(\S+) case=(\S+) (.*)', l)
            if m and m.group(1) == pid: out.append(m.groups()[1:])
    return out

def main():
    pid = sys.argv[1]; t0 = time.time()
    tier = os.environ.get('VERIF_TIER') or ('thorough' if '--thorough' in sys.argv else 'quick')
    seed = int(os.environ.get('VERIF_SEED') or 1)
    P = props.PROPS[pid]
    thorough = tier == 'thorough'
    budget = 3000 if thorough else 400
    sd = stage.stage()
    res = {}
    # ---- native run, in parallel with the proofs
    def native():
        try:
            n = dict(runs=[], fail=None, evals=0, distinct=0, samples=[], err=None, findings=[])
            res['native'] = n
            drivers = P['driver'] if isinstance(P.get('driver'), (list, tuple)) else [P['driver']] if P.get('driver') else []
            for d in drivers:
                exe = nativeb.build_driver(sd, d)
                for rep in range(P.get('reps', 1) * (3 if thorough else 1)):
                    args = ['--seed', str(seed + 1000 * rep), '--scale', str(P.get('scale', 1) * (8 if thorough else 1))]
                    run1(n, d, exe, args, 1500 if thorough else 420)
                    if n['fail']:
                        tfail[0] = time.time(); return
                for (drv, case, what) in known(pid):
                    if drv != d: continue
                    t = tempfile.mkdtemp(prefix='vp'); 
                    try: rc, o, e = nativeb.run_driver(exe, ['--case', case, '--seed', '1'], 120, t)
                    finally: shutil.rmtree(t, ignore_errors=True)
                    n['findings'].append((case, what, rc))
        except nativeb.BuildError as e: res['native']['err'] = 'build: ' + str(e)
        except Exception as e: res['native']['err'] = '%s: %s' % (type(e).__name__, e)
    def run1(n, d, exe, args, timeout):
        t = tempfile.mkdtemp(prefix='vp')
        try: rc, o, e = nativeb.run_driver(exe, args, timeout, t)
        finally: shutil.rmtree(t, ignore_errors=True)
        n['runs'].append(dict(driver=d, args=args, rc=rc))
        m = re.search(r'^STATS evaluations=(\d+) distinct=(\d+)', o, re.M)
        if m: n['evals'] += int(m.group(1)); n['distinct'] += int(m.group(2))
        n['samples'] += re.findall(r'^SAMPLE (.*)', o, re.M)[:6]
        f = re.search(r'^FAIL (.*)', o, re.M)
        if f or rc not in (0, 'timeout'):
            n['fail'] = dict(driver=d, args=args, rc=rc, line=f.group(1) if f else 'the driver died without a message', stderr=e[-4000:])
        elif rc == 'timeout': n['err'] = 'driver time limit (inputs done so far passed)'
        elif not m: n['fail'] = dict(driver=d, args=args, rc=rc, line='driver ended without its closing line', stderr=e[-4000:])
    th = threading.Thread(target=native); 
    proofs = {}; perr = None; tfail = [0]
    try:
        proof.load_all()
        for u in sorted({spec.CONTRACTS[f]['unit'] for f in P['fns']}):
            try: stage.goto_json(sd, u)
            except Exception as e: perr = str(e)[:500]
        try: nativeb.build_lib(sd)
        except nativeb.BuildError: pass
        proofs = proof.prove_set(P['fns'], sd, timeout=20 if thorough else 10, deadline=t0 + budget, workers=7, onstart=th.start, abort=lambda: tfail[0] and time.time() > tfail[0] + 25)
    except Exception as e:
        perr = '%s: %s' % (type(e).__name__, e)
    if th.ident is None: th.start()
    th.join()
    nat = res.get('native', {})
    # a proof failure is reported only if it survives a second, separate attempt with more time per obligation
    again = [f for f, r in proofs.items() if r['status'] == 'failed']
    if again and not nat.get('fail') and not perr:
        try:
            second = proof.prove_set(again, sd, timeout=10, deadline=max(time.time() + 60, t0 + budget + 150), workers=3, only=True)
            for f in again:
                if second[f]['status'] != 'failed': proofs[f] = second[f]
        except Exception as e: perr = 'second attempt: %s: %s' % (type(e).__name__, e)
    viol = []
    rdir = os.path.join(V, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    failed = {f: r for f, r in proofs.items() if r['status'] == 'failed'}
    und = {f: r for f, r in proofs.items() if r['status'] == 'undecided'}
    if nat.get('fail'):
        f = nat['fail']; rp = os.path.join(rdir, pid + '.txt')
        with open(rp, 'w') as o:
            o.write('property %s violated on the real library\n%s\n\n' % (pid, f['line']))
            o.write('replay: cd /verif/vc && python3-vt drv.py %s %s\n' % (f['driver'], ' '.join(f['args'])))
            m = re.match(r'case=(\S+) k=(\d+)', f['line'])
            if m: o.write('        cd /verif/vc && python3-vt drv.py %s --case %s --k %s --seed %s\n' % (f['driver'], m.group(1), m.group(2), f['args'][1]))
            for fn, r in failed.items():
                for l, ln, info in r['failed']: o.write('failed obligation: %s (line %s of the staged %s.c) %s\n' % (l, ln, r['unit'], info))
            o.write('\n' + f['stderr'])
        viol.append('VIOLATION property=%s replay=%s' % (pid, rp))
    elif failed:
        rp = os.path.join(rdir, pid + '.txt')
        with open(rp, 'w') as o:
            o.write('property %s: proof obligations not accepted on the current source; the bounded search found no failing input\n' % pid)
            for fn, r in failed.items():
                for l, ln, info in r['failed']: o.write('failed obligation: %s (line %s of the staged %s.c) solver: %s\n' % (l, ln, r['unit'], info))
        viol.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
    # ---- evidence
    obl = sum(r['obligations'] for r in proofs.values()); dis = sum(r['discharged'] for r in proofs.values())
    back = {}
    for r in proofs.values():
        for k, n in r['backends'].items(): back[k] = back.get(k, 0) + n
    trusted = sorted({x for r in proofs.values() for x in r['trusted']})
    assumed = sorted(f for f, r in proofs.items() if r['status'] == 'assumed')
    proved = sorted(f for f, r in proofs.items() if r['status'] == 'proved')
    cov = dict(obligations=obl, discharged=dis, checker_cmd='cd /verif/vc && python3-vt proof.py ' + ' '.join(P['fns']),
               trusted_base=['libc/GSL model: ' + x for x in trusted] + ['assumed contract (not proved here): ' + x for x in assumed] + ['goto-cc 6.11 front end', 'vc/sym.py verification-condition generator', 'z3-new, cvc5 1.1.2'],
               functions_under_contract={f: dict(status=r['status'], obligations=r['obligations'], discharged=r['discharged'], kinds=r.get('kinds', {}), backends=r['backends'], returns=r['returns'],
                                                 inlined=r['inlined'], callee_contracts=r['contracts'], solver_s=r['solver_s'], wall_s=r['wall_s'], note=r['note']) for f, r in sorted(proofs.items())},
               backends=back, solver_s=round(sum(r['solver_s'] for r in proofs.values()), 2),
               undecided=['%s: %s' % (f, r['note'] or '; '.join(x[0] for x in r['undecided'][:3])) for f, r in sorted(und.items())],
               bounded_only=P.get('bounded', []),
               evaluations=nat.get('evals', 0), distinct_nontrivial=nat.get('distinct', 0),
               rule='native driver: seeded random inputs per case (native/%s.c); distinct = different printed input of a case' % (P.get('driver') or '-'), samples=nat.get('samples', [])[:8])
    if P.get('level', 'proof') != 'proof':
        cov['explanation'] = 'The contracts of %s are proved (%d of %d obligations this run); the property as a whole is decided by the native driver only: %d evaluations, %d distinct inputs. %s' % (', '.join(P['fns']), dis, obl, nat.get('evals', 0), nat.get('distinct', 0), '; '.join(P.get('assume', [])))
    if nat.get('err'): cov['native_note'] = nat['err']
    if perr: cov['proof_note'] = perr
    ev = dict(property=pid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level=P.get('level', 'proof'), coverage=cov, assumptions=GENERAL + sorted({x for r in proofs.values() for x in r['assumptions']}) + P.get('assume', []),
              wall_s=round(time.time() - t0, 1), violations=len(viol))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as o: json.dump(ev, o, indent=1)
    # ---- report
    for f, r in sorted(proofs.items()): print('%-32s %-9s %d/%d obligations, %.1f s solver %s' % (f, r['status'], r['discharged'], r['obligations'], r['solver_s'], r['note'][:160]))
    print('native: %d evaluations, %d distinct%s' % (nat.get('evals', 0), nat.get('distinct', 0), ' (%s)' % nat['err'][:300] if nat.get('err') else ''))
    for case, what, rc in nat.get('findings', []):
        if rc == 0: print('note: listed finding %s no longer fails' % case)
        else: print('KNOWN-FINDING: property=%s %s' % (pid, what))
    if viol and nat.get('fail'): print(nat['fail']['line'][:1500])
    for f, r in failed.items():
        for l, ln, info in r['failed'][:5]: print('failed obligation:', l, 'line', ln)
    if perr: print('proof engine:', perr[:300])
    for v in viol: print(v)
    sys.exit(1 if viol else 0)
main()
