"""Discharge obligations with z3 / cvc5 (external processes); nothing is remembered between runs:
every obligation of the current source is solved on every run."""
import hashlib, os, subprocess, tempfile, time, re
from concurrent.futures import ThreadPoolExecutor
from z3 import *
import theory

Z3BIN = 'z3-new'
_HDR = []
_TXT = {}      # expression id -> (expression, text, declarations)
def header():
    if not _HDR:
        s = Solver(); s.add(theory.rootid(Const('hp!', theory.Obj)) == 0, Const('hq!', theory.Ptr) == theory.NULL, Const('hs!', theory.Str) == Const('hs2!', theory.Str))
        _HDR.append('\n'.join(l for l in s.to_smt2().split('(declare-fun')[0].splitlines() if not l.startswith(';')) + '\n')
    return _HDR[0]
def fact_text(f):
    i = f.get_id()
    r = _TXT.get(i)
    if r is None:
        r = _TXT[i] = (f, '(assert %s)' % f.sexpr(), theory.funcs_of(f))
    return r
def smt2(ex, ob):
    fs = list(ob.facts) + [Not(skolem(ob.goal))]
    T = [fact_text(f) for f in fs]; D = set().union(*[t[2] for t in T])
    bg = ex.background(D, True)
    B = [fact_text(f) for f in bg]; D = D.union(*[t[2] for t in B])
    bg2 = ex.background(D, True)
    B = [fact_text(f) for f in bg2]; D = D.union(*[t[2] for t in B])
    return header() + '\n'.join(sorted(d.sexpr() for d in D)) + '\n' + '\n'.join(t[1] for t in B + T) + '\n(check-sat)\n'

def run(cmd, txt, timeout):
    t0 = time.time()
    try:
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        try:
            p = subprocess.run(cmd + [f.name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout + 5)
            out = p.stdout
        except subprocess.TimeoutExpired:
            out = 'timeout'
    finally:
        try: os.unlink(f.name)
        except Exception: pass
    return out, time.time() - t0

BACK = (('z3', lambda t: [Z3BIN, '-T:%d' % t, 'smt.mbqi=false', 'auto_config=false']),
        ('z3-4.8', lambda t: ['z3', '-T:%d' % t, 'smt.mbqi=false', 'auto_config=false']),
        ('cvc5', lambda t: ['cvc5', '--tlimit=%d' % (t * 1000), '--lang=smt2']),
        ('z3-mbqi', lambda t: [Z3BIN, '-T:%d' % t]),
        ('z3-rel0', lambda t: [Z3BIN, '-T:%d' % t, 'smt.mbqi=false', 'auto_config=false', 'smt.relevancy=0', 'smt.random_seed=11']))
def solve(txt, timeout, retry=True, backs=BACK):
    """-> (status, backend, secs, note); status: proved | failed (a solver has a model, or instantiation
    saturated without a contradiction) | undecided (every solver ran out of time).
    One quick attempt first; what is left goes to all back ends at once, the first acceptance decides."""
    name, cmd = backs[0]
    first = min(3, timeout)
    out, total = run(cmd(first), txt, first)
    r = (out.strip().splitlines() or [''])[0]
    if r == 'unsat': return 'proved', name, total, ''
    notes = ['%s: %s (%.1fs)' % (name, (r or 'no answer')[:160], total)]
    if not retry and len(backs) == 1 and timeout <= first:
        return ('failed' if r in ('unknown', 'sat') and total < first * 0.8 else 'undecided'), '', total, notes[0]
    saturated = r in ('unknown', 'sat') and total < first * 0.8
    for tmo in ((timeout, timeout * 4) if retry else (timeout,)):
        bs = [x for x in backs if not (saturated and x[0] == 'z3')]
        t0 = time.time(); res = portfolio(bs, txt, tmo); total += time.time() - t0
        for name, r, secs in res:
            if r == 'unsat': return 'proved', name, total, ''
            notes.append('%s: %s (%.1fs)' % (name, (r or 'no answer')[:160], secs))
        for name, r, secs in res:
            if r == 'sat' and name in ('cvc5', 'z3-mbqi'): return 'failed', name, total, '; '.join(notes)
            if r in ('unknown', 'sat') and name == 'z3' and secs < tmo * 0.8: saturated = True
    return ('failed' if saturated else 'undecided'), '', total, '; '.join(notes)
def portfolio(bs, txt, tmo):
    """run back ends side by side; stop at the first 'unsat' (or definite 'sat')"""
    d = tempfile.mkdtemp(prefix='vp'); ps = []
    t0 = time.time()
    try:
        for name, cmd in bs:
            f = os.path.join(d, name + '.smt2')
            with open(f, 'w') as o: o.write(('(set-logic ALL)\n' + txt) if name == 'cvc5' else txt)
            ps.append([name, subprocess.Popen(cmd(tmo) + [f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), None, 0])
        while any(p[2] is None for p in ps) and time.time() - t0 < tmo + 5:
            for p in ps:
                if p[2] is None and p[1].poll() is not None:
                    p[2] = (p[1].stdout.read().strip().splitlines() or [''])[0]; p[3] = time.time() - t0
            if any(p[2] == 'unsat' or (p[2] == 'sat' and p[0] in ('cvc5', 'z3-mbqi')) for p in ps): break
            time.sleep(0.02)
        return [(p[0], p[2] or 'timeout', p[3] or time.time() - t0) for p in ps]
    finally:
        for p in ps:
            if p[1].poll() is None: p[1].kill()
            try: p[1].wait(5)
            except Exception: pass
            p[1].stdout.close()
        import shutil; shutil.rmtree(d, ignore_errors=True)

def split(g, depth=0):
    """conjuncts of a goal, looking under quantifiers and implications; a universally quantified goal is proved
    at fresh constants (skolemised by hand; the depth keeps nested binders apart)"""
    if is_and(g): return [y for x in g.children() for y in split(x, depth)]
    if is_implies(g): return [Implies(g.arg(0), p) for p in split(g.arg(1), depth)]
    if is_or(g) and g.num_args() == 2 and (is_and(g.arg(1)) or is_quantifier(g.arg(1))):
        return [Or(g.arg(0), p) for p in split(g.arg(1), depth)]
    if is_quantifier(g) and g.is_forall():
        vs = [Const('%s^%d_%d' % (g.var_name(k), depth, k), g.var_sort(k)) for k in range(g.num_vars())]
        return split(substitute_vars(g.body(), *reversed(vs)), depth + 1)
    return [g]
def skolem(g):
    ps = split(g)
    return And(ps) if len(ps) > 1 else ps[0]

def discharge(ex, obligs, timeout=10, jobs=8, retry=True, stop=None, backs=BACK):
    if backs is not BACK: return discharge1(ex, obligs, timeout, jobs, retry, stop, backs)
    many = [o for o in obligs if len(split(o.goal)) > 1]
    n = discharge1(ex, many, 3, jobs, False, stop, BACK[:1])
    for o in many:
        if o.status != 'proved': o.status = None
    mid = {id(o) for o in many}
    n += discharge1(ex, [o for o in obligs if id(o) not in mid], timeout, jobs, retry, stop, backs)
    bad = [o for o in obligs if o.status != 'proved' and o.kind != 'vacuity']
    parts = []
    for o in bad:
        ps = split(o.goal)
        if len(ps) > 1:
            import sym
            parts.append((o, [sym.Oblig(o.label + '#%d' % k, o.facts, p, o.kind, o.line) for k, p in enumerate(ps)]))
    if parts:
        n += discharge1(ex, [x for o, ps in parts for x in ps], timeout, jobs, retry, stop, backs)
        for o, ps in parts:
            if all(x.status == 'proved' for x in ps): o.status, o.backend, o.secs = 'proved', ps[0].backend, sum(x.secs for x in ps)
            else:
                f = [x for x in ps if x.status != 'proved']
                o.info = 'part %s: %s' % (str(f[0].goal)[:160].replace('\n', ' '), f[0].info)
                o.status = 'failed' if any(x.status == 'failed' for x in f) else 'undecided'
    return n
def discharge1(ex, obligs, timeout=10, jobs=8, retry=True, stop=None, backs=BACK):
    todo = {}
    for ob in obligs:
        if ob.status: continue
        txt = smt2(ex, ob)
        h = hashlib.sha256(txt.encode()).hexdigest()
        todo.setdefault(h, (txt, []))[1].append(ob)
    nfail = [0]
    def work(it):
        h, (txt, obs) = it
        if nfail[0] >= 3 or (stop and time.time() > stop):
            r = ('undecided', '', 0.0, 'not attempted')
        else: r = solve(txt, timeout, retry, backs)
        if r[0] == 'failed' and backs is BACK: nfail[0] += 1
        for k, ob in enumerate(obs):
            ob.status, ob.backend, ob.secs, ob.info = r[0], r[1], (r[2] if k == 0 else 0.0), r[3]
        return r
    with ThreadPoolExecutor(jobs) as p:
        list(p.map(work, todo.items()))
    return len(todo)
