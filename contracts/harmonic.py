"""C28: generalised harmonic numbers, with the table of saved results kept between calls"""
from spec import *
import theory, lib
from theory import AXIOMS
k, l, j = Int('k?'), Int('l?'), Int('j?')
_n = Int('n!h'); _s = Const('s!h', R)
HARM = Function('harm', I, R, R)      # sum_{i=1}^n 1/i^s
AXIOMS[HARM] = [FA([_s], HARM(1, _s) == 1, [HARM(ival(1), _s)]), FA([_n, _s], Implies(_n >= 1, HARM(_n + 1, _s) == HARM(_n, _s) + 1 / lib.POW(ToReal(_n + 1), _s)), [HARM(_n, _s)])]
F = 'apop_generalized_harmonic::1::'
class Memo:
    def __init__(s, c, v):
        g = lambda n, kind, so: v.cell(kind, so, c.ex.glob('var:' + F + n), ival(0))
        s.v = v; s.n = g('count', 'i32', I); s.S = g('eses', 'Pf64', Ptr); s.L = g('lengths', 'Pi32', Ptr); s.P = g('precalced', 'PPf128', Ptr)
    def s_(s, a): return s.v.cell('f64', R, PO(s.S), a)
    def len_(s, a): return s.v.cell('i32', I, PO(s.L), a)
    def row(s, a): return s.v.cell('Pf128', Ptr, PO(s.P), a)
    def val(s, a, b): return s.v.cell('f128', R, PO(s.row(a)), b)
    def arr(s, p, kind, sz): return And(PI(p) == 0, Or(And(s.n == 0, isnull(p)), And(Not(isnull(p)), rootid(PO(p)) > 0, iskind(PO(p), kind), s.v.len(PO(p)) >= sz * s.n)))
    def shape(s, n): return [
        FA([k], Implies(rng(k, n), And(s.len_(k) >= 1, s.len_(k) <= IMAX, Not(isnull(s.row(k))), PI(s.row(k)) == 0, rootid(PO(s.row(k))) > 0, iskind(PO(s.row(k)), 'f128'), s.v.len(PO(s.row(k))) >= 16 * s.len_(k))), [s.row(k)]),
        FA([k, l], Implies(And(rng(k, n), rng(l, n), k != l), PO(s.row(k)) != PO(s.row(l))), [MultiPattern(s.row(k), s.row(l))])]
    def right(s, n): return FA([k, j], Implies(And(rng(k, n), rng(j, s.len_(k))), s.val(k, j) == HARM(j + 1, s.s_(k))), [s.val(k, j)])
    def wf(s): return And([s.n >= 0, s.n < 1 << 24, s.arr(s.S, 'f64', 8), s.arr(s.L, 'i32', 4), s.arr(s.P, 'Pf128', 8)] + s.shape(s.n))
@contract('apop_asst', 'apop_generalized_harmonic', 'N s', None, props=['C28'])
class _:
    def requires(c): m = Memo(c, c.old); return [('saved results: storage', m.wf()), ('saved results: right', m.right(m.n))]
    def modifies(c):
        m = Memo(c, c.old); g = lambda n: c.ex.glob('var:' + F + n)
        return [('i32', ('fresh+', [g('count'), PO(m.L)])), ('Pf64', [g('eses')]), ('Pi32', [g('lengths')]), ('PPf128', [g('precalced')]), ('f64', ('fresh+', [PO(m.S)])), ('Pf128', ('fresh+', [PO(m.P)])), ('f128', ('fresh+', [lambda o: iskind(o, 'f128')])), ('LEN', ('fresh+', [PO(m.S), PO(m.L), PO(m.P), lambda o: iskind(o, 'f128')]))]
    def ensures(c):
        m = Memo(c, c.new); return [('the sum', Implies(c.N >= 1, c.ret == HARM(c.N, c.s))), ('not a number without terms', Implies(c.N <= 0, c.ret == NANV)), ('saved results: storage', m.n <= c.N * 0 + Memo(c, c.old).n + 1), ('saved results: storage kept', And([m.n >= 0, m.arr(m.S, 'f64', 8), m.arr(m.L, 'i32', 4), m.arr(m.P, 'Pf128', 8)] + m.shape(m.n))), ('saved results: right', m.right(m.n))]
    def template(L):
        out = []
        for nm, key in L.ints():
            out.append(('%s >= 0' % nm, lambda s, x, key=key: s.vars[key] >= 0)); out.append(('%s >= 1' % nm, lambda s, x, key=key: s.vars[key] >= 1)); out.append(('%s <= N' % nm, lambda s, x, key=key: s.vars[key] <= L.N))
            out.append(('%s <= saved' % nm, lambda s, x, key=key: s.vars[key] <= Memo(L, L.view(s)).n))
            def nos(s, x, key=key): m = Memo(L, L.view(s)); return FA([k], Implies(And(k >= 0, k < s.vars[key]), m.s_(k) != L.s), [m.s_(k)])
            out.append(('s is not saved before %s' % nm, nos))
            for k2, v2 in list(L.S.vars.items()):
                if k2 == key or hasattr(v2, 'obj') or not hasattr(v2, 'sort') or v2.sort() != I or F not in k2: continue
                n2 = k2.split('::')[-1]
                def f(s, x, key=key, k2=k2):
                    m = Memo(L, L.view(s)); r = s.vars[k2]; return FA([j], Implies(And(j >= 0, j < s.vars[key]), m.val(r, j) == HARM(j + 1, L.s)), [m.val(r, j)])
                out.append(('row %s is right to %s' % (n2, nm), f))
                out.append(('%s is a row' % n2, lambda s, x, k2=k2: And(s.vars[k2] >= 0, s.vars[k2] < Memo(L, L.view(s)).n)))
                def g(s, x, k2=k2):
                    m = Memo(L, L.view(s)); r = s.vars[k2]; return FA([k, j], Implies(And(rng(k, m.n), k != r, rng(j, m.len_(k))), m.val(k, j) == HARM(j + 1, m.s_(k))), [m.val(k, j)])
                out.append(('rows other than %s are right' % n2, g))
        return out
