"""C14: compressing to ranks, expanding ranks"""
from spec import *
import theory, lib
from stats import SM, SMR
from views import okM
i, j, k, q = Int('i?'), Int('j?'), Int('k?'), Int('q?')
KV = Function('rank_of_element', I, I); KM = Function('rank_of_cell', I, I, I)      # the ranks listed
CV = Function('count_in_vector', I, I, I); CM = Function('count_in_rows', I, I, I); CR = Function('count_in_row', I, I, I, I)
UB = Int('largest_rank')
def one(b): return If(b, ival(1), ival(0))
@contract('apop_conversions', 'apop_data_rank_compress_base', 'in min_bins', 'ptr', props=['C14'],  units=['apop_data'], opts=dict(hard_s=6))
class _:
    def requires(c):
        v = c.old; p = c.args['in']; D = Data(v, p); V, M = D.V, D.M; hv, hm = Not(isnull(D.vector)), Not(isnull(D.matrix)); k_ = i
        return [('data', And(live(v, p, 72), PI(p) == 0, iskind(PO(p), 'apop_data'), null_or(D.vector, And(wfVec(v, D.vector), V.size >= 1)), null_or(D.matrix, okM(v, D.matrix)), D.rows >= 0, D.rows <= IMAX)), ('few enough', And(UB >= 0, UB < 1 << 30, c.min_bins >= 0, c.min_bins < 1 << 30, mul(M.size1, M.size2) < 1 << 30)),
                ('ranks in the vector', Implies(hv, FA([i], Implies(rng(i, V.size), And(V.get(i) == ToReal(KV(i)), KV(i) >= 0)), [V.get(i)]))), ('ranks in the matrix', Implies(hm, FA([i, j], Implies(And(rng(i, M.size1), rng(j, M.size2)), And(M.get(i, j) == ToReal(KM(i, j)), KM(i, j) >= 0)), [M.get(i, j)]))),
                ('the largest of a vector', Implies(hv, (lambda X, w: And(FA([i], Implies(rng(i, V.size), X >= V.get(i)), [V.get(i)]), rng(w, V.size), X == V.get(w)))(lib.VMAX(Select(v.map('f64'), V.o), PI(V.data), V.stride, V.size), Int('wv')))),
                ('the largest of a matrix', Implies(hm, (lambda X, w, w2: And(FA([i, j], Implies(And(rng(i, M.size1), rng(j, M.size2)), X >= M.get(i, j)), [M.get(i, j)]), rng(w, M.size1), rng(w2, M.size2), X == M.get(w, w2)))(lib.MMAX(Select(v.map('f64'), M.o), PI(M.data), M.tda, M.size1, M.size2), Int('wm'), Int('wm2')))),
                ('bounded ranks', And(Implies(hv, FA([i], Implies(rng(i, V.size), KV(i) <= UB), [KV(i)])), Implies(hm, FA([i, j], Implies(And(rng(i, M.size1), rng(j, M.size2)), KM(i, j) <= UB), [KM(i, j)])))),
                # definition of the counts
                ('def: count in the vector', And(FA([q], CV(q, 0) == 0, [CV(q, ival(0))]), FA([q, i], Implies(i >= 0, CV(q, i + 1) == CV(q, i) + one(V.get(i) == ToReal(q))), [MultiPattern(CV(q, i), V.get(i))]))),
                ('def: count in a row', And(FA([q, i], CR(q, i, 0) == 0, [CR(q, i, ival(0))]), FA([q, i, j], Implies(j >= 0, CR(q, i, j + 1) == CR(q, i, j) + one(M.get(i, j) == ToReal(q))), [MultiPattern(CR(q, i, j), M.get(i, j))]))),
                ('def: count in rows', And(FA([q], CM(q, 0) == 0, [CM(q, ival(0))]), FA([q, i], Implies(i >= 0, CM(q, i + 1) == CM(q, i) + CR(q, i, M.size2)), [MultiPattern(CM(q, i), CR(q, i, M.size2))])))]
    def ensures(c):
        v = c.old; p = c.args['in']; D = Data(v, p); N = Data(c.new, c.ret); O = N.M; hv, hm = Not(isnull(D.vector)), Not(isnull(D.matrix))
        tot = If(hm, CM(q, D.M.size1), ival(0)) + If(hv, CV(q, D.V.size), ival(0))
        return [('one row of counts', And(Not(isnull(c.ret)), Not(isnull(N.matrix)), isnull(N.vector), O.size1 == 1)), ('a count for each rank found', And(Implies(hv, FA([i], Implies(rng(i, D.V.size), KV(i) < O.size2), [KV(i)])), Implies(hm, FA([i, j], Implies(And(rng(i, D.M.size1), rng(j, D.M.size2)), KM(i, j) < O.size2), [KM(i, j)])))), ('as many as asked for', O.size2 >= c.min_bins + 1), ('no more than needed', Implies(And(O.size2 > c.min_bins + 1), Or(And(hv, ToReal(O.size2 - 1) == D.V.get(Int('wv'))), And(hm, ToReal(O.size2 - 1) == D.M.get(Int('wm'), Int('wm2')))))),
                ('each rank is counted exactly', FA([q], Implies(rng(q, O.size2), O.get(0, q) == ToReal(tot)), [O.get(ival(0), q)])), ('a new data set', And(rootid(PO(c.ret)) > v.top, rootid(O.o) > v.top))]
    def template(L):
        v = L.old; p = L.args['in']; D = Data(v, p); out = []; hv, hm = Not(isnull(D.vector)), Not(isnull(D.matrix))
        ints = [(a.split('::')[-1], a) for a, w in L.S.vars.items() if not hasattr(w, 'obj') and hasattr(w, 'sort') and w.sort() == I and '$' not in a.split('::')[-1]]
        outs = L.locals('Papop_data'); S = lambda s, x: s.vars[x[1]]; depth = lambda x: x[1].count('::')
        rows = If(hm, CM(q, D.M.size1), ival(0)); vec = If(hv, CV(q, D.V.size), ival(0))
        mvs = sorted([(n, k) for n, k in L.ints()], key=depth)
        nest = sorted([x for x in ints if x[0] not in ('min_bins', 'upper_bound') and depth(x) > 2], key=depth)
        def mk(ok, f):
            def g(s, x):
                O = Data(L.view(s), s.vars[ok]).M; return FA([q], Implies(rng(q, O.size2), O.get(ival(0), q) == ToReal(f(s))), [O.get(ival(0), q)])
            return g
        for x in mvs:
            out.append(('%s >= 0' % x[0], lambda s, _, x=x: S(s, x) >= 0))
            for lim, e in (('vector', D.V.size), ('rows', D.M.size1), ('columns', D.M.size2)): out.append(('%s <= %s' % (x[0], lim), lambda s, _, x=x, e=e: S(s, x) <= e))
        for on, ok in outs:
            if on == 'in': continue
            for x in mvs:
                out.append(('%s counts %s rows' % (on, x[0]), mk(ok, lambda s, x=x: CM(q, S(s, x))))); out.append(('%s counts the matrix and %s elements' % (on, x[0]), mk(ok, lambda s, x=x: rows + CV(q, S(s, x)))))
                out.append(('%s counts %s elements' % (on, x[0]), mk(ok, lambda s, x=x: CV(q, S(s, x))))); out.append(('%s counts the vector and %s rows' % (on, x[0]), mk(ok, lambda s, x=x: vec + CM(q, S(s, x)))))
                for y in nest:
                    if y == x: continue
                    out.append(('%s counts %s rows and %s cells' % (on, y[0], x[0]), mk(ok, lambda s, x=x, y=y: CM(q, S(s, y)) + CR(q, S(s, y), S(s, x))))); out.append(('%s counts the vector, %s rows and %s cells' % (on, y[0], x[0]), mk(ok, lambda s, x=x, y=y: vec + CM(q, S(s, y)) + CR(q, S(s, y), S(s, x)))))
        return out
EXP = Function('entries_before', I, I, I)
@contract('apop_conversions', 'apop_data_rank_expand', 'in', 'ptr', props=['C14'], units=['apop_data'], opts=dict(hard_s=6))
class _:
    def requires(c):
        v = c.old; p = c.args['in']; D = Data(v, p); M = D.M; hm = And(Not(isnull(p)), Not(isnull(D.matrix)))
        return [('data', null_or(p, And(live(v, p, 72), PI(p) == 0, iskind(PO(p), 'apop_data'), null_or(D.matrix, okM(v, D.matrix)), null_or(D.vector, wfVec(v, D.vector))))),
                ('counts', Implies(hm, And(EXP(M.size1, 0) < 1 << 30, EXP(M.size1, 0) >= 0, FA([i, j], Implies(And(rng(i, M.size1), rng(j, M.size2)), And(M.get(i, j) == ToReal(KM(i, j)), KM(i, j) >= 0)), [M.get(i, j), KM(i, j)])))),
                ('def: entries before a cell', And(EXP(0, 0) == 0, FA([i, j], Implies(j >= 0, EXP(i, j + 1) == EXP(i, j) + KM(i, j)), [MultiPattern(EXP(i, j), M.get(i, j)), MultiPattern(EXP(i, j), KM(i, j))]), FA([i], Implies(i >= 0, EXP(i + 1, 0) == EXP(i, M.size2)), [EXP(i, M.size2)]))),
                ('whole counts add up to the number of entries (induction)', Implies(hm, SM(M, M.size1, M.size2) == ToReal(EXP(M.size1, 0)))),
                ('entries before later cells (induction)', Implies(hm, And(FA([i, j], Implies(And(rng(i, M.size1), rng(j, M.size2)), And(EXP(i, j) >= 0, EXP(i, j) + KM(i, j) <= EXP(M.size1, 0))), [KM(i, j)]))))]
    def ensures(c):
        v = c.old; p = c.args['in']; D = Data(v, p); M = D.M; N = Data(c.new, c.ret); O = N.V; hm = And(Not(isnull(p)), Not(isnull(D.matrix))); n = EXP(M.size1, 0)
        return [('nothing to expand', isnull(c.ret) == Or(Not(hm), n == 0)), ('as many entries as counted', Implies(And(hm, n > 0), And(Not(isnull(N.vector)), O.size == n))),
                ('each rank as often as its count', Implies(And(hm, n > 0), FA([i, j, q], Implies(And(rng(i, M.size1), rng(j, M.size2), EXP(i, j) <= q, q < EXP(i, j) + KM(i, j)), O.get(q) == ToReal(j)), [MultiPattern(KM(i, j), O.get(q))]))), ]
    def template(L):
        v = L.old; p = L.args['in']; M = Data(v, p).M; out = []
        outs = L.locals('Papop_data')
        ints = [(a.split('::')[-1], a) for a, w in L.S.vars.items() if not hasattr(w, 'obj') and hasattr(w, 'sort') and w.sort() == I and '$' not in a.split('::')[-1] and '::apop_data_rank_' in a.replace('#','::')]
        def filled(on, ok, cond):
            def g(s, x):
                O = Data(L.view(s), s.vars[ok]).V; return FA([i, j, q], Implies(And(rng(i, M.size1), rng(j, M.size2), EXP(i, j) <= q, q < EXP(i, j) + KM(i, j), cond(s)), O.get(q) == ToReal(j)), [MultiPattern(KM(i, j), O.get(q))])
            return g
        depth = lambda key: key.count('::')
        ints.sort(key=lambda x: depth(x[1])); lo = min(depth(k) for _, k in ints)
        nest = [x for x in ints if depth(x[1]) > lo]; flat = [x for x in ints if depth(x[1]) == lo]
        S = lambda s, x: s.vars[x[1]]
        if not nest or len(nest) > 3: return out
        for x in nest: out.append(('%s >= 0' % x[0], lambda s, _, x=x: S(s, x) >= 0))
        A = nest[0]; out.append(('%s <= rows' % A[0], lambda s, _: S(s, A) <= M.size1))
        if len(nest) > 1: B = nest[1]; out.append(('%s <= columns' % B[0], lambda s, _: S(s, B) <= M.size2))
        if len(nest) > 2: C = nest[2]; out.append(('%s at most the count of the cell' % C[0], lambda s, _: S(s, C) <= KM(S(s, A), S(s, B))))
        for x in flat:
            if len(nest) == 1: out.append(('%s entries before row %s' % (x[0], A[0]), lambda s, _, x=x: S(s, x) == EXP(S(s, A), 0)))
            if len(nest) == 2: out.append(('%s entries before cell %s %s' % (x[0], A[0], B[0]), lambda s, _, x=x: S(s, x) == EXP(S(s, A), S(s, B))))
            if len(nest) == 3: out.append(('%s entries before cell %s %s and %s' % (x[0], A[0], B[0], C[0]), lambda s, _, x=x: S(s, x) == EXP(S(s, A), S(s, B)) + S(s, C)))
        for x in flat:
            def done(cond, x=x): return lambda s, _: FA([i, j], Implies(And(rng(i, M.size1), rng(j, M.size2), cond(s)), EXP(i, j) + KM(i, j) <= S(s, x)), [MultiPattern(EXP(i, j), KM(i, j)), EXP(i, j)])
            if len(nest) == 1: out.append(('%s past the entries of %s rows' % (x[0], A[0]), done(lambda s: i < S(s, A))))
            if len(nest) == 2: out.append(('%s past the entries of %s rows and %s columns' % (x[0], A[0], B[0]), done(lambda s: Or(i < S(s, A), And(i == S(s, A), j < S(s, B))))))
            if len(nest) == 3: out.append(('%s past the entries of %s rows and %s columns and %s' % (x[0], A[0], B[0], C[0]), done(lambda s: Or(i < S(s, A), And(i == S(s, A), j < S(s, B))))))
        for on, ok in outs:
            if on == 'in': continue
            if len(nest) == 1: out.append(('%s holds the first %s rows' % (on, A[0]), filled(on, ok, lambda s: i < S(s, A))))
            if len(nest) == 2: out.append(('%s holds %s rows and %s columns' % (on, A[0], B[0]), filled(on, ok, lambda s: Or(i < S(s, A), And(i == S(s, A), j < S(s, B))))))
            if len(nest) == 3: out.append(('%s holds %s rows, %s columns and %s of the next' % (on, A[0], B[0], C[0]), filled(on, ok, lambda s: Or(i < S(s, A), And(i == S(s, A), j < S(s, B)), And(i == S(s, A), j == S(s, B), q < EXP(i, j) + S(s, C))))))
        return out
