from spec import *
from names import okNames
from copying import numeric, partsep, vecsame, matsame
import theory
i, j, k, l = Int('i?'), Int('j?'), Int('k?'), Int('l?')
fr = lambda c, p: rootid(PO(p)) > c.old.top
def transposed(b, a): return And(b.size1 == a.size2, b.size2 == a.size1, FA([i, j], Implies(And(rng(i, a.size2), rng(j, a.size1)), b.get(i, j) == a.get(j, i)), [b.get(i, j)]))
def samenames(b, a, k1, k2):
    """b's kind-k1 list is what a's kind-k2 list was"""
    return And(b.ct(k1) == a.ct(k2), b.arr(k1) == a.arr(k2), b.hash(k1) == a.hash(k2))
@contract('apop_data', 'apop_data_transpose_base', 'in transpose_text inplace', 'ptr', props=['C07'], opts=dict(unreach=['apop_text_alloc']))
class _:
    def requires(c):
        p = c.args['in']; D = Data(c.old, p)
        return [('data', numeric(c.old, p)), ('a matrix of numbers', Not(isnull(D.matrix))), ('no text to transpose', Or(D.rows == 0, D.cols == 0, c.transpose_text != ord('y'))),
                ('names', If(c.inplace == ord('y'), null_or(D.names, And(okNames(c.old, D.names), D.N.textct == 0)), And(Not(isnull(D.names)), okNames(c.old, D.names, IMAX // 2 - 1), D.N.textct == 0))), ('separate parts', partsep(D, NULLO))]
    def modifies(c):
        D = Data(c.old, c.args['in']); y = c.inplace == ord('y'); g = lambda o: If(y, o, NULLO)
        nm = [('apop_name.' + f, [g(PO(D.names))]) for f in ('row', 'col', 'rowct', 'colct', 'rowhash', 'colhash')]
        return [('f64', ('fresh+', [g(D.M.o)])), ('apop_data.matrix', ('fresh+', [g(PO(c.args['in']))])), ('LEN', ('fresh+', [g(PO(D.matrix)), g(D.M.o), g(PO(D.M.block))]))] + [(a, ('fresh+', b)) for a, b in nm]
    def ensures(c):
        p = c.args['in']; D, N = Data(c.old, p), Data(c.new, c.ret); y = c.inplace == ord('y')
        a = D.N; b = Names(c.new, D.names)
        return [('in place: the same data set', Implies(y, c.ret == p)), ('a copy: a new data set', Implies(Not(y), And(fr(c, c.ret), fr(c, N.matrix), rootid(N.M.o) > c.old.top))),
                ('numbers transposed', And(Not(isnull(N.matrix)), transposed(N.M, D.M))),
                ('in place: row names become column names', Implies(And(y, Not(isnull(D.names))), And(samenames(b, a, 'c', 'r')))), ('in place: column names become row names', Implies(And(y, Not(isnull(D.names))), And(samenames(b, a, 'r', 'c')))),
                ('copy: row names are the column names', Implies(Not(y), And(N.N.ct('r') == a.ct('c'), FA([i], Implies(rng(i, a.ct('c')), N.N.str('r', i) == a.str('c', i)), [N.N.ent('r', i)])))),
                ('copy: column names are the row names', Implies(Not(y), And(N.N.ct('c') == a.ct('r'), FA([i], Implies(rng(i, a.ct('r')), N.N.str('c', i) == a.str('r', i)), [N.N.ent('c', i)])))),
                ('in place: names stay well formed', Implies(And(y, Not(isnull(D.names))), okNames(c.new, D.names))),
                ('in place: other parts', Implies(y, And(N.vector == D.vector, N.weights == D.weights, N.names == D.names, N.more == D.more, N.text == D.text)))]
wrap('apop_data_transpose', transpose_text='y', inplace='y')

# ---- removing columns.  kept(A, n): how many of the first n marks in A are zero
_A = Const('A!k', ArraySort(I, I)); _n, _m2 = Ints('n!k m!k')
kept = Function('kept', ArraySort(I, I), I, I)
theory.AXIOMS[kept] = [FA([_A], kept(_A, 0) == 0, [kept(_A, ival(0))]),
    FA([_A, _n], Implies(_n >= 0, kept(_A, _n + 1) == kept(_A, _n) + If(Select(_A, _n) == 0, ival(1), ival(0))), [MultiPattern(kept(_A, _n), Select(_A, _n))]),
    # consequences, by induction on n
    FA([_A, _n], Implies(_n >= 0, And(kept(_A, _n) >= 0, kept(_A, _n) <= _n)), [kept(_A, _n)]),
    FA([_A, _n, _m2], Implies(And(_n >= 0, _n < _m2), And(kept(_A, _n) + If(Select(_A, _n) == 0, ival(1), ival(0)) <= kept(_A, _m2), kept(_A, _m2) <= kept(_A, _n) + If(Select(_A, _n) == 0, ival(1), ival(0)) + (_m2 - _n - 1))), [MultiPattern(kept(_A, _n), kept(_A, _m2))])]
def marks(v, p): return Select(v.map('i32'), PO(p))
def keptcols(X, m, A):
    """X has exactly the columns of m marked zero in A, in order"""
    return And(X.size1 == m.size1, X.size2 == kept(A, m.size2), FA([i, j], Implies(And(rng(i, m.size1), rng(j, m.size2), Select(A, j) == 0), X.get(i, kept(A, j)) == m.get(i, j)), [MultiPattern(m.get(i, j), kept(A, j)), MultiPattern(m.get(i, j), Select(A, j))]))
def dropreq(c, q, d):
    m = Mat(c.old, q)
    return [('matrix', null_or(q, And(wfMat(c.old, q), m.size1 >= 1, m.size2 >= 1))), ('marks', null_or(q, And(Not(isnull(d)), PI(d) == 0, iskind(PO(d), 'i32'), c.old.len(PO(d)) >= 4 * m.size2, rootid(PO(d)) > 0)))]
@contract('apop_data', 'apop_matrix_rm_columns', 'in drop', 'ptr', props=['C06'])
class _:
    def requires(c): return dropreq(c, c.args['in'], c.drop)
    def ensures(c):
        p = c.args['in']; m, X = Mat(c.old, p), Mat(c.new, c.ret); A = marks(c.old, c.drop); n = kept(A, m.size2)
        return [('nothing left, nothing returned', isnull(c.ret) == Or(isnull(p), n == 0)), ('the unmarked columns, in order', Implies(Not(isnull(c.ret)), keptcols(X, m, A))), ('a new matrix', Implies(Not(isnull(c.ret)), And(fr(c, c.ret), rootid(X.o) > c.old.top, wfMat(c.new, c.ret))))]
    def template(L):
        p = L.args['in']; m = Mat(L.old, p); A = marks(L.old, L.drop); out = []
        for nm, key in L.ints():
            out.append(('%s >= 0' % nm, lambda s, x, key=key: s.vars[key] >= 0)); out.append(('%s <= columns' % nm, lambda s, x, key=key: s.vars[key] <= m.size2))
            for n2, k2 in L.ints():
                if k2 == key: continue
                out.append(('%s columns kept before %s' % (n2, nm), lambda s, x, key=key, k2=k2: s.vars[k2] == kept(A, s.vars[key])))
                for on, ok_ in L.locals('Pgsl_matrix'):
                    out.append(('%s has the columns before %s' % (on, nm), lambda s, x, key=key, ok_=ok_: (lambda X: FA([i, j], Implies(And(rng(i, m.size1), j >= 0, j < s.vars[key], Select(A, j) == 0), X.get(i, kept(A, j)) == m.get(i, j)), [MultiPattern(m.get(i, j), kept(A, j)), MultiPattern(m.get(i, j), Select(A, j))]))(Mat(L.view(s), s.vars[ok_]))))
        return out
@contract('apop_data', 'apop_data_rm_columns', 'd drop', None, props=['C06'])
class _:
    def requires(c):
        D = Data(c.old, c.d)
        return [('data', And(live(c.old, c.d, 72), PI(c.d) == 0, iskind(PO(c.d), 'apop_data'))), ('no names', isnull(D.names))] + dropreq(c, D.matrix, c.drop)
    def modifies(c):
        D = Data(c.old, c.d); return [('apop_data.matrix', [PO(c.d)]), ('f64', 'fresh'), ('LEN', ('fresh+', [PO(D.matrix), D.M.o, PO(D.M.block)]))]
    def ensures(c):
        D, N = Data(c.old, c.d), Data(c.new, c.d); A = marks(c.old, c.drop)
        return [('no matrix when every column goes', isnull(N.matrix) == Or(isnull(D.matrix), kept(A, D.M.size2) == 0)), ('the unmarked columns, in order', Implies(Not(isnull(N.matrix)), keptcols(N.M, D.M, A))),
                ('other parts', And(N.vector == D.vector, N.weights == D.weights, N.more == D.more, N.text == D.text, N.error == D.error))]

# ---- removing rows marked in a list: numeric parts of equal height, no names, no text
def heights(D, h):
    return And(Implies(Not(isnull(D.vector)), D.V.size == h), Implies(Not(isnull(D.matrix)), D.M.size1 == h), Implies(Not(isnull(D.weights)), D.W.size == h))
def hv(D): return If(Not(isnull(D.vector)), D.V.size, If(Not(isnull(D.matrix)), D.M.size1, ival(0)))
def keptrows(N, D, A, lim=None):
    """N's parts hold exactly the rows of D marked zero, in order (rows before lim)"""
    g = lambda q, n: And(rng(q, n if lim is None else lim), Select(A, q) == 0)
    out = []
    for nm, X, Y, nn in (('vector', N.V, D.V, Not(isnull(D.vector))), ('weights', N.W, D.W, Not(isnull(D.weights)))):
        out.append((nm, Implies(nn, FA([i], Implies(g(i, Y.size), X.get(kept(A, i)) == Y.get(i)), [Y.get(i)]))))
    out.append(('matrix', Implies(Not(isnull(D.matrix)), FA([i, j], Implies(And(g(i, D.M.size1), rng(j, D.M.size2)), N.M.get(kept(A, i), j) == D.M.get(i, j)), [D.M.get(i, j)]))))
    return out
# ---- splitting: numeric parts
def sub_rows(X, Y, lo, n): return And(X.size == n, FA([i], Implies(rng(i, n), X.get(i) == Y.get(lo + i)), [X.get(i)]))
def subm(X, Y, r0, n, c0, m): return And(X.size1 == n, X.size2 == m, FA([i, j], Implies(And(rng(i, n), rng(j, m)), X.get(i, j) == Y.get(r0 + i, c0 + j)), [X.get(i, j)]))
@contract('apop_data', 'apop_data_split', 'in splitpoint r_or_c', 'ptr', props=['C04'], opts=dict(eager=True, unreach=['apop_text_alloc', 'apop_name_add', 'variadic_apop_name_stack', 'apop_name_stack_base']))
class _:
    def requires(c):
        p = c.args['in']; D = Data(c.old, p)
        return [('data', null_or(p, And(numeric(c.old, p), isnull(D.names), D.rows == 0, D.cols == 0, isnull(D.more), heights(D, hv(D)), hv(D) >= 1)))]
    def ensures(c):
        p = c.args['in']; D = Data(c.old, p); h = hv(D); e = lambda k_: c.new.cell('Papop_data', Ptr, PO(c.ret), ival(k_)); X, Y = Data(c.new, e(0)), Data(c.new, e(1)); s = c.splitpoint
        row, col = Or(c.r_or_c == ord('r'), c.r_or_c == ord('R')), Or(c.r_or_c == ord('c'), c.r_or_c == ord('C')); ok = Not(isnull(p)); n2 = D.M.size2
        V_, M_, W_ = Not(isnull(D.vector)), Not(isnull(D.matrix)), Not(isnull(D.weights))
        inr = And(ok, row, s > 0, s < h); inc = And(ok, col, M_, s >= 0, s < n2)
        def parts(cond, lab, Z, v, m, w):
            f = lambda a, q: (Not(isnull(q)) == a)
            return [(lab + ': the parts it should have', Implies(cond, And(Not(isnull(Z.p)), f(v, Z.vector), f(m, Z.matrix), f(w, Z.weights), fr(c, Z.p))))]
        out = [('no data, or neither rows nor columns: nothing', Implies(Or(Not(ok), And(Not(row), Not(col))), And(isnull(e(0)), isnull(e(1))))),
               ('rows: all in the second', Implies(And(ok, row, s <= 0), And(isnull(e(0)), Not(isnull(e(1)))))), ('rows: all in the first', Implies(And(ok, row, s > 0, s >= h), And(isnull(e(1)), Not(isnull(e(0)))))),
               ('columns: all in the second', Implies(And(ok, col, s <= -1), And(isnull(e(0)), Not(isnull(e(1)))))), ('columns: all in the first', Implies(And(ok, col, M_, s >= n2), And(isnull(e(1)), Not(isnull(e(0))))))]
        for lab, cond, Z in (('second', And(ok, Or(And(row, s <= 0), And(col, s <= -1))), Y), ('first', And(ok, Or(And(row, s > 0, s >= h), And(col, M_, s > -1, s >= n2))), X)):
            out += parts(cond, 'complete %s' % lab, Z, V_, M_, W_)
            out += [('complete %s: vector' % lab, Implies(And(cond, V_), sub_rows(Z.V, D.V, ival(0), h))), ('complete %s: matrix' % lab, Implies(And(cond, M_), subm(Z.M, D.M, ival(0), h, ival(0), n2))), ('complete %s: weights' % lab, Implies(And(cond, W_), sub_rows(Z.W, D.W, ival(0), D.W.size)))]
        for lab, Z, lo, n in (('first rows', X, ival(0), s), ('last rows', Y, s, h - s)):
            out += parts(inr, lab, Z, V_, M_, W_)
            out += [(lab + ': vector', Implies(And(inr, V_), sub_rows(Z.V, D.V, lo, n))), (lab + ': matrix', Implies(And(inr, M_), subm(Z.M, D.M, lo, n, ival(0), n2))), (lab + ': weights', Implies(And(inr, W_), sub_rows(Z.W, D.W, lo, n)))]
        out += parts(inc, 'first columns', X, V_, s > 0, W_) + parts(inc, 'last columns', Y, BoolVal(False), BoolVal(True), W_)
        out += [('first columns: vector', Implies(And(inc, V_), sub_rows(X.V, D.V, ival(0), h))), ('first columns: matrix', Implies(And(inc, s > 0), subm(X.M, D.M, ival(0), h, ival(0), s))), ('last columns: matrix', Implies(inc, subm(Y.M, D.M, ival(0), h, s, n2 - s))),
                ('columns: weights', Implies(And(inc, W_), And(sub_rows(X.W, D.W, ival(0), h), sub_rows(Y.W, D.W, ival(0), h))))]
        return out
