"""Views (C34): macros of apop.h, verified through one-line functions that only invoke the macro (native/shims/vp_views.c).
The elements of a view are pinned by where its data starts, its stride/tda and its size: element i of the view is then the
parent's cell (row+i)*stride, by distributivity."""
from spec import *
from names import okNames
from lib import *
i, j = Int('i?'), Int('j?')
def okM(v, m): return And(wfMat(v, m), Mat(v, m).size1 >= 1, Mat(v, m).size2 >= 1)
def okD(v, p):
    D = Data(v, p)
    return And(live(v, p, 72), PI(p) == 0, iskind(PO(p), 'apop_data'), null_or(D.vector, wfVec(v, D.vector)), null_or(D.matrix, okM(v, D.matrix)), null_or(D.weights, wfVec(v, D.weights)),
               null_or(D.names, okNames(v, D.names)), D.rows >= 0, D.rows <= IMAX, D.cols >= 0, D.cols <= IMAX, Implies(D.rows > 0, And(Not(isnull(D.text)), PI(D.text) == 0, v.len(PO(D.text)) >= 8 * D.rows)))
def outok(c, kind): return And(live(c.old, c.out, 8), PI(c.out) == 0, iskind(PO(c.out), kind), rootid(PO(c.out)) > 0)
def res(c, kind): return c.new.cell(kind, Ptr, PO(c.out), ival(0))
def vecview(c, q, p, at, n):
    """vector q (new) is p's elements at..at+n-1; absent exactly when p has no such elements"""
    V, P = Vec(c.new, q), Vec(c.old, p); no = Or(isnull(p), P.size < at + n)
    return [('absent only when the parent has no such rows', isnull(q) == no), ('as many elements as asked', Implies(Not(no), V.size == n)), ('starting at the row asked for', Implies(Not(no), And(V.o == P.o, PI(V.data) == PI(P.data) + mul(at, P.stride)))), ('same stride', Implies(Not(no), V.stride == P.stride))]
def matview(c, q, p, r, cc, nr, nc):
    V, P = Mat(c.new, q), Mat(c.old, p); no = Or(isnull(p), r < 0, cc < 0, P.size1 < r + nr, P.size2 < cc + nc)
    return [('absent only when the parent has no such cells', isnull(q) == no), ('as many rows and columns as asked', Implies(Not(no), And(V.size1 == nr, V.size2 == nc))), ('starting at the cell asked for', Implies(Not(no), And(V.o == P.o, PI(V.data) == PI(P.data) + mul(r, P.tda) + cc))), ('same row length', Implies(Not(no), V.tda == P.tda))]
def L(pre, xs): return [(pre + ': ' + a, b) for a, b in xs]
def G(g, xs): return [(a, Implies(g, b)) for a, b in xs]
def sub(c, V, D, k, at, n):
    """names of kind k in the view are the parent's names at..at+n-1 (as many as there are)"""
    a, b = D.N, V.N; left = If(a.ct(k) > at, a.ct(k) - at, ival(0)); want = If(left < n, left, n)
    return [('as many names as rows', b.ct(k) == want), ('names of the rows viewed', Implies(want > 0, And(PO(b.arr(k)) == PO(a.arr(k)), PI(b.arr(k)) == at))), ('hashes of the rows viewed', Implies(And(want > 0, Not(isnull(a.hash(k)))), And(PO(b.hash(k)) == PO(a.hash(k)), PI(b.hash(k)) == at)))]
def whole(V, D, k): a, b = D.N, V.N; return [('all names', And(b.ct(k) == a.ct(k), Implies(a.ct(k) > 0, And(b.arr(k) == a.arr(k), b.hash(k) == a.hash(k)))))]
def rows(fn, params, n=None):
    class _:
        def requires(c):
            N = ival(n) if n else c.len
            return [('data', null_or(c.d, okD(c.old, c.d))), ('a place for the result', outok(c, 'Papop_data')), ('sizes', And(N >= 1, c.row + N <= IMAX))]
        def modifies(c): return [('Papop_data', [PO(c.out)])]
        def ensures(c):
            N = ival(n) if n else c.len
            q = res(c, 'Papop_data'); D, V = Data(c.old, c.d), Data(c.new, q); no = Or(isnull(c.d), c.row < 0); hn = Not(isnull(D.names))
            have = D.rows >= c.row + N
            return [('no view of nothing', isnull(q) == no)] + G(Not(no), L('vector', vecview(c, V.vector, D.vector, c.row, N)) + L('matrix', matview(c, V.matrix, D.matrix, c.row, ival(0), N, D.M.size2)) + L('weights', vecview(c, V.weights, D.weights, c.row, N)) +
                [('text: as many rows as asked', Implies(Or(have, D.rows == 0), And(V.rows == If(have, N, ival(0)), V.cols == D.cols))), ('text: the rows viewed', Implies(And(have, V.rows > 0), And(PO(V.text) == PO(D.text), PI(V.text) == c.row))),
                 ('names with names', isnull(V.names) == isnull(D.names)), ('no error', V.error == 0), ('one page', isnull(V.more))] + G(hn, L('row names', sub(c, V, D, 'r', c.row, N)) + L('column names', whole(V, D, 'c')) + L('text names', whole(V, D, 't')) + [('title and vector name', And(V.N.title == D.N.title, V.N.vector == D.N.vector))]))
    contract('vp_views', fn, params, None, props=['C34'])(_)
rows('vp_rs', 'd row len out'); rows('vp_r', 'd row out', 1)
def cols(fn, params, n=None):
    class _:
        def requires(c):
            N = ival(n) if n else c.len
            return [('data', null_or(c.d, okD(c.old, c.d))), ('a place for the result', outok(c, 'Papop_data')), ('sizes', And(N >= 1, c.col >= 0, c.col + N <= IMAX))]
        def modifies(c): return [('Papop_data', [PO(c.out)])]
        def ensures(c):
            N = ival(n) if n else c.len
            q = res(c, 'Papop_data'); D, V = Data(c.old, c.d), Data(c.new, q); no = Or(isnull(c.d), isnull(D.matrix), D.M.size2 < c.col + N); hn = Not(isnull(D.names))
            return [('a view exactly when the columns exist', isnull(q) == no)] + G(Not(no), L('matrix', matview(c, V.matrix, D.matrix, ival(0), c.col, D.M.size1, N)) +
                [('the same weights', V.weights == D.weights), ('no vector, no text', And(isnull(V.vector), V.rows == 0)), ('names with names', isnull(V.names) == isnull(D.names)), ('no error', V.error == 0), ('one page', isnull(V.more))] + G(hn, L('column names', sub(c, V, D, 'c', c.col, N)) + L('row names', whole(V, D, 'r')) + [('no text names', Or(V.N.textct == 0, Not(isnull(V.N.text)))), ('title', V.N.title == D.N.title)]))
    contract('vp_views', fn, params, None, props=['C34'])(_)
cols('vp_cs', 'd col len out'); cols('vp_c', 'd col out', 1)
def vec(fn, at, isrow, asdata):
    class _:
        def requires(c): return [('data', null_or(c.d, okD(c.old, c.d)) if asdata else null_or(c.m, okM(c.old, c.m))), ('a place for the result', outok(c, 'Pgsl_vector'))]
        def modifies(c): return [('Pgsl_vector', [PO(c.out)])]
        def ensures(c):
            q = res(c, 'Pgsl_vector'); k = getattr(c, at); m = Data(c.old, c.d).matrix if asdata else c.m; M = Mat(c.old, m); V = Vec(c.new, q)
            no = Or(isnull(m), k < 0, k >= (M.size1 if isrow else M.size2)); ok = And(Not(no), V.p == q)
            if asdata: no = Or(isnull(c.d), no)
            dv = And(Not(isnull(c.d)), k == -1, q == Data(c.old, c.d).vector) if asdata and not isrow else None
            if not asdata and not isrow: no = Or(no, k == -1)
            out = [('a view exactly when there is such a row or column', (isnull(q) == no) if dv is None else Implies(k != -1, isnull(q) == no)), ('size', Implies(Not(no), V.size == (M.size2 if isrow else M.size1))), ('starting at its first element', Implies(Not(no), And(V.o == M.o, PI(V.data) == PI(M.data) + (mul(k, M.tda) if isrow else k)))), ('stride', Implies(Not(no), V.stride == (ival(1) if isrow else M.tda)))]
            if dv is not None: out.append(('column -1 is the vector', Implies(And(Not(isnull(c.d)), k == -1), q == Data(c.old, c.d).vector)))
            return out
    contract('vp_views', fn, ('d ' if asdata else 'm ') + at + ' out', None, props=['C34'])(_)
vec('vp_rv', 'row', True, True); vec('vp_cv', 'col', False, True); vec('vp_mrv', 'row', True, False); vec('vp_mcv', 'col', False, False)
@contract('vp_views', 'vp_subm', 'm srow scol nrows ncols out', None, props=['C34'])
class _:
    def requires(c): return [('matrix', null_or(c.m, okM(c.old, c.m))), ('a place for the result', outok(c, 'Pgsl_matrix')), ('sizes', And(c.srow >= 0, c.scol >= 0, c.nrows >= 1, c.ncols >= 1, c.srow + c.nrows <= IMAX, c.scol + c.ncols <= IMAX))]
    def modifies(c): return [('Pgsl_matrix', [PO(c.out)])]
    def ensures(c): return matview(c, res(c, 'Pgsl_matrix'), c.m, c.srow, c.scol, c.nrows, c.ncols)
