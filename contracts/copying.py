from spec import *
from access import wfData, pages, pageix
from names import okNames
import theory
i, j, k, l = Int('i?'), Int('j?'), Int('k?'), Int('l?')
def disj(v, *ps):
    """vectors/matrices/plain arrays (given by block object) do not share storage"""
    out = []
    for a in range(len(ps)):
        for b in range(a): out.append(ps[a] != ps[b])
    return And(out)
def vecsame(a, b, n=None): return FA([i], Implies(rng(i, n if n is not None else b.size), a.get(i) == b.get(i)), [a.get(i)])
def matsame(a, b): return FA([i, j], Implies(And(rng(i, b.size1), rng(j, b.size2)), a.get(i, j) == b.get(i, j)), [a.get(i, j)])
@contract('apop_conversions', 'apop_matrix_copy', 'in', 'ptr', props=['C01'])
class _:
    def requires(c): return [('in wf', null_or(c.args['in'], And(wfMat(c.old, c.args['in']), Mat(c.old, c.args['in']).size1 >= 1, Mat(c.old, c.args['in']).size2 >= 1)))]
    def ensures(c):
        a, r = Mat(c.old, c.args['in']), Mat(c.new, c.ret)
        return [('null iff null', isnull(c.ret) == isnull(a.p)), ('size', Implies(a.nonnull, And(r.size1 == a.size1, r.size2 == a.size2))), ('content', Implies(a.nonnull, matsame(r, a))),
                ('fresh', Implies(a.nonnull, And(rootid(PO(c.ret)) > c.old.top, rootid(r.o) > c.old.top)))]
MP = lambda lab: lab.startswith('main page')
MAINPAGE = {f: MP for f in ('variadic_apop_data_set', 'variadic_apop_data_get', 'variadic_apop_data_ptr')}
def arrd(v, p, n): return And(Not(isnull(p)), PI(p) == 0, v.len(PO(p)) >= 8 * n, iskind(PO(p), 'f64'), rootid(PO(p)) > 0)
@contract('apop_conversions', 'apop_vector_fill_base', 'in ap', 'ptr', props=['C12'])
class _:
    def requires(c):
        p = c.args['in']; x = Vec(c.old, p)
        return [('vector', null_or(p, And(wfVec(c.old, p), arrd(c.old, c.ap, x.size), PO(c.ap) != x.o)))]
    def modifies(c): return [('f64', [If(isnull(c.args['in']), NULLO, Vec(c.old, c.args['in']).o)])]
    def ensures(c):
        p = c.args['in']; x = Vec(c.new, p); q = x.stride
        return [('returned', Or(c.ret == p, And(isnull(p), isnull(c.ret)))), ('each element', Implies(Not(isnull(p)), FA([i], Implies(rng(i, x.size), x.get(i) == c.old.cell('f64', R, PO(c.ap), i)), [x.get(i)]))),
                ('nothing between the elements', Implies(Not(isnull(p)), FA([k], Implies(Not(And(rng(theory.vidx_i(c.old.pi(x.data), x.stride, k), x.size), x.cell(theory.vidx_i(c.old.pi(x.data), x.stride, k)) == k)),
                    c.new.cell('f64', R, x.o, k) == c.old.cell('f64', R, x.o, k)), [c.new.cell('f64', R, x.o, k)])))]
    def template(L):
        p = L.args['in']; a = Vec(L.old, p); out = []
        for nm, key in L.ints():
            out.append(('%s >= 0' % nm, lambda s, x, key=key: s.vars[key] >= 0))
            def T(s, x, key=key):
                b = Vec(L.view(s), p); return FA([i], Implies(And(i >= 0, i < s.vars[key]), b.get(i) == L.old.cell('f64', R, PO(L.ap), i)), [b.get(i)])
            out.append(('filled to %s' % nm, T))
            def U(s, x, key=key):
                w = L.view(s); q = theory.vidx_i(L.old.pi(a.data), a.stride, k)
                return FA([k], Implies(Not(And(q >= 0, q < s.vars[key], a.cell(q) == k)), w.cell('f64', R, a.o, k) == L.old.cell('f64', R, a.o, k)), [w.cell('f64', R, a.o, k)])
            out.append(('only to %s' % nm, U))
        return out
def partsep(D, o):
    """the numeric parts of a data set and the vector block o are separate storage"""
    vo, mo, wo = D.V.o, D.M.o, D.W.o; hv, hm, hw = Not(isnull(D.vector)), Not(isnull(D.matrix)), Not(isnull(D.weights))
    return And(Implies(And(hv, hm), vo != mo), Implies(And(hv, hw), vo != wo), Implies(And(hm, hw), mo != wo), Implies(hv, vo != o), Implies(hm, mo != o), Implies(hw, wo != o))
def packed(c, v, D, src, X):
    """vector X (in view v) lists the numbers of data set D (read in view src): vector, matrix by rows, weights"""
    hv, hm, hw = Not(isnull(D.vector)), Not(isnull(D.matrix)), Not(isnull(D.weights))
    vs = If(hv, D.V.size, ival(0)); ms = If(hm, mul(D.M.size1, D.M.size2), ival(0)); ws = If(hw, D.W.size, ival(0))
    S = lambda o, q: src.cell('f64', R, o, q)
    return vs, ms, ws, [('vector first', Implies(hv, FA([i], Implies(rng(i, vs), X.get(i) == D.V.get(i)), [D.V.get(i)]))),
            ('then the matrix, row by row', Implies(hm, FA([i, j], Implies(And(rng(i, D.M.size1), rng(j, D.M.size2)), X.get(vs + (mul(i, D.M.size2) + j)) == D.M.get(i, j)), [D.M.get(i, j)]))),
            ('then the weights', Implies(hw, FA([i], Implies(rng(i, ws), X.get(vs + ms + i) == D.W.get(i)), [D.W.get(i)])))]
def psize(D): 
    hv, hm, hw = Not(isnull(D.vector)), Not(isnull(D.matrix)), Not(isnull(D.weights))
    return If(hv, D.V.size, ival(0)) + If(hm, mul(D.M.size1, D.M.size2), ival(0)) + If(hw, D.W.size, ival(0))
def okParts(v, p):
    """a data set whose numeric parts are well formed and not empty"""
    D = Data(v, p)
    return And(live(v, p, 72), PI(p) == 0, iskind(PO(p), 'apop_data'), null_or(D.vector, And(wfVec(v, D.vector), D.V.size >= 1)), null_or(D.matrix, And(wfMat(v, D.matrix), D.M.size1 >= 1, D.M.size2 >= 1)), null_or(D.weights, And(wfVec(v, D.weights), D.W.size >= 1)),
               psize(D) <= IMAX, mul(D.M.size1, D.M.size2) <= IMAX)
@contract('apop_conversions', 'sizecount', 'in all_pp use_info_pp', 'u64', props=['C12'])
class _:
    def requires(c): p = c.args['in']; return [('data', null_or(p, okParts(c.old, p))), ('one page', Or(isnull(p), c.all_pp == 0, isnull(Data(c.old, p).more)))]
    def ensures(c): p = c.args['in']; return [('count', c.ret == If(isnull(p), ival(0), psize(Data(c.old, p))))]
    def template(L):
        p = L.args['in']; out = []
        for nm, key in L.modptrs():
            for n2, k2 in L.ints():
                out.append(('%s counts up to %s' % (n2, nm), lambda s, x, key=key, k2=k2: Or(And(s.vars[key] == p, s.vars[k2] == 0), And(isnull(s.vars[key]), Not(isnull(p)), s.vars[k2] == psize(Data(L.old, p))))))
        return out
def packens(c, src, X, D):
    return packed(c, c.new, D, src, X)[3]
def rowstmpl(L, D, get, kinds):
    pass
@contract('apop_conversions', 'apop_data_pack_base', 'in out more_pages use_info_pages', 'ptr', props=['C12'], opts=dict(lemmas=['mul_mono2'], hard_s=4))
class _:
    def requires(c):
        p = c.args['in']; D = Data(c.old, p); o = Vec(c.old, c.out)
        return [('data', okParts(c.old, p)), ('one page', Or(isnull(D.more), And(c.more_pages != ord('y'), c.more_pages != ord('Y')))), ('separate parts', partsep(D, NULLO)), ('not both a vector and a matrix', Or(isnull(D.vector), isnull(D.matrix))),
                ('room', null_or(c.out, And(wfVec(c.old, c.out), o.size == psize(D), o.stride == 1, partsep(D, o.o))))]
    def modifies(c): return [('f64', ('fresh+', [If(isnull(c.out), NULLO, Vec(c.old, c.out).o)]))] + [(f, 'fresh') for f in ('gsl_vector.size', 'gsl_vector.stride', 'gsl_vector.data', 'gsl_vector.block', 'gsl_vector.owner', 'LEN')]
    def ensures(c):
        p = c.args['in']; D = Data(c.old, p); X = Vec(c.new, c.ret); n = psize(D)
        return [('nothing to pack', Implies(n == 0, isnull(c.ret))), ('the given vector', Implies(And(n > 0, Not(isnull(c.out))), c.ret == c.out)), ('a new vector', Implies(And(n > 0, isnull(c.out)), And(rootid(PO(c.ret)) > c.old.top, rootid(X.o) > c.old.top))),
                ('as many elements', Implies(n > 0, X.size == n))] + [(l_, Implies(n > 0, f)) for l_, f in packens(c, c.old, X, D)]
    def template(L):
        p = L.args['in']; D = Data(L.old, p); out = []; vs = If(isnull(D.vector), ival(0), D.V.size); cc = D.M.size2
        for on, ok_ in L.locals('Pgsl_vector'):
            def fr_(s, x, ok_=ok_):
                o = Const('o?', Obj); M, M0 = L.view(s).map('f64'), L.old.map('f64')
                return FA([o], Implies(And(rootid(o) <= L.old.top.term() if hasattr(L.old.top, 'term') else rootid(o) <= L.old.top, o != Vec(L.view(s), s.vars[ok_]).o), M[o] == M0[o]), [M[o]])
            out.append(('only %s is written' % on, fr_))
            out.append(('%s is contiguous' % on, lambda s, x, ok_=ok_: Vec(L.view(s), s.vars[ok_]).stride == 1)); out.append(('%s starts its block' % on, lambda s, x, ok_=ok_: PI(Vec(L.view(s), s.vars[ok_]).data) == 0))
            out.append(('%s is as given' % on, lambda s, x, ok_=ok_: (lambda Z, Y: And(Z.stride == Y.stride, Z.data == Y.data, Z.size == Y.size))(Vec(L.view(s), s.vars[ok_]), Vec(L.old, L.out))))
            out.append(('vector is in %s' % on, lambda s, x, ok_=ok_: Implies(Not(isnull(D.vector)), (lambda X: FA([i], Implies(rng(i, vs), X.get(i) == D.V.get(i)), [D.V.get(i)]))(Vec(L.view(s), s.vars[ok_])))))
            for nm, key in L.locals('u64'):
                out.append(('rows before %s are in %s' % (nm, on), lambda s, x, key=key, ok_=ok_: (lambda X: FA([i, j], Implies(And(i >= 0, i < s.vars[key], rng(j, cc)), X.get(vs + (mul(i, cc) + j)) == D.M.get(i, j)), [D.M.get(i, j)]))(Vec(L.view(s), s.vars[ok_]))))
        for nm, key in L.ints():
            out.insert(0, ('rows end before row %s' % nm, lambda s, x, key=key: FA([i], Implies(And(i >= 0, i < s.vars[key]), mul(i, cc) + cc <= mul(s.vars[key], cc)), [mul(i, cc)])))
            out.append(('%s >= 0' % nm, lambda s, x, key=key: s.vars[key] >= 0)); out.append(('%s <= rows' % nm, lambda s, x, key=key: s.vars[key] <= D.M.size1))
            for n2, k2 in L.ints():
                if k2 != key and (n2, k2) not in L.locals('u64'): out.append(('%s = vs + %s rows' % (n2, nm), lambda s, x, key=key, k2=k2: s.vars[k2] == vs + mul(s.vars[key], cc)))
            out.append(('%s rows fit' % nm, lambda s, x, key=key: Implies(And(s.vars[key] >= 0, s.vars[key] < D.M.size1), mul(s.vars[key], cc) + cc <= mul(D.M.size1, cc))))
        return out
@contract('apop_conversions', 'apop_data_unpack_base', 'in d use_info_pages', None, props=['C12'], opts=dict(lemmas=['mul_mono2']))
class _:
    def requires(c):
        p = c.args['d']; D = Data(c.old, p); x = Vec(c.old, c.args['in'])
        return [('data', okParts(c.old, p)), ('separate parts', partsep(D, x.o)), ('source', And(wfVec(c.old, c.args['in']), x.size >= psize(D))), ('one page', Or(isnull(D.more), x.size == psize(D)))]
    def modifies(c):
        D = Data(c.old, c.args['d']); return [('f64', [D.V.o, D.M.o, D.W.o])]
    def ensures(c): return packens(c, c.old, Vec(c.old, c.args['in']), Data(c.new, c.args['d']))
    def template(L):
        p = L.args['d']; D = Data(L.old, p); X = Vec(L.old, L.args['in']); out = []; vs = If(isnull(D.vector), ival(0), D.V.size); cc = D.M.size2
        out.append(('vector is in place', lambda s, x: Implies(Not(isnull(D.vector)), (lambda Z: FA([i], Implies(rng(i, vs), Z.get(i) == X.get(i)), [Z.get(i)]))(Data(L.view(s), p).V))))
        out.append(('rest untouched', lambda s, x: And(L.view(s).map('f64')[X.o] == L.old.map('f64')[X.o])))
        for nm, key in L.ints():
            out.append(('rows before %s are in place' % nm, lambda s, x, key=key: (lambda Z: FA([i, j], Implies(And(i >= 0, i < s.vars[key], rng(j, cc)), Z.get(i, j) == X.get(vs + (mul(i, cc) + j))), [Z.get(i, j)]))(Data(L.view(s), p).M)))
            out.append(('%s >= 0' % nm, lambda s, x, key=key: s.vars[key] >= 0)); out.append(('%s <= rows' % nm, lambda s, x, key=key: s.vars[key] <= D.M.size1))
            for n2, k2 in L.ints():
                if k2 != key: out.append(('%s = vs + %s rows' % (n2, nm), lambda s, x, key=key, k2=k2: s.vars[k2] == vs + mul(s.vars[key], cc)))
            out.append(('%s rows fit' % nm, lambda s, x, key=key: Implies(And(s.vars[key] >= 0, s.vars[key] < D.M.size1), mul(s.vars[key], cc) + cc <= mul(D.M.size1, cc))))
        return out

# ---- copying data sets: numeric parts (no text, no names in the source, one page)
def numeric(v, p):
    D = Data(v, p)
    return And(live(v, p, 72), PI(p) == 0, iskind(PO(p), 'apop_data'), null_or(D.vector, And(wfVec(v, D.vector), D.V.size >= 1)), null_or(D.matrix, And(wfMat(v, D.matrix), D.M.size1 >= 1, D.M.size2 >= 1)), null_or(D.weights, And(wfVec(v, D.weights), D.W.size >= 1)))
def plain(v, p):
    D = Data(v, p); return And(isnull(D.names), Or(D.rows == 0, D.cols == 0), isnull(D.more))
@contract('apop_data', 'apop_data_memcpy', 'out in', None, props=['C01'])
class _:
    def requires(c):
        p, q = c.args['in'], c.out; D, X = Data(c.old, p), Data(c.old, q)
        sep = [Implies(And(Not(isnull(a)), Not(isnull(b))), oa != ob) for a, oa in ((D.vector, D.V.o), (D.matrix, D.M.o), (D.weights, D.W.o)) for b, ob in ((X.vector, X.V.o), (X.matrix, X.M.o), (X.weights, X.W.o))]
        return [('source', null_or(p, And(numeric(c.old, p), plain(c.old, p)))), ('target', null_or(q, numeric(c.old, q))), ('both or neither', Or(Not(isnull(p)), isnull(q))),
                ('separate storage', Implies(And(Not(isnull(p)), Not(isnull(q)), p != q), And(sep + [partsep(X, NULLO)])))]
    def modifies(c):
        X = Data(c.old, c.out); g = lambda p, o: If(Or(isnull(c.out), isnull(p)), NULLO, o)
        return [('f64', [g(X.vector, X.V.o), g(X.matrix, X.M.o), g(X.weights, X.W.o)]), ('apop_data.error', [PO(c.out)])]
    def ensures(c):
        p, q = c.args['in'], c.out; D, X, N = Data(c.old, p), Data(c.old, q), Data(c.new, q); S = Data(c.new, p)
        ok = And(Not(isnull(p)), Not(isnull(q)), p != q)
        miss = Or(And(Not(isnull(D.matrix)), isnull(X.matrix)), And(Not(isnull(D.vector)), isnull(X.vector)), And(Not(isnull(D.weights)), isnull(X.weights)))
        size = Or(And(Not(isnull(D.matrix)), Not(isnull(X.matrix)), Or(D.M.size1 != X.M.size1, D.M.size2 != X.M.size2)), And(Not(isnull(D.vector)), Not(isnull(X.vector)), D.V.size != X.V.size), And(Not(isnull(D.weights)), Not(isnull(X.weights)), D.W.size != X.W.size))
        good = And(ok, Not(miss), Not(size)); er0, er = Data(c.old, q).error, Data(c.new, q).error
        return [('matrix copied', Implies(And(good, Not(isnull(D.matrix))), matsame(N.M, D.M))), ('vector copied', Implies(And(good, Not(isnull(D.vector))), vecsame(N.V, D.V))), ('weights copied', Implies(And(good, Not(isnull(D.weights))), vecsame(N.W, D.W))),
                ('no error when everything fits', Implies(good, er == er0)), ('a missing part or a wrong size is flagged', Implies(And(ok, Or(miss, size)), Or(er == ord('p'), er == ord('d')))),
                ('nothing done with NULL or itself', Implies(And(Not(isnull(q)), Not(ok)), er == er0))]
@contract('apop_data', 'apop_data_copy', 'in', 'ptr', props=['C01'])
class _:
    def requires(c):
        p = c.args['in']; return [('source', null_or(p, And(numeric(c.old, p), plain(c.old, p))))]
    def ensures(c):
        p = c.args['in']; D, N = Data(c.old, p), Data(c.new, c.ret); ok = Not(isnull(p)); fresh = lambda q: rootid(PO(q)) > c.old.top
        return [('null iff null', isnull(c.ret) == isnull(p)), ('fresh', Implies(ok, And(fresh(c.ret), isnull(N.more)))),
                ('same parts', Implies(ok, And(isnull(N.vector) == isnull(D.vector), isnull(N.matrix) == isnull(D.matrix), isnull(N.weights) == isnull(D.weights)))),
                ('vector', Implies(And(ok, Not(isnull(D.vector))), And(N.V.size == D.V.size, fresh(N.vector), rootid(N.V.o) > c.old.top, vecsame(N.V, D.V)))),
                ('weights', Implies(And(ok, Not(isnull(D.weights))), And(N.W.size == D.W.size, fresh(N.weights), rootid(N.W.o) > c.old.top, vecsame(N.W, D.W)))),
                ('matrix', Implies(And(ok, Not(isnull(D.matrix))), And(N.M.size1 == D.M.size1, N.M.size2 == D.M.size2, fresh(N.matrix), rootid(N.M.o) > c.old.top, matsame(N.M, D.M)))),
                ('well formed', Implies(ok, And(numeric(c.new, c.ret), partsep(N, NULLO)))), ('owns its storage', Implies(ok, And(resizable(c.new, N), sepobj(N)))), ('an empty set of names', Implies(ok, And(fresh(N.names), okNames(c.new, N.names)))),
                ('no text', Implies(ok, And(N.rows == 0, N.cols == 0, isnull(N.text)))), ('error flag', Implies(ok, N.error == D.error))]
def separate(D, X):
    pa = lambda Z: ((Z.vector, Z.V), (Z.matrix, Z.M), (Z.weights, Z.W))
    return And([Implies(And(Not(isnull(a)), Not(isnull(b))), And(A.o != B_.o, PO(a) != PO(b))) for a, A in pa(D) for b, B_ in pa(X)])
def resizable(v, D):
    """every numeric part owns its storage"""
    from linalg import ownVec, resizableV, exV, resizableM, exM
    a = D.M
    return And(null_or(D.vector, And(ownVec(v, D.vector), resizableV(v, D.vector), exV(v, D.vector))), null_or(D.weights, And(ownVec(v, D.weights), resizableV(v, D.weights), exV(v, D.weights))),
               null_or(D.matrix, And(live(v, a.block, 16), PI(a.block) == 0, iskind(PO(a.block), 'gsl_block_struct'), resizableM(v, D.matrix), exM(v, D.matrix))))
@contract('apop_data', 'apop_data_stack_base', 'm1 m2 posn inplace', 'ptr', props=['C03'])
class _:
    def requires(c):
        v = c.old; p, q = c.m1, c.m2; D, X = Data(v, p), Data(v, q); y = c.inplace != 0; e = lambda Z: (Z.vector, Z.matrix, Z.weights)
        sm = lambda a, A, b, B_: Implies(And(Not(isnull(a)), Not(isnull(b))), A.size + B_.size <= IMAX)
        return [('first', null_or(p, And(numeric(v, p), plain(v, p), isnull(D.text)))), ('second', null_or(q, And(numeric(v, q), plain(v, q), isnull(X.text)))),
                ('separate', Implies(And(Not(isnull(p)), Not(isnull(q))), And(p != q, separate(D, X)))), ('no error so far', null_or(p, D.error == 0)), ('in-place target owns its storage', Or(isnull(p), Not(y), And(resizable(v, D), partsep(D, NULLO), sepobj(D)))),
                ('sizes', Implies(And(Not(isnull(p)), Not(isnull(q))), And(sm(D.vector, D.V, X.vector, X.V), sm(D.weights, D.W, X.weights, X.W),
                    Implies(And(Not(isnull(D.matrix)), Not(isnull(X.matrix))), And(D.M.size1 + X.M.size1 <= IMAX, D.M.size2 + X.M.size2 <= IMAX))))),
                ('row or column', Or(c.posn == ord('r'), c.posn == ord('c'))), ('columns: no vector to turn into a column', Or(c.posn == ord('r'), isnull(p), isnull(q), isnull(X.vector), isnull(D.vector))),
                ('matrices fit', Implies(And(Not(isnull(p)), Not(isnull(q)), Not(isnull(D.matrix)), Not(isnull(X.matrix))), If(c.posn == ord('r'), D.M.size2 == X.M.size2, D.M.size1 == X.M.size1)))]
    def modifies(c):
        v = c.old; D = Data(v, c.m1); y = And(c.inplace != 0, Not(isnull(c.m1)), Not(isnull(c.m2))); g = lambda p, o: If(And(y, Not(isnull(p))), o, NULLO); V, M, W = D.V, D.M, D.W; d1 = If(Not(isnull(c.m1)), PO(c.m1), NULLO)
        vs = lambda f: ('gsl_vector.' + f, ('fresh+', [g(D.vector, PO(D.vector)), g(D.weights, PO(D.weights))])); ms = lambda f: ('gsl_matrix.' + f, ('fresh+', [g(D.matrix, PO(D.matrix))]))
        bl = [g(D.vector, PO(V.block)), g(D.weights, PO(W.block)), g(D.matrix, PO(M.block))]; da = [g(D.vector, V.o), g(D.weights, W.o), g(D.matrix, M.o)]
        return [vs(f) for f in ('size', 'data')] + [ms(f) for f in ('size1', 'size2', 'tda', 'data')] + [('gsl_block_struct.' + f, ('fresh+', bl)) for f in ('size', 'data')] + [(f, ('fresh+', da)) for f in ('f64', 'LEN')] + \
               [('apop_data.' + f, ('fresh+', [If(y, PO(c.m1), NULLO)])) for f in ('vector', 'matrix', 'weights')] + [('apop_data.' + f, 'fresh') for f in ('names', 'text', 'error', 'more')]
    def ensures(c):
        v = c.old; p, q = c.m1, c.m2; D, X, N = Data(v, p), Data(v, q), Data(c.new, c.ret); hp, hq = Not(isnull(p)), Not(isnull(q)); both = And(hp, hq); y = c.inplace != 0; r = c.posn == ord('r')
        out = [('both absent', Implies(And(Not(hp), Not(hq)), isnull(c.ret))), ('in place', Implies(And(hp, y), c.ret == p)), ('otherwise a new data set', Implies(And(Or(hp, hq), Or(Not(y), Not(hp))), rootid(PO(c.ret)) > v.top))]
        for nm, a, A, b, B_, Z, z in (('vector', D.vector, D.V, X.vector, X.V, N.V, N.vector), ('weights', D.weights, D.W, X.weights, X.W, N.W, N.weights)):
            na, nb = Not(isnull(a)), Not(isnull(b)); g = Z.get(i)
            out += [('rows: %s present' % nm, Implies(And(both, r), isnull(z) == And(isnull(a), isnull(b)))), ('rows: %s size' % nm, Implies(And(both, r, Or(na, nb)), Z.size == If(na, A.size, ival(0)) + If(nb, B_.size, ival(0)))),
                    ('rows: %s of the first' % nm, Implies(And(both, r, na), FA([i], Implies(rng(i, A.size), g == A.get(i)), [g]))),
                    ('rows: %s of the second' % nm, Implies(And(both, r, na, nb), FA([i], Implies(rng(i - A.size, B_.size), g == B_.get(i - A.size)), [g]))),
                    ('rows: %s only in the second' % nm, Implies(And(both, r, Not(na), nb), FA([i], Implies(rng(i, B_.size), g == B_.get(i)), [g])))]
        g = N.M.get(i, j); a, b = D.M, X.M; ma, mb = And(both, Not(isnull(D.matrix))), And(both, Not(isnull(X.matrix)))
        out += [('matrix present', Implies(both, isnull(N.matrix) == And(isnull(D.matrix), isnull(X.matrix)))),
                ('rows: size', Implies(And(ma, mb, r), And(N.M.size1 == a.size1 + b.size1, N.M.size2 == a.size2))), ('columns: size', Implies(And(ma, mb, Not(r)), And(N.M.size2 == a.size2 + b.size2, N.M.size1 == a.size1))),
                ('matrix of the first', Implies(ma, FA([i, j], Implies(And(rng(i, a.size1), rng(j, a.size2)), g == a.get(i, j)), [g]))),
                ('rows: matrix of the second', Implies(And(ma, mb, r), FA([i, j], Implies(And(rng(i - a.size1, b.size1), rng(j, b.size2)), g == b.get(i - a.size1, j)), [g]))),
                ('columns: matrix of the second', Implies(And(ma, mb, Not(r)), FA([i, j], Implies(And(rng(i, b.size1), rng(j - a.size2, b.size2)), g == b.get(i, j - a.size2)), [g]))),
                ('matrix only in the second', Implies(And(mb, isnull(D.matrix)), And(N.M.size1 == b.size1, N.M.size2 == b.size2, FA([i, j], Implies(And(rng(i, b.size1), rng(j, b.size2)), g == b.get(i, j)), [g])))),
                ('columns: vector of the first', Implies(And(both, Not(r), Not(isnull(D.vector))), And(N.V.size == D.V.size, vecsame(N.V, D.V)))), ('columns: weights of the first', Implies(And(both, Not(r), Not(isnull(D.weights))), And(N.W.size == D.W.size, vecsame(N.W, D.W)))),
                ('columns: the second vector if it is the only one', Implies(And(both, Not(r), isnull(D.vector), Not(isnull(X.vector))), And(N.V.size == X.V.size, vecsame(N.V, X.V))))]
        return out
def sepobj(D):
    b = [(D.vector, PO(D.vector), PO(D.V.block)), (D.weights, PO(D.weights), PO(D.W.block)), (D.matrix, PO(D.matrix), PO(D.M.block))]
    return And([Implies(And(Not(isnull(x[0])), Not(isnull(z[0]))), And(x[1] != z[1], x[2] != z[2])) for n_, x in enumerate(b) for z in b[:n_]])
CONTRACTS['apop_data_stack_base']['ensures_notes'] = 1
