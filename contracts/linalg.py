from spec import *
i, j, k = Int('i?'), Int('j?'), Int('k?')

@contract('apop_conversions', 'apop_vector_copy', 'in', 'ptr')
class _:
    def requires(c): return [('in wf', null_or(c.args['in'], wfVec(c.old, c.args['in'])))]
    def ensures(c):
        a, r = Vec(c.old, c.args['in']), Vec(c.new, c.ret)
        return [('null iff null', isnull(c.ret) == isnull(a.p)),
                ('size', Implies(a.nonnull, r.size == a.size)),
                ('content', Implies(a.nonnull, FA([i], Implies(rng(i, a.size), r.get(i) == a.get(i))))),
                ('fresh', Implies(a.nonnull, And(rootid(PO(c.ret)) > c.old.top, rootid(r.o) > c.old.top)))]

def ownVec(v, p):
    """a vector whose block may be resized: an owning gsl_vector with its own block and data"""
    x = Vec(v, p)
    return And(live(v, x.block, 16), PI(x.block) == 0, iskind(PO(x.block), 'gsl_block_struct'))
def resizableV(v, p):
    x = Vec(v, p); bd = v.f(x.block, 'gsl_block_struct.data', Ptr)
    return And(bd == x.data, x.owner != 0, x.stride == 1)
def resizableM(v, p):
    x = Mat(v, p); bd = v.f(x.block, 'gsl_block_struct.data', Ptr)
    return And(bd == x.data, x.owner != 0, x.tda == x.size2)
def exV(v, p):
    """extent of an owning vector's data block, and it is a block of its own"""
    x = Vec(v, p)
    return And(PI(x.data) == 0, v.len(x.o) >= 8 * x.size, x.o != PO(p), x.o != PO(x.block), Not(isnull(x.data)))
def exM(v, p):
    x = Mat(v, p)
    return And(PI(x.data) == 0, v.len(x.o) >= 8 * mul(x.size1, x.size2), x.o != PO(p), x.o != PO(x.block), Not(isnull(x.data)))
VFS = ['gsl_vector.size', 'gsl_vector.stride', 'gsl_vector.data']
@contract('apop_data', 'apop_vector_realloc', 'v newheight', 'ptr', props=['C11'])
class _:
    def requires(c):
        v = c.old; p = c.args['v']
        return [('vector wf', null_or(p, And(wfVec(v, p), ownVec(v, p), Implies(resizableV(v, p), exV(v, p))))), ('new size', c.newheight <= IMAX)]
    def modifies(c):
        p = c.args['v']; x = Vec(c.old, p)
        return [('gsl_vector.size', [PO(p)]), ('gsl_vector.data', [PO(p)]), ('gsl_block_struct.size', [PO(x.block)]), ('gsl_block_struct.data', [PO(x.block)]), ('LEN', ('fresh+', [x.o])), ('f64', 'fresh'),
                ('gsl_vector.stride', 'fresh'), ('gsl_vector.owner', 'fresh'), ('gsl_vector.block', 'fresh')]
    def ensures(c):
        p = c.args['v']; a, r = Vec(c.old, p), Vec(c.new, c.ret); ok = And(a.nonnull, resizableV(c.old, p))
        return [('view refused', Implies(And(a.nonnull, Not(resizableV(c.old, p))), And(isnull(c.ret), Vec(c.new, p).size == a.size, Vec(c.new, p).data == a.data, c.new.len(a.o) == c.old.len(a.o)))),
                ('same vector', Implies(ok, c.ret == p)), ('size', Implies(ok, And(r.size == c.newheight, r.stride == 1))),
                ('new block', Implies(ok, And(rootid(r.o) > c.old.top, PI(r.data) == 0, c.new.len(r.o) == 8 * c.newheight))),
                ('kept elements', Implies(ok, FA([i], Implies(And(rng(i, a.size), i < c.newheight), r.get(i) == a.get(i)), [r.get(i)]))),
                ('still resizable', Implies(ok, And(wfVec(c.new, p), resizableV(c.new, p)))),
                ('from NULL', Implies(isnull(p), If(c.newheight == 0, isnull(c.ret), And(wfVec(c.new, c.ret), r.size == c.newheight, rootid(PO(c.ret)) > c.old.top))))]
@contract('apop_data', 'apop_matrix_realloc', 'm newheight newwidth', 'ptr', props=['C11'], opts=dict(lemmas=['mul_mono2', 'mul_comm']))
class _:
    def requires(c):
        v = c.old; p = c.m; x = Mat(v, p)
        return [('matrix wf', null_or(p, And(wfMat(v, p), live(v, x.block, 16), PI(x.block) == 0, iskind(PO(x.block), 'gsl_block_struct'), Implies(resizableM(v, p), exM(v, p))))), ('new size', And(c.newheight <= IMAX, c.newwidth <= IMAX))]
    def modifies(c):
        p = c.m; x = Mat(c.old, p)
        return [('gsl_matrix.size1', [PO(p)]), ('gsl_matrix.size2', [PO(p)]), ('gsl_matrix.tda', [PO(p)]), ('gsl_matrix.data', [PO(p)]), ('gsl_block_struct.size', [PO(x.block)]), ('gsl_block_struct.data', [PO(x.block)]),
                ('LEN', ('fresh+', [x.o])), ('f64', ('fresh+', [x.o])), ('gsl_matrix.owner', 'fresh'), ('gsl_matrix.block', 'fresh')]
    def ensures(c):
        p = c.m; a, r = Mat(c.old, p), Mat(c.new, c.ret); ok = And(a.nonnull, resizableM(c.old, p))
        return [('view refused', Implies(And(a.nonnull, Not(resizableM(c.old, p))), And(isnull(c.ret), Mat(c.new, p).size1 == a.size1, Mat(c.new, p).data == a.data, c.new.len(a.o) == c.old.len(a.o)))),
                ('same matrix', Implies(ok, c.ret == p)), ('size', Implies(ok, And(r.size1 == c.newheight, r.size2 == c.newwidth, r.tda == c.newwidth))),
                ('new block', Implies(ok, And(rootid(r.o) > c.old.top, PI(r.data) == 0, c.new.len(r.o) >= 0, iskind(r.o, 'f64')))),
                ('kept elements', Implies(ok, FA([i, j], Implies(And(rng(i, a.size1), i < c.newheight, rng(j, a.size2), j < c.newwidth), r.get(i, j) == a.get(i, j)), [r.get(i, j)]))),
                ('from NULL', Implies(isnull(p), If(Or(c.newheight == 0, c.newwidth == 0), isnull(c.ret), And(wfMat(c.new, c.ret), r.size1 == c.newheight, r.size2 == c.newwidth, rootid(PO(c.ret)) > c.old.top))))]
    def template(L):
        v = L.old; a = Mat(v, L.m); out = []; w0, w1 = a.size2, L.newwidth
        h = If(a.size1 < L.newheight, a.size1, L.newheight); mx = If(h < 1, ival(1), h)
        for q in (L.newheight, h, mx, mx - 1, h - 1):
            for w, u in ((w0, w1), (w1, w0), (w0, w0), (w1, w1)):
                out.append(('lemma', lambda s, x, q=q, w=w, u=u: Implies(And(q >= 0, w <= u), And(mul(q, w) <= mul(q, u), mul(q, w) <= mul(L.newheight, u)) if q is not mx and not q.eq(mx-1) else mul(q, w) <= mul(q, u))))
                out.append(('lemma1', lambda s, x, q=q, w=w, u=u: Implies(And(q >= 1, w <= u), mul(q-1, w) + w <= mul(q, u))))
        for nm, key in L.ints():
            out.append(('%s = rows * old width' % nm, lambda s, x, key=key: s.vars[key] >= 0))
            for n2, k2 in L.ints():
                if n2 == nm: continue
                out.append(('%s = (%s-1) * old width' % (nm, n2), lambda s, x, key=key, k2=k2: And(s.vars[k2] >= 1, s.vars[key] + w0 == mul(s.vars[k2], w0), mul(s.vars[k2], w0) >= mul(s.vars[k2], w1))))
                out.append(('%s = (%s-1) * new width' % (nm, n2), lambda s, x, key=key, k2=k2: And(s.vars[k2] >= 1, s.vars[key] + w1 == mul(s.vars[k2], w1))))
                out.append(('%s = (h-1-%s) * new width' % (nm, n2), lambda s, x, key=key, k2=k2, h=h: And(s.vars[key] == mul(mx - 1 - s.vars[k2], w1), s.vars[key] + mul(s.vars[k2], w1) == mul(mx - 1, w1))))
            def moved(s, lo, hi, w, pat=None):
                d = Mat(L.view(s), L.m).data
                e = L.view(s).cell('f64', R, PO(d), MIDX(ival(0), w, i, j))
                return FA([i, j], Implies(And(i >= lo, i < hi, rng(j, If(w0 < w1, w0, w1))), e == a.get(i, j)), [e])
            out.append(('rows before %s moved' % nm, lambda s, x, key=key: moved(s, ival(0), s.vars[key], w1)))
            out.append(('rows from %s in place' % nm, lambda s, x, key=key, h=h: moved(s, s.vars[key], h, w0)))
            out.append(('rows after %s moved' % nm, lambda s, x, key=key, h=h: moved(s, s.vars[key] + 1, h, w1)))
            out.append(('rows to %s in place' % nm, lambda s, x, key=key, h=h: moved(s, ival(0), If(s.vars[key] + 1 < h, s.vars[key] + 1, h), w0)))
        return out

def cellV(v, p, q):
    """element q of the vector at p in view v, laid out with the view's own stride"""
    return Vec(v, p).get(q)
def sepV(v, p, q):
    """two vectors whose data blocks do not overlap"""
    return Or(isnull(p), isnull(q), Vec(v, p).o != Vec(v, q).o)
@contract('apop_linear_algebra', 'apop_vector_stack_base', 'v1 v2 inplace', 'ptr', props=['C11', 'C03'])
class _:
    def requires(c):
        v = c.old; a, b = Vec(v, c.v1), Vec(v, c.v2)
        return [('v1', null_or(c.v1, wfVec(v, c.v1))), ('v2', null_or(c.v2, wfVec(v, c.v2))), ('sizes', Or(isnull(c.v1), isnull(c.v2), And(a.size + b.size <= IMAX, a.size >= 1, b.size >= 1))),
                ('in-place target owns its block', Or(isnull(c.v1), c.inplace != ord('y'), And(ownVec(v, c.v1), resizableV(v, c.v1), exV(v, c.v1)))),
                ('in-place target is not the second vector', Or(isnull(c.v1), isnull(c.v2), c.inplace != ord('y'), And(PO(c.v1) != PO(c.v2), sepV(v, c.v1, c.v2))))]
    def modifies(c):
        x = Vec(c.old, c.v1); y = And(c.inplace == ord('y'), Not(isnull(c.v1))); D = Const('DUMMY_OBJ', Obj); g = lambda t: If(y, t, NULLO)
        return [('gsl_vector.size', ('fresh+', [g(PO(c.v1))])), ('gsl_vector.data', ('fresh+', [g(PO(c.v1))])), ('gsl_block_struct.size', ('fresh+', [g(PO(x.block))])), ('gsl_block_struct.data', ('fresh+', [g(PO(x.block))])),
                ('LEN', ('fresh+', [g(x.o)])), ('f64', 'fresh'), ('gsl_vector.stride', 'fresh'), ('gsl_vector.owner', 'fresh'), ('gsl_vector.block', 'fresh')]
    def ensures(c):
        a, b, r = Vec(c.old, c.v1), Vec(c.old, c.v2), Vec(c.new, c.ret); n1, n2 = isnull(c.v1), isnull(c.v2)
        y = c.inplace == ord('y')
        tot = If(n1, ival(0), a.size) + If(n2, ival(0), b.size)
        return [('both absent', Implies(And(n1, n2), isnull(c.ret))), ('result', Implies(Not(And(n1, n2)), And(Not(isnull(c.ret)), wfVec(c.new, c.ret), r.size == tot))),
                ('in place', Implies(And(Not(n1), y), c.ret == c.v1)), ('a new vector otherwise', Implies(And(Not(And(n1, n2)), Or(n1, Not(y))), And(rootid(PO(c.ret)) > c.old.top, rootid(r.o) > c.old.top))),
                ('elements of the first', Implies(Not(n1), FA([i], Implies(rng(i, a.size), r.get(i) == a.get(i)), [r.get(i)]))),
                ('elements of the second', Implies(And(Not(n1), Not(n2)), FA([i], Implies(And(i >= a.size, i < a.size + b.size), r.get(i) == b.get(i - a.size)), [r.get(i)]))),
                ('only the second', Implies(And(n1, Not(n2)), FA([i], Implies(rng(i, b.size), r.get(i) == b.get(i)), [r.get(i)])))]
wrap('apop_vector_stack', inplace='n')

@contract('apop_linear_algebra', 'apop_matrix_stack_base', 'm1 m2 posn inplace', 'ptr', props=['C11', 'C03'], opts=dict(lemmas=['mul_mono2', 'mul_comm']))
class _:
    def requires(c):
        v = c.old; a, b = Mat(v, c.m1), Mat(v, c.m2); y = c.inplace == ord('y')
        return [('m1', null_or(c.m1, wfMat(v, c.m1))), ('m2', null_or(c.m2, wfMat(v, c.m2))), ('sizes', Or(isnull(c.m1), isnull(c.m2), And(a.size1 + b.size1 <= IMAX, a.size2 + b.size2 <= IMAX))), ('not empty', And(Or(isnull(c.m1), And(a.size1 >= 1, a.size2 >= 1)), Or(isnull(c.m2), And(b.size1 >= 1, b.size2 >= 1)))),
                ('in-place target owns its block', Or(isnull(c.m1), Not(y), And(live(v, a.block, 16), PI(a.block) == 0, iskind(PO(a.block), 'gsl_block_struct'), resizableM(v, c.m1), exM(v, c.m1)))),
                ('in-place target is not the second matrix', Or(isnull(c.m1), isnull(c.m2), Not(y), And(PO(c.m1) != PO(c.m2), a.o != b.o)))]
    def modifies(c):
        x = Mat(c.old, c.m1); y = And(c.inplace == ord('y'), Not(isnull(c.m1))); g = lambda t: If(y, t, NULLO)
        return [(f, ('fresh+', [g(PO(c.m1))])) for f in ('gsl_matrix.size1', 'gsl_matrix.size2', 'gsl_matrix.tda', 'gsl_matrix.data')] + [('gsl_block_struct.size', ('fresh+', [g(PO(x.block))])), ('gsl_block_struct.data', ('fresh+', [g(PO(x.block))])),
                ('LEN', ('fresh+', [g(x.o)])), ('f64', ('fresh+', [g(x.o)])), ('gsl_matrix.owner', 'fresh'), ('gsl_matrix.block', 'fresh')]
    def ensures(c):
        a, b, r = Mat(c.old, c.m1), Mat(c.old, c.m2), Mat(c.new, c.ret); n1, n2 = isnull(c.m1), isnull(c.m2)
        y = c.inplace == ord('y'); both = And(Not(n1), Not(n2)); rr = c.posn == ord('r')
        fit = If(rr, a.size2 == b.size2, a.size1 == b.size1)
        ok = And(both, fit)
        g = r.get(i, j)
        return [('both absent', Implies(And(n1, n2), isnull(c.ret))), ('mismatched sizes refused', Implies(And(both, Not(fit)), isnull(c.ret))),
                ('only the first', Implies(And(Not(n1), n2), And(r.size1 == a.size1, r.size2 == a.size2, FA([i, j], Implies(And(rng(i, a.size1), rng(j, a.size2)), g == a.get(i, j)), [g])))),
                ('only the second', Implies(And(n1, Not(n2)), And(r.size1 == b.size1, r.size2 == b.size2, FA([i, j], Implies(And(rng(i, b.size1), rng(j, b.size2)), g == b.get(i, j)), [g])))),
                ('in place', Implies(And(Not(n1), Or(n2, fit), y), c.ret == c.m1)), ('a new matrix otherwise', Implies(And(Not(And(n1, n2)), Not(And(both, Not(fit))), Or(n1, Not(y))), And(rootid(PO(c.ret)) > c.old.top, rootid(r.o) > c.old.top))),
                ('rows: size', Implies(And(ok, rr), And(r.size1 == a.size1 + b.size1, r.size2 == a.size2))), ('columns: size', Implies(And(ok, Not(rr)), And(r.size1 == a.size1, r.size2 == a.size2 + b.size2))),
                ('well formed', Implies(Not(isnull(c.ret)), wfMat(c.new, c.ret))),
                ('elements of the first', Implies(ok, FA([i, j], Implies(And(rng(i, a.size1), rng(j, a.size2)), g == a.get(i, j)), [g]))),
                ('rows: elements of the second', Implies(And(ok, rr), FA([i, j], Implies(And(rng(i - a.size1, b.size1), rng(j, b.size2)), g == b.get(i - a.size1, j)), [g]))),
                ('columns: elements of the second', Implies(And(ok, Not(rr)), FA([i, j], Implies(And(rng(i, b.size1), rng(j - a.size2, b.size2)), g == b.get(i, j - a.size2)), [g])))]
    def template(L):
        v = L.old; a, b = Mat(v, L.m1), Mat(v, L.m2); out = []
        for on, ok_ in L.locals('Pgsl_matrix'):
            for nm, key in L.ints():
                def T(kind, s, key=key, ok_=ok_):
                    w = L.view(s); r = Mat(w, s.vars[ok_]); g = r.get(i, j); n = s.vars[key]
                    if kind == 'a': h = And(rng(i, a.size1), rng(j, a.size2)); e = a.get(i, j)
                    if kind == 'ar': h = And(i >= 0, i < n, rng(j, a.size2)); e = a.get(i, j)
                    if kind == 'ac': h = And(j >= 0, j < n, rng(i, a.size1)); e = a.get(i, j)
                    if kind == 'br': h = And(i >= a.size1, i < n, rng(j, b.size2)); e = b.get(i - a.size1, j)
                    if kind == 'bc': h = And(j >= a.size2, j < a.size2 + n, rng(i, b.size1)); e = b.get(i, j - a.size2)
                    return FA([i, j], Implies(h, g == e), [g])
                for kd in ('a', 'ar', 'ac', 'br', 'bc'):
                    out.append(('%s %s to %s' % (on, kd, nm), lambda s, x, kd=kd, T=T: T(kd, s)))
        return out
wrap('apop_matrix_stack', posn='r', inplace='n')
