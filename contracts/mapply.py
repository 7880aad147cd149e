"""C19: mapping a function over the elements of a vector, and over the rows or columns of a matrix"""
from spec import *
import theory, lib
from views import okM
from stats import arr
i, j, q = Int('i?'), Int('j?'), Int('q?')
AR = ArraySort(I, R)
# what the mapped functions return: fixed functions of their arguments (which function, what it is told, the number or the vector it is given)
FD = Function('mapped_number', Ptr, I, Ptr, I, R, R)
FV = Function('mapped_vector', Ptr, I, Ptr, I, AR, I, I, I, R)
FA_ = Function('applied_number', Ptr, R, R)
tb = lambda x: x if is_bool(x) else x != 0
def G(c): c.ex.reg_map('ghost.mapped', I); return c.ex.glob('ghost:mapped')
def calls(c, v): return v.cell('ghost.mapped', I, G(c), ival(0))
def mode(param, index): return (2 if param else 0) + (1 if index else 0)
def callptr(ex, st, fr, p, args, i):
    """the user's function: a fixed function of its arguments that leaves the data alone; a function of one pointer to a number replaces that number"""
    ex.used_trusted.add('the mapped function is a fixed function of its arguments and does not touch the data it is not given')
    g = ex.glob('ghost:mapped'); ex.reg_map('ghost.mapped', I)
    ex.wr(st, 'ghost.mapped', g, ival(0), add(ex.rd(st, 'ghost.mapped', g, ival(0)), ival(1)))
    x, rest = args[0], args[1:]
    prm = next((a for a in rest if a.sort() == Ptr), None); idx = next((a for a in rest if a.sort() == I), None)
    m = ival(mode(prm is not None, idx is not None)); zero = Ptr.mk(NULLO, ival(0))
    pr = prm if prm is not None else zero; ix = idx if idx is not None else ival(0)
    if x.sort() == R: return [(st, FD(p, m, pr, ix, x))]
    if i.lhs is None:
        ex.wr(st, 'f64', PO(x), PI(x), FA_(p, ex.rd(st, 'f64', PO(x), PI(x)))); return [(st, None)]
    n, sd = lib.fld(ex, st, x, 'gsl_vector.size', I), lib.fld(ex, st, x, 'gsl_vector.stride', I); d = lib.fld(ex, st, x, 'gsl_vector.data', Ptr)
    return [(st, FV(p, m, pr, ix, Select(ex.getmap(st, 'f64'), PO(d)), PI(d), sd, n))]

ZERO = Ptr.mk(NULLO, ival(0))
def modeof(c): P_, X = tb(c.use_param), tb(c.use_index); return If(P_, 2, 0) + If(X, 1, 0), If(P_, c.param, ZERO), lambda n: If(X, n, 0)
def valD(c, n, x): m, pr, ix = modeof(c); return FD(c.fn, m, pr, ix(n), x)
def valV(c, n, A, b, s, k): m, pr, ix = modeof(c); return FV(c.fn, m, pr, ix(n), A, b, s, k)
def rowv(c, M, n): return valV(c, n, Select(M.v.map('f64'), M.o), M.cell(n, 0), ival(1), M.size2)
def colv(c, M, n): return valV(c, n, Select(M.v.map('f64'), M.o), M.cell(0, n), M.tda, M.size1)
def loopinv(c, L):
    """up to the counter: results stored; beyond it: inputs as they were"""
    v, V, O, M = c.old, Vec(c.old, c.vin), Vec(c.old, c.vout), Mat(c.old, c.m); out = []
    for nm, key in L.ints():
        n = lambda s, key=key: s.vars[key]
        out.append(('%s >= 0' % nm, lambda s, x, n=n: n(s) >= 0))
        for lim, e in (('elements', V.size), ('rows', M.size1), ('columns', M.size2)): out.append(('%s <= %s' % (nm, lim), lambda s, x, n=n, e=e: n(s) <= e))
        out.append(('as many calls as %s' % nm, lambda s, x, n=n: L.view(s).cell('ghost.mapped', I, G(c), ival(0)) == calls(c, c.old) + n(s)))
        out.append(('results of the first %s elements' % nm, lambda s, x, n=n: (lambda W: FA([i], Implies(And(Not(isnull(c.vout)), rng(i, n(s))), W.get(i) == valD(c, i, V.get(i))), [W.get(i)]))(Vec(L.view(s), c.vout))))
        out.append(('elements from %s untouched' % nm, lambda s, x, n=n: (lambda W: FA([i], Implies(And(i >= n(s), i < V.size), W.get(i) == V.get(i)), [W.get(i)]))(Vec(L.view(s), c.vin))))
        out.append(('the first %s elements replaced' % nm, lambda s, x, n=n: (lambda W: FA([i], Implies(rng(i, n(s)), W.get(i) == FA_(c.fn, V.get(i))), [W.get(i)]))(Vec(L.view(s), c.vin))))
        out.append(('results of the first %s rows' % nm, lambda s, x, n=n: (lambda W: FA([i], Implies(And(c.post_22 != ord('c'), Not(isnull(c.vout)), rng(i, n(s))), W.get(i) == rowv(c, M, i)), [W.get(i)]))(Vec(L.view(s), c.vout))))
        out.append(('results of the first %s columns' % nm, lambda s, x, n=n: (lambda W: FA([i], Implies(And(c.post_22 == ord('c'), Not(isnull(c.vout)), rng(i, n(s))), W.get(i) == colv(c, M, i)), [W.get(i)]))(Vec(L.view(s), c.vout))))
        out.append(('the matrix untouched up to %s' % nm, lambda s, x, n=n: Select(L.view(s).map('f64'), M.o) == Select(v.map('f64'), M.o)))
    o = Const('o?', Obj); MO = If(isnull(c.vout), If(And(isnull(c.m), c.post_22 == 0), V.o, NULLO), O.o)
    out.append(('only the output', lambda s, x: FA([o], Implies(o != MO, Select(L.view(s).map('f64'), o) == Select(v.map('f64'), o)), [Select(L.view(s).map('f64'), o)])))
    return out
ORD = ord
@contract('apop_mapply', 'mapply_core', 'd m vin fn vout use_index use_param param post_22 by_apop_rows', 'ptr', props=['C19'], callptr=callptr, opts=dict(keepcommon=True))
class _:
    def requires(c):
        v = c.old; V, O, M = Vec(v, c.vin), Vec(v, c.vout), Mat(v, c.m); p22 = c.post_22
        return [('elements or rows or columns', And(isnull(c.d), Not(tb(c.by_apop_rows)), Not(isnull(c.fn)))),
                ('input', Or(And(isnull(c.m), wfVec(v, c.vin)), And(Not(isnull(c.m)), okM(v, c.m), isnull(c.vin)))),
                ('output', null_or(c.vout, And(wfVec(v, c.vout), Implies(isnull(c.m), And(O.size >= V.size, Or(O.o != V.o, And(PI(O.data) == PI(V.data), O.stride == V.stride)))),
                    Implies(Not(isnull(c.m)), And(O.o != M.o, O.size >= If(Or(p22 == 0, p22 == ORD('r')), M.size1, M.size2)))))),
                ('rows or columns', Or(p22 == 0, p22 == ORD('r'), p22 == ORD('c'))),
                ('a function without results takes one number', Implies(And(isnull(c.vout), p22 == 0), isnull(c.m))), ('old style', Implies(p22 == 0, And(Not(tb(c.use_index)), Not(tb(c.use_param)))))]
    def modifies(c): return [('f64', [If(isnull(c.vout), If(And(isnull(c.m), c.post_22 == 0), Vec(c.old, c.vin).o, NULLO), Vec(c.old, c.vout).o)]), ('ghost.mapped', [G(c)])]
    def ensures(c):
        v = c.old; V, M = Vec(v, c.vin), Mat(v, c.m); W = Vec(c.new, c.vout); X = Vec(c.new, c.vin); hasm = Not(isnull(c.m)); ho = Not(isnull(c.vout)); col = c.post_22 == ORD('c')
        return [('returns the output', c.ret == c.vout),
                ('each element\'s result in its place', Implies(And(Not(hasm), ho), FA([i], Implies(rng(i, V.size), W.get(i) == valD(c, i, V.get(i))), [W.get(i)]))),
                ('each element replaced', Implies(And(Not(hasm), Not(ho), c.post_22 == 0), FA([i], Implies(rng(i, V.size), X.get(i) == FA_(c.fn, V.get(i))), [X.get(i)]))),
                ('each row\'s result in its place', Implies(And(hasm, ho, Not(col)), FA([i], Implies(rng(i, M.size1), W.get(i) == rowv(c, M, i)), [W.get(i)]))),
                ('each column\'s result in its place', Implies(And(hasm, ho, col), FA([i], Implies(rng(i, M.size2), W.get(i) == colv(c, M, i)), [W.get(i)]))),
                ('as many calls as items', calls(c, c.new) == calls(c, v) + If(hasm, If(col, M.size2, M.size1), V.size))]
    def template(L): return loopinv(L, L)
def FRESHV(c): return [(f, 'fresh') for f in ('gsl_vector.size', 'gsl_vector.stride', 'gsl_vector.data', 'gsl_vector.block', 'gsl_vector.owner', 'f64', 'LEN')] + [('ghost.mapped', [G(c)])]
@contract('apop_mapply', 'apop_vector_map', 'v fn', 'ptr', props=['C19'])
class _:
    def requires(c): return [('v', null_or(c.v, wfVec(c.old, c.v))), ('fn', Not(isnull(c.fn)))]
    def modifies(c): return FRESHV(c)
    def ensures(c):
        V, W = Vec(c.old, c.args['v']), Vec(c.new, c.ret)
        return [('NULL', Implies(isnull(c.args['v']), isnull(c.ret))),
                ('each element\'s result in its place', Implies(V.nonnull, And(W.nonnull, W.size == V.size, FA([i], Implies(rng(i, V.size), W.get(i) == FD(c.fn, ival(0), ZERO, ival(0), V.get(i))), [W.get(i)])))), ('as many calls as elements', Implies(V.nonnull, calls(c, c.new) == calls(c, c.old) + V.size))]
@contract('apop_mapply', 'apop_vector_apply', 'v fn', None, props=['C19'])
class _:
    def requires(c): return [('v', null_or(c.args['v'], wfVec(c.old, c.args['v']))), ('fn', Not(isnull(c.fn)))]
    def modifies(c): return [('f64', [If(isnull(c.args['v']), NULLO, Vec(c.old, c.args['v']).o)]), ('ghost.mapped', [G(c)])]
    def ensures(c):
        V, W = Vec(c.old, c.args['v']), Vec(c.new, c.args['v'])
        return [('each element replaced', Implies(V.nonnull, FA([i], Implies(rng(i, V.size), W.get(i) == FA_(c.fn, V.get(i))), [W.get(i)]))), ('as many calls as elements', Implies(V.nonnull, calls(c, c.new) == calls(c, c.old) + V.size))]
@contract('apop_mapply', 'apop_matrix_map', 'm fn', 'ptr', props=['C19'])
class _:
    def requires(c): return [('m', null_or(c.m, okM(c.old, c.m))), ('fn', Not(isnull(c.fn)))]
    def modifies(c): return FRESHV(c)
    def ensures(c):
        M, W = Mat(c.old, c.m), Vec(c.new, c.ret)
        return [('NULL', Implies(isnull(c.m), isnull(c.ret))),
                ('each row\'s result in its place', Implies(M.nonnull, And(W.nonnull, W.size == M.size1, FA([i], Implies(rng(i, M.size1), W.get(i) == FV(c.fn, ival(0), ZERO, ival(0), Select(M.v.map('f64'), M.o), M.cell(i, 0), ival(1), M.size2)), [W.get(i)])))), ('as many calls as rows', Implies(M.nonnull, calls(c, c.new) == calls(c, c.old) + M.size1))]
