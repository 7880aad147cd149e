"""SQL aggregates: the running averages kept by the step functions, and what the finalisers report"""
from spec import *
import lib
CTX = Function('sqlite3_aggregate_context', Ptr, Ptr); VAL = Function('sqlite3_value_double', Ptr, R); TYP = Function('sqlite3_value_type', Ptr, I)
G = lambda c: c.ex.glob('ghost:sqlresult')
@lib.lib('sqlite3_aggregate_context')
def _ctx(ex, st, fr, a, i): return CTX(a[0])
@lib.lib('sqlite3_value_double')
def _val(ex, st, fr, a, i): return VAL(a[0])
@lib.lib('sqlite3_value_type')
def _typ(ex, st, fr, a, i): return TYP(a[0])
@lib.lib('sqlite3_result_double')
def _res(ex, st, fr, a, i):
    g = ex.glob('ghost:sqlresult'); ex.reg_map('ghost.sqlresult', R); ex.reg_map('ghost.sqlresults', I)
    ex.wr(st, 'ghost.sqlresult', g, ival(0), a[1]); ex.wr(st, 'ghost.sqlresults', g, ival(0), ex.rd(st, 'ghost.sqlresults', g, ival(0)) + 1)
    return None
AV = ['avg', 'avg2', 'avg3', 'avg4']
class Ctx:
    def __init__(s, v, context): s.v = v; s.p = CTX(context)
    def n(s): return s.v.f(s.p, 'StdDevCtx.cnt', I)
    def a(s, k): return s.v.f(s.p, 'StdDevCtx.' + AV[k - 1], R)
def ctxreq(c): X = Ctx(c.old, c.context); return [('storage from sqlite', And(live(c.old, X.p, 40), PI(X.p) == 0, iskind(PO(X.p), 'StdDevCtx'), X.n() >= 0, X.n() < IMAX))]
def power(x, k): return x if k == 1 else x * power(x, k - 1)
def result(c): return c.new.cell('ghost.sqlresult', R, G(c), ival(0))
def told(c, n): return c.new.cell('ghost.sqlresults', I, G(c), ival(0)) == c.old.cell('ghost.sqlresults', I, G(c), ival(0)) + n
def step(fn, m):
    class _:
        def requires(c): return ctxreq(c) + [('arguments', And(live(c.old, c.argv, 8), PI(c.argv) == 0, iskind(PO(c.argv), 'Psqlite3_value'), Not(isnull(c.old.cell('Psqlite3_value', Ptr, PO(c.argv), ival(0))))))]
        def modifies(c): o = PO(CTX(c.context)); return [('StdDevCtx.' + f, [o]) for f in AV + ['cnt']]
        def ensures(c):
            a, b = Ctx(c.old, c.context), Ctx(c.new, c.context); v = c.old.cell('Psqlite3_value', Ptr, PO(c.argv), ival(0)); x = VAL(v); null = TYP(v) == 5; n = ToReal(a.n())
            use = And(c.argc >= 1, Not(null)); skip = Or(c.argc < 1, null)
            return [('nulls are not counted', Implies(skip, And([b.n() == a.n()] + [b.a(k) == a.a(k) for k in range(1, m + 1)]))), ('a value is counted once', Implies(use, b.n() == a.n() + 1))] + \
                   [('total of x^%d grows by x^%d' % (k, k), Implies(use, b.a(k) * (n + 1) == a.a(k) * n + power(x, k))) for k in range(1, m + 1)]
    contract('apop_db', fn, 'context argc argv', None, props=['C26'])(_)
step('twoStep', 2); step('threeStep', 3); step('fourStep', 4)
def final(fn, label, f, least=2):
    class _:
        def requires(c): return ctxreq(c)
        def modifies(c): return [('ghost.sqlresult', [G(c)]), ('ghost.sqlresults', [G(c)])]
        def ensures(c):
            X = Ctx(c.old, c.context); n = ToReal(X.n())
            return [(label, Implies(X.n() >= least, And(told(c, 1), f(X, n, result(c))))), ('one observation: zero', Implies(X.n() == 1, And(told(c, 1), result(c) == 0))), ('none: null', Implies(X.n() == 0, told(c, 0)))]
    contract('apop_db', fn, 'context', None, props=['C26'])(_)
m2 = lambda X: X.a(2) - X.a(1) * X.a(1)
m3 = lambda X: X.a(3) - 3 * X.a(2) * X.a(1) + 2 * power(X.a(1), 3)
m4 = lambda X: X.a(4) - 4 * X.a(3) * X.a(1) + 6 * X.a(2) * power(X.a(1), 2) - 3 * power(X.a(1), 4)
SQ = Function('sqrt', R, R)
final('varFinalizePop', 'the second central moment', lambda X, n, r: r == m2(X))
final('stdDevFinalizePop', 'root of the second central moment', lambda X, n, r: r == SQ(m2(X)))
final('varFinalize', 'sum of squared deviations over n-1', lambda X, n, r: r * (n - 1) == n * m2(X))
final('stdDevFinalize', 'root of the sum of squared deviations over n-1', lambda X, n, r: r == SQ(m2(X) * n / (n - 1)))
final('skewFinalize', 'third central moment, corrected for n', lambda X, n, r: r * ((n - 1) * (n - 2)) == n * n * m3(X), 3)
