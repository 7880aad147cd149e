"""specification helpers: views of the library's data structures in one memory state"""
from z3 import *
from theory import *

IMAX = (1 << 31) - 1
class Vec:
    def __init__(s, v, p):
        s.v, s.p = v, p
    size = property(lambda s: s.v.f(s.p, 'gsl_vector.size', I))
    stride = property(lambda s: s.v.f(s.p, 'gsl_vector.stride', I))
    data = property(lambda s: s.v.f(s.p, 'gsl_vector.data', Ptr))
    block = property(lambda s: s.v.f(s.p, 'gsl_vector.block', Ptr))
    owner = property(lambda s: s.v.f(s.p, 'gsl_vector.owner', I))
    @property
    def o(s): return PO(s.data)
    def cell(s, i): return VIDX(s.v.pi(s.data), s.stride, i)
    def get(s, i): return s.v.cell('f64', R, PO(s.data), s.cell(i))
    @property
    def nonnull(s): return Not(isnull(s.p))
class Mat:
    def __init__(s, v, p):
        s.v, s.p = v, p
    size1 = property(lambda s: s.v.f(s.p, 'gsl_matrix.size1', I))
    size2 = property(lambda s: s.v.f(s.p, 'gsl_matrix.size2', I))
    tda = property(lambda s: s.v.f(s.p, 'gsl_matrix.tda', I))
    data = property(lambda s: s.v.f(s.p, 'gsl_matrix.data', Ptr))
    block = property(lambda s: s.v.f(s.p, 'gsl_matrix.block', Ptr))
    owner = property(lambda s: s.v.f(s.p, 'gsl_matrix.owner', I))
    @property
    def o(s): return PO(s.data)
    def cell(s, i, j): return MIDX(s.v.pi(s.data), s.tda, i, j)
    def get(s, i, j): return s.v.cell('f64', R, PO(s.data), s.cell(i, j))
    @property
    def nonnull(s): return Not(isnull(s.p))
class Names:
    def __init__(s, v, p): s.v, s.p = v, p
    title = property(lambda s: s.v.f(s.p, 'apop_name.title', Ptr))
    vector = property(lambda s: s.v.f(s.p, 'apop_name.vector', Ptr))
    col = property(lambda s: s.v.f(s.p, 'apop_name.col', Ptr))
    row = property(lambda s: s.v.f(s.p, 'apop_name.row', Ptr))
    text = property(lambda s: s.v.f(s.p, 'apop_name.text', Ptr))
    colct = property(lambda s: s.v.f(s.p, 'apop_name.colct', I))
    rowct = property(lambda s: s.v.f(s.p, 'apop_name.rowct', I))
    textct = property(lambda s: s.v.f(s.p, 'apop_name.textct', I))
    def arr(s, k): return {'c': s.col, 'r': s.row, 't': s.text}[k]
    def ct(s, k): return {'c': s.colct, 'r': s.rowct, 't': s.textct}[k]
    def ent(s, k, i):
        a = s.arr(k); return s.v.cell('Pi8', Ptr, PO(a), i)
    def str(s, k, i): return s.v.str(s.ent(k, i))
class Data:
    def __init__(s, v, p): s.v, s.p = v, p
    vector = property(lambda s: s.v.f(s.p, 'apop_data.vector', Ptr))
    matrix = property(lambda s: s.v.f(s.p, 'apop_data.matrix', Ptr))
    weights = property(lambda s: s.v.f(s.p, 'apop_data.weights', Ptr))
    names = property(lambda s: s.v.f(s.p, 'apop_data.names', Ptr))
    more = property(lambda s: s.v.f(s.p, 'apop_data.more', Ptr))
    text = property(lambda s: s.v.f(s.p, 'apop_data.text', Ptr))
    error = property(lambda s: s.v.f(s.p, 'apop_data.error', I))
    def tsize(s, k):
        o = s.v.emb('apop_data.textsize', PO(s.p), PI(s.p))
        return s.v.cell('u64', I, o, ival(k))
    rows = property(lambda s: s.tsize(0))
    cols = property(lambda s: s.tsize(1))
    def trow(s, i):
        t = s.text; return s.v.cell('PPi8', Ptr, PO(t), i)
    def tent(s, i, j):
        r = s.trow(i); return s.v.cell('Pi8', Ptr, PO(r), j)
    def tstr(s, i, j): return s.v.str(s.tent(i, j))
    V = property(lambda s: Vec(s.v, s.vector))
    M = property(lambda s: Mat(s.v, s.matrix))
    W = property(lambda s: Vec(s.v, s.weights))
    N = property(lambda s: Names(s.v, s.names))

def live(v, p, n=1): return And(Not(isnull(p)), v.len(PO(p)) >= n)
def wfVec(v, p, maxn=IMAX):
    x = Vec(v, p)
    return And(live(v, p, 40), PI(p) == 0, x.size >= 0, x.size <= maxn, x.stride >= 1, x.stride <= maxn, PI(x.data) >= 0, rootid(PO(p)) > 0, rootid(x.o) > 0,
               v.len(x.o) >= 0, iskind(PO(p), 'gsl_vector'), iskind(x.o, 'f64'))
def wfMat(v, p, maxn=IMAX):
    x = Mat(v, p)
    return And(live(v, p, 48), PI(p) == 0, x.size1 >= 0, x.size1 <= maxn, x.size2 >= 0, x.size2 <= maxn, x.tda >= x.size2, x.tda >= 1, x.tda <= maxn, PI(x.data) >= 0, 
               rootid(PO(p)) > 0, rootid(x.o) > 0, v.len(x.o) >= 0, iskind(PO(p), 'gsl_matrix'), iskind(x.o, 'f64'))
def null_or(p, f): return Or(isnull(p), f)
def rng(i, n): return And(i >= 0, i < n)

CONTRACTS = {}
def contract(unit, fn, params, rettype=None, **kw):
    """decorator on a class with requires/modifies/ensures/template static methods"""
    def d(cls):
        c = dict(unit=unit, fn=fn, params=params.split(), rettype=rettype, props=kw.pop('props', []))
        for k in ('requires', 'modifies', 'ensures', 'template'):
            if hasattr(cls, k): c[k] = getattr(cls, k)
        c.update(kw)
        CONTRACTS[fn] = c
        return cls
    return d

# ------------------------------------------------------------------ data structure invariants
def wfStr(v, p): return And(Not(isnull(p)), PI(p) == 0, v.len(PO(p)) >= 0)
def wfList(v, arr, ct, hsh=None):
    """a list of `ct` names: a live array of live strings"""
    i = Int('i?')
    e = v.cell('Pi8', Ptr, PO(arr), i)
    f = [ct >= 0, ct <= IMAX, Implies(ct > 0, And(Not(isnull(arr)), v.len(PO(arr)) >= 8 * ct, rootid(PO(arr)) > 0)), PI(arr) == 0,
         FA([i], Implies(rng(i, ct), wfStr(v, e)), [e])]
    return And(f)
def wfNames(v, p):
    """names object: each list is as long as its count says"""
    n = Names(v, p); f = [live(v, p, 80), PI(p) == 0]
    for k in 'crt':
        f.append(wfList(v, n.arr(k), n.ct(k)))
        h = n.hash(k)
        f.append(And(PI(h) == 0, Or(isnull(h), v.len(PO(h)) >= 8 * n.ct(k))))
    f.append(null_or(n.vector, wfStr(v, n.vector)))
    f.append(null_or(n.title, wfStr(v, n.title)))
    return And(f)
def _hash(s, k): return s.v.f(s.p, 'apop_name.' + {'c': 'colhash', 'r': 'rowhash', 't': 'texthash'}[k], Ptr)
Names.hash = _hash
class VaArg:
    """the struct a variadic_* wrapper receives"""
    def __init__(s, sv): s.sv = sv
    def __getattr__(s, k): return s.sv[k]
class Sub:
    """a contract context with other arguments (for deriving a wrapper's contract from the base function's)"""
    def __init__(s, c, args): s.c, s.args = c, args
    def __getattr__(s, k):
        a = s.__dict__['args']
        if k in a: return a[k]
        return getattr(s.c, k)
def wrap(fn, _props=None, **dflt):
    """variadic_<fn>: the named-argument form is the base function with absent (zero) arguments replaced by defaults.
    dflt: parameter -> default (an int/char), absent: 0/NULL"""
    b = CONTRACTS[fn + '_base']
    def sub(c):
        a = {}
        for p in b['params']:
            x = c.varad_in[p] if p in c.varad_in else None
            if p in dflt and x is not None:
                d = dflt[p](c, a) if callable(dflt[p]) else ival(ord(dflt[p]) if isinstance(dflt[p], str) else dflt[p])
                z = isnull(x) if x.sort() == Ptr else x == 0
                x = If(z, d, x)
            a[p] = x
        return Sub(c, a)
    c = dict(unit=b['unit'], fn='variadic_' + fn, params=['varad_in'], rettype=b['rettype'], props=_props or b['props'])
    for k in ('requires', 'modifies', 'ensures'):
        if k in b: c[k] = (lambda f: lambda c: f(sub(c)))(b[k])
    for k in ('opts', 'units', 'time', 'timeout'):
        if k in b: c[k] = b[k]
    CONTRACTS['variadic_' + fn] = c
