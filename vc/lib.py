"""Trusted models of libc and GSL (the only unverified callees).  Each entry here is an
assumption of the proofs and is reported in the evidence's trusted_base."""
from z3 import *
from theory import *
from ir import *
import theory

LIB = {}
SPECIAL = {}
DOC = {}

def lib(*names):
    def d(f):
        for n in names: LIB[n] = f
        return f
    return d
def special(*names):
    def d(f):
        for n in names: SPECIAL[n] = f
        return f
    return d

# ---------------------------------------------------------------- struct helpers
VF = [('size', I), ('stride', I), ('data', Ptr), ('block', Ptr), ('owner', I)]
MF = [('size1', I), ('size2', I), ('tda', I), ('data', Ptr), ('block', Ptr), ('owner', I)]
def fld(ex, st, p, name, sort):
    ex.reg_map(name, sort)
    v = ex.rd(st, name, PO(p), ex.pidx(st, p))
    if sort == Ptr: ex.loaded(st, v, ('ptr', ('void',)))
    elif sort == I: ex.loaded(st, v, ('int', 64, False))
    return v
def setf(ex, st, p, name, sort, v):
    ex.reg_map(name, sort); ex.wr(st, name, PO(p), ex.pidx(st, p), v)
class V:
    """a gsl_vector"""
    def __init__(self, ex, st, p):
        self.p = p; self.ex = ex
        self.size = fld(ex, st, p, 'gsl_vector.size', I)
        self.stride = fld(ex, st, p, 'gsl_vector.stride', I)
        self.data = fld(ex, st, p, 'gsl_vector.data', Ptr)
        self.o, self.b = PO(self.data), PI(self.data)
    def cell(self, i): return VIDX(self.b, self.stride, i)
class M:
    def __init__(self, ex, st, p):
        self.p = p; self.ex = ex
        self.size1 = fld(ex, st, p, 'gsl_matrix.size1', I)
        self.size2 = fld(ex, st, p, 'gsl_matrix.size2', I)
        self.tda = fld(ex, st, p, 'gsl_matrix.tda', I)
        self.data = fld(ex, st, p, 'gsl_matrix.data', Ptr)
        self.o, self.b = PO(self.data), PI(self.data)
    def cell(self, i, j): return MIDX(self.b, self.tda, i, j)
F64 = 'f64'
def rdd(ex, st, o, c):
    ex.reg_map(F64, R); return ex.rd(st, F64, o, c)
def wrd(ex, st, o, c, v):
    ex.reg_map(F64, R); ex.wr(st, F64, o, c, v)
def inner(ex, st, o):
    ex.reg_map(F64, R); return ex.sel1(ex.getmap(st, F64), o)

def S_(ex, st, fr, lab, g): 
    ex.oblige(st, '%s/safety/%s' % (fr.cfn, lab), g, 'safety', ex.line)
def nonnull(ex, st, fr, p, what):
    S_(ex, st, fr, what + ' of a non-NULL, live object', And(Not(isnull(p)), ex.rd1(st, 'LEN', PO(p)) > 0))

# ---------------------------------------------------------------- malloc family
def casttype(ex, fr, i):
    if i.lhs is None: return None
    l = i.lhs
    while l['id'] == 'typecast': l = sub(l)[0]
    T = fr.fn.types
    if l['id'] == 'symbol':
        t = fr.fn.castto.get(nsid(l, 'identifier'))
        if t: return T.parse(t)[1]
    t = T.parse(ns(l, 'type'))
    if t[0] == 'ptr' and t[1][0] != 'void': return t[1]
    return None
def leafmaps(ex, T, t, o, i0=None):
    """maps that hold the scalar leaves of an array of t at object o (no embedded aggregates)"""
    if t[0] in ('struct', 'union'):
        out = []
        for f, ft in T.fields(t[1]):
            if f.startswith('$pad'): continue
            if ft[0] in ('struct', 'union', 'array'): return None
            out.append((ex.field_map(T, t[1], f, ft), ft))
        return out
    if t[0] == 'array': return None
    if t[0] == 'void': return []
    return [(ex.scalar_map(T, t), t)]
def dflt(ex, m):
    import sym
    return sym.DEFAULT[str(ex.maps[m])]()
def newobj(ex, st, size):
    o = ex.alloc(st)
    ex.wr1(st, 'LEN', o, size)
    return o
def zero_fill(ex, st, T, t, o):
    if t == ('int', 8, True):
        ex.wr1(st, 'STR', o, ex.lit('')); return
    lm = leafmaps(ex, T, t, o)
    if lm is None:
        # struct with embedded aggregates: exactly one element is zeroed
        ex.store_agg(st, T, t, o, ival(0), ex.zero(T, t)); return
    for m, ft in lm:
        ex.setinner(st, m, o, K(I, dflt(ex, m)))
def embstr_copy(ex, st, T, t, o, po, p, L):
    """enlarging an array of structs: the embedded strings (char arrays) move along; returns the scalar leaves"""
    out = []
    for f, ft in T.fields(t[1]):
        if f.startswith('$pad'): continue
        if ft[0] == 'array' and ft[1] == ('int', 8, True):
            M = ex.getmap(st, 'STR'); N = ex.fresh('ra_STR', M.sort()); k = Int('k?'); x = Const('o?', Obj)
            e, e0 = ex.emb(T, t[1], f, o, k), ex.emb(T, t[1], f, po, k)
            st.assume(FA([k], Implies(And(Not(isnull(p)), k >= 0, (k + 1) * T.sizeof(t) <= L), N[e] == M[e0]), [N[e]]))
            st.assume(FA([x], Implies(rootid(x) != rootid(o), N[x] == M[x]), [N[x]]))
            st.mem['STR'] = N
            if ex.writes is not None: ex.writes.append(('STR', e, None))
        elif ft[0] in ('struct', 'union', 'array'): raise Unsupported('realloc of array of structs with embedded aggregates')
        else: out.append((ex.field_map(T, t[1], f, ft), ft))
    return out
@special('malloc')
def _malloc(ex, st, fr, i):
    ex.used_trusted.add('malloc')
    n = ex.ev(st, fr, i.args[0])
    o = newobj(ex, st, n)
    t = casttype(ex, fr, i)
    if t is not None: ex.setkind(st, fr.fn.types, t, o)
    return [(st, Ptr.mk(o, ival(0)))]
@special('calloc')
def _calloc(ex, st, fr, i):
    ex.used_trusted.add('calloc')
    a, b = ex.ev(st, fr, i.args[0]), ex.ev(st, fr, i.args[1])
    o = newobj(ex, st, mulv(a, b))
    t = casttype(ex, fr, i)
    if t is not None: ex.setkind(st, fr.fn.types, t, o)
    if t is not None: zero_fill(ex, st, fr.fn.types, t, o)
    return [(st, Ptr.mk(o, ival(0)))]
@special('realloc')
def _realloc(ex, st, fr, i):
    ex.used_trusted.add('realloc')
    p, n = ex.ev(st, fr, i.args[0]), ex.ev(st, fr, i.args[1])
    t = casttype(ex, fr, i)
    if t is None:
        # type of the pointer passed in
        x = i.args[0]
        while x['id'] == 'typecast': x = sub(x)[0]
        tt = fr.fn.types.parse(ns(x, 'type')); t = tt[1] if tt[0] == 'ptr' else None
    T = fr.fn.types
    po = PO(p)
    L = ex.rd1(st, 'LEN', po)
    S_(ex, st, fr, 'realloc of NULL or a live block', Or(isnull(p), And(L >= 0, PI(p) == 0)))
    o = newobj(ex, st, n)
    if t is not None: ex.setkind(st, T, t, o)
    if t is not None and t == ('int', 8, True):
        # enlarged string buffer: content kept
        ex.wr1(st, 'STR', o, If(isnull(p), ex.fresh('uninitstr', Str), ex.rd1(st, 'STR', po)))
    elif t is not None and t[0] != 'void':
        lm = leafmaps(ex, T, t, o)
        if lm is None: lm = embstr_copy(ex, st, T, t, o, po, p, L)
        sz = T.sizeof(t)
        for m, ft in lm:
            A = ex.fresh('ra_' + m, ArraySort(I, ex.maps[m]))
            old = ex.sel1(ex.getmap(st, m), po)
            k = Int('k?')
            st.assume(FA([k], Implies(And(Not(isnull(p)), k >= 0, (k + 1) * sz <= L), A[k] == old[k]), [A[k]]))
            if ex.maps[m] == Ptr:
                st.assume(FA([k], rootid(Ptr.obj(A[k])) <= st.top.term(), [A[k]]))
            ex.setinner(st, m, o, A)
    # the old block is gone
    nn = simplify(isnull(p))
    if is_true(nn): pass
    elif is_false(nn): ex.wr1(st, 'LEN', po, ival(-1))
    else: ex.wr1(st, 'LEN', po, If(isnull(p), ival(0), ival(-1)))
    return [(st, Ptr.mk(o, ival(0)))]
@special('free')
def _free(ex, st, fr, i):
    ex.used_trusted.add('free')
    p = ex.ev(st, fr, i.args[0])
    dofree(ex, st, fr, p)
    return [(st, None)]
def dofree(ex, st, fr, p, what='free'):
    po = PO(p)
    nn = simplify(isnull(p))
    if is_true(nn): return
    S_(ex, st, fr, what + ' of NULL or a live block', Or(isnull(p), And(ex.rd1(st, 'LEN', po) >= 0, PI(p) == 0)))
    ex.wr1(st, 'LEN', po, If(nn, ival(0), ival(-1)) if not is_false(nn) else ival(-1))

def peel(e):
    while e['id'] == 'typecast': e = sub(e)[0]
    return e
def factor(ex, st, fr, e, size):
    """value of byte-count expression e divided by size"""
    v = ex.ev(st, fr, e)
    if isval(v): 
        if v.as_long() % size: return None
        return ival(v.as_long() // size)
    if size == 1: return v
    v = simplify(v)
    # c * x or sum of those
    def div(t):
        if isval(t): return ival(t.as_long() // size) if t.as_long() % size == 0 else None
        if t.decl().kind() == Z3_OP_MUL and t.num_args() >= 2 and isval(t.arg(0)) and t.arg(0).as_long() % size == 0:
            c = t.arg(0).as_long() // size
            rest = t.arg(1)
            for k in range(2, t.num_args()): rest = mulv(rest, t.arg(k))
            return mulv(ival(c), rest)
        if t.decl().kind() == Z3_OP_ADD:
            ds = [div(x) for x in t.children()]
            if any(d is None for d in ds): return None
            r = ds[0]
            for d in ds[1:]: r = add(r, d)
            return r
        if t.decl().kind() == Z3_OP_ITE:
            a, b = div(t.arg(1)), div(t.arg(2))
            return None if a is None or b is None else If(t.arg(0), a, b)
        return None
    d = div(v)
    if d is None: d = v / ival(size)
    return d
@special('memcpy', 'memmove', '__builtin_memcpy', '__builtin_memmove', '__builtin___memcpy_chk', '__builtin___memmove_chk')
def _memcpy(ex, st, fr, i):
    ex.used_trusted.add('memcpy/memmove')
    T = fr.fn.types
    de, se = peel(i.args[0]), peel(i.args[1])
    dt, stt = T.parse(ns(de, 'type')), T.parse(ns(se, 'type'))
    d, s = ex.ev(st, fr, de), ex.ev(st, fr, se)
    def elt(x): return x[1] if x[0] in ('ptr', 'array') else None
    t = elt(dt)
    if t is None or t[0] == 'void': t = elt(stt)
    if t is None or t[0] == 'void': raise Unsupported('memcpy of unknown element type')
    size = T.sizeof(t)
    n = factor(ex, st, fr, i.args[2], size)
    if n is None: raise Unsupported('memcpy size')
    do, di, so, si = PO(d), PI(d), PO(s), PI(s)
    S_(ex, st, fr, 'memcpy source in bounds', Or(n == 0, And(si >= 0, (si + n) * size <= ex.rd1(st, 'LEN', so))))
    S_(ex, st, fr, 'memcpy destination in bounds', Or(n == 0, And(di >= 0, (di + n) * size <= ex.rd1(st, 'LEN', do))))
    lm = leafmaps(ex, T, t, do)
    if is1(n) or lm is None:
        if not is1(n): raise Unsupported('memcpy of several aggregates')
        if t[0] in ('struct', 'union'): ex.store_agg(st, T, t, do, di, ex.load_agg(st, T, t, so, si))
        else:
            m = ex.scalar_map(T, t); ex.wr(st, m, do, di, ex.rd(st, m, so, si))
        return [(st, d)]
    if size == 1: raise Unsupported('memcpy of bytes')
    for m, ft in lm:
        old = ex.sel1(ex.getmap(st, m), do); src = ex.sel1(ex.getmap(st, m), so)
        A = ex.fresh('mc_' + m, ArraySort(I, ex.maps[m]))
        k = Int('k?')
        st.assume(FA([k], A[k] == If(And(k >= di, k < di + n), src[k - di + si], old[k]), [A[k]]))
        ex.setinner(st, m, do, A)
    return [(st, d)]
@special('memset', '__builtin_memset')
def _memset(ex, st, fr, i):
    ex.used_trusted.add('memset')
    T = fr.fn.types
    de = peel(i.args[0]); dt = T.parse(ns(de, 'type'))
    d = ex.ev(st, fr, de); c = ex.ev(st, fr, i.args[1])
    t = dt[1]
    if not (isval(c) and c.as_long() == 0): raise Unsupported('memset to non-zero')
    size = T.sizeof(t); n = factor(ex, st, fr, i.args[2], size)
    if n is None: raise Unsupported('memset size')
    S_(ex, st, fr, 'memset in bounds', Or(n == 0, And(PI(d) >= 0, (PI(d) + n) * size <= ex.rd1(st, 'LEN', PO(d)))))
    if is1(n):
        ex.store_agg(st, T, t, PO(d), PI(d), ex.zero(T, t)) if t[0] in ('struct', 'union') else ex.wr(st, ex.scalar_map(T, t), PO(d), PI(d), ex.zero(T, t))
        return [(st, d)]
    lm = leafmaps(ex, T, t, PO(d))
    if lm is None: raise Unsupported('memset of aggregates')
    for m, ft in lm:
        old = ex.sel1(ex.getmap(st, m), PO(d)); A = ex.fresh('ms_' + m, ArraySort(I, ex.maps[m])); k = Int('k?')
        st.assume(FA([k], A[k] == If(And(k >= PI(d), k < PI(d) + n), dflt(ex, m), old[k]), [A[k]]))
        ex.setinner(st, m, PO(d), A)
    return [(st, d)]

# ---------------------------------------------------------------- strings
def strof(ex, st, fr, p, what):
    S_(ex, st, fr, what + ' of a NULL string', Not(isnull(p)))
    return ex.strval(st, p)
def newstr(ex, st, s):
    o = ex.alloc(st)
    ex.wr1(st, 'LEN', o, slen(s) + 1); ex.wr1(st, 'STR', o, s); st.assume(iskind(o, 'i8'))
    st.assume(slen(s) >= 0)
    return Ptr.mk(o, ival(0))
@lib('strdup', '__strdup', '__builtin_strdup')
def _strdup(ex, st, fr, a, i): return newstr(ex, st, strof(ex, st, fr, a[0], 'strdup'))
@lib('strlen', '__builtin_strlen')
def _strlen(ex, st, fr, a, i):
    s = strof(ex, st, fr, a[0], 'strlen'); v = slen(s); st.assume(v >= 0); st.assume(v < (1 << 48)); return v
@lib('strcmp', '__builtin_strcmp')
def _strcmp(ex, st, fr, a, i): return strcmpF(strof(ex, st, fr, a[0], 'strcmp'), strof(ex, st, fr, a[1], 'strcmp'))
@lib('strcasecmp')
def _strcasecmp(ex, st, fr, a, i): return strcasecmpF(strof(ex, st, fr, a[0], 'strcasecmp'), strof(ex, st, fr, a[1], 'strcasecmp'))
@lib('strncpy', '__builtin_strncpy', '__builtin___strncpy_chk')
def _strncpy(ex, st, fr, a, i):
    S_(ex, st, fr, 'strncpy to NULL', Not(isnull(a[0])))
    s = strof(ex, st, fr, a[1], 'strncpy'); st.assume(slen(s) >= 0)
    r = ex.fresh('strn', Str); st.assume(Implies(slen(s) < a[2], r == s)); st.assume(Implies(And(slen(s) > 0, a[2] > 0), slen(r) > 0))
    ex.wr1(st, 'STR', PO(a[0]), r); return a[0]
@lib('strcpy', '__builtin_strcpy', '__builtin___strcpy_chk')
def _strcpy(ex, st, fr, a, i):
    s = strof(ex, st, fr, a[1], 'strcpy')
    if is0(PI(a[0])):
        S_(ex, st, fr, 'strcpy fits the target', And(Not(isnull(a[0])), PI(a[0]) == 0, ex.rd1(st, 'LEN', PO(a[0])) >= slen(s) + 1))
        ex.wr1(st, 'STR', PO(a[0]), s); return a[0]
    # at the end of a string: appended to it
    cur = ex.rd1(st, 'STR', PO(a[0])); st.assume(slen(s) >= 0)
    S_(ex, st, fr, 'strcpy to the start or the end of a string, within its target', And(Not(isnull(a[0])), Or(PI(a[0]) == 0, PI(a[0]) == slen(cur)), ex.rd1(st, 'LEN', PO(a[0])) >= PI(a[0]) + slen(s) + 1))
    ex.wr1(st, 'STR', PO(a[0]), If(PI(a[0]) == 0, s, cat(cur, s))); return a[0]
strnF = Function('strncasecmpF', Str, Str, I, I)
@lib('strncasecmp', 'strncmp')
def _strncase(ex, st, fr, a, i): return strnF(strof(ex, st, fr, a[0], 'strn'), strof(ex, st, fr, a[1], 'strn'), a[2])
def fmtstr(ex, st, fr, f, args):
    """string produced by printf-style formatting; '%s' copies, anything else is an uninterpreted function of the arguments"""
    o = PO(f)
    txt = None
    if o.decl().name() == 'glob':
        for kk, n in ex.globs.items():
            if kk.startswith('lit:') and n == o.arg(0).as_long(): txt = kk[4:]
    if txt is None: return None
    vals = []
    for a in args:
        if a.sort() == Ptr: vals.append(ex.strval(st, a))
        elif a.sort() == B: vals.append(ex.toint(a))
        else: vals.append(a)
    if txt == '%s' and len(args) == 1:
        S_(ex, st, fr, '%s of a NULL string', Not(isnull(args[0])))
        return vals[0]
    if '%' not in txt: return ex.lit(txt)
    Fn_ = Function('fmt<%s>' % txt.replace('|', '!').replace('\\', '/'), *([v.sort() for v in vals] + [Str]))
    return Fn_(*vals) if vals else ex.lit(txt)
@special('asprintf', '__asprintf_chk', 'apop_asprintf')
def _asprintf(ex, st, fr, i):
    ex.used_trusted.add('asprintf')
    dest = peel(i.args[0])
    aa = i.args[1:]
    f = ex.ev(st, fr, aa[0]); args = [ex.ev(st, fr, x) for x in aa[1:]]
    s = fmtstr(ex, st, fr, f, args)
    if s is None: s = ex.fresh('fmt', Str)
    p = newstr(ex, st, s)
    if dest['id'] == 'address_of': loc, chk = ex.lv(st, fr, sub(dest)[0])
    else: loc, chk = ex.lv(st, fr, {'id': 'dereference', 'sub': [dest], 'namedSub': {'type': sub(ns(dest, 'type'))[0]}})
    ex.store(st, fr, loc, chk, p)
    r = ex.fresh('n', I); st.assume(r == slen(s))
    return [(st, r)]
vfmtF = Function('vfmt', Str, Str)
@special('vasprintf', '__vasprintf_chk')
def _vasprintf(ex, st, fr, i):
    """the formatted text of a format and the caller's variable arguments: an uninterpreted function of the format (one va_list per call)"""
    ex.used_trusted.add('vasprintf')
    dest = peel(i.args[0]); f = ex.ev(st, fr, i.args[1])
    s = vfmtF(strof(ex, st, fr, f, 'vasprintf'))
    p = newstr(ex, st, s)
    if dest['id'] == 'address_of': loc, chk = ex.lv(st, fr, sub(dest)[0])
    else: loc, chk = ex.lv(st, fr, {'id': 'dereference', 'sub': [dest], 'namedSub': {'type': sub(ns(dest, 'type'))[0]}})
    ex.store(st, fr, loc, chk, p)
    return [(st, slen(s))]
@lib('__builtin_va_start', '__builtin_va_end', '__builtin___va_start', '__builtin_va_copy')
def _vastart(ex, st, fr, a, i): return None
@lib('fprintf', 'fflush', 'printf', 'raise', 'fputs', 'puts', 'fputc', 'putchar', 'abort', 'fclose', 'perror')
def _io(ex, st, fr, a, i):
    if i.lhs is None: return None
    v = ex.fresh('io', I); ex.loaded(st, v, ('int', 32, True)); return v

# ---------------------------------------------------------------- misc math
UF1 = {}
@lib('fabs', 'fabsl', '__builtin_fabs')
def _fabs(ex, st, fr, a, i): return If(a[0] >= 0, a[0], -a[0])
@lib('gsl_isnan', '__builtin_isnan', 'isnan', '__isnan', '__isnanl')
def _isnan(ex, st, fr, a, i): return If(isnan(a[0]), ival(1), ival(0))
@lib('gsl_finite', '__builtin_isfinite', 'isfinite', '__finite')
def _fin(ex, st, fr, a, i): return If(Or(isnan(a[0]), a[0] == INFV, a[0] == -INFV), ival(0), ival(1))
@lib('gsl_isinf', '__builtin_isinf_sign', '__isinf')
def _isinf(ex, st, fr, a, i): return If(a[0] == INFV, ival(1), If(a[0] == -INFV, ival(-1), ival(0)))
@lib('__builtin_nanf', '__builtin_nan', 'gsl_nan')
def _nan(ex, st, fr, a, i): return NANV
@lib('__builtin_inff', '__builtin_inf', 'gsl_posinf', '__builtin_huge_val')
def _inf(ex, st, fr, a, i): return INFV
@lib('gsl_neginf')
def _ninf(ex, st, fr, a, i): return -INFV
def mathuf(name, n):
    F = Function(name, *([R] * (n + 1)))
    def h(ex, st, fr, a, i): return F(*[x if x.sort() == R else ToReal(x) for x in a])
    LIB[name] = h
    return F
SQRT = mathuf('sqrt', 1)
for nm in ('sqrtl', 'log', 'exp', 'log10', 'floor', 'ceil', 'cbrt', 'logl', 'expl', 'lgamma'): mathuf(nm, 1)
POW = mathuf('pow', 2); mathuf('powl', 2)
@lib('gsl_pow_2')
def _p2(ex, st, fr, a, i): return a[0] * a[0]
@lib('gsl_pow_3')
def _p3(ex, st, fr, a, i): return a[0] * a[0] * a[0]
@lib('gsl_pow_4')
def _p4(ex, st, fr, a, i): return a[0] * a[0] * a[0] * a[0]
mathuf('gsl_pow_int_', 1)
POWI = Function('gsl_pow_int', R, I, R)
@lib('gsl_pow_int')
def _pi(ex, st, fr, a, i): return POWI(a[0] if a[0].sort() == R else ToReal(a[0]), a[1])
# gsl_stats_*: the mean is the sum of the elements over their number; variance and covariance are fixed functions of the elements
def starr(ex, st, fr, d, stride, n, what):
    S_(ex, st, fr, what + ' of at least one element', n >= 1)
    return (inner(ex, st, PO(d)), PI(d), stride)
@lib('gsl_stats_mean')
def _stm(ex, st, fr, a, i):
    x = starr(ex, st, fr, a[0], a[1], a[2], 'gsl_stats_mean')
    F = Function('sum_x', ArraySort(I, R), I, I, I, R)
    return F(*x, a[2]) / ToReal(a[2])
@lib('gsl_stats_variance')
def _stv(ex, st, fr, a, i): return Function('gsl_variance', ArraySort(I, R), I, I, I, R)(*starr(ex, st, fr, a[0], a[1], a[2], 'gsl_stats_variance'), a[2])
@lib('gsl_stats_variance_m')
def _stvm(ex, st, fr, a, i): return Function('gsl_variance_m', ArraySort(I, R), I, I, I, R, R)(*starr(ex, st, fr, a[0], a[1], a[2], 'gsl_stats_variance_m'), a[2], a[3])
@lib('gsl_stats_covariance')
def _stc(ex, st, fr, a, i): return Function('gsl_covariance', ArraySort(I, R), I, I, ArraySort(I, R), I, I, I, R)(*starr(ex, st, fr, a[0], a[1], a[4], 'gsl_stats_covariance'), *starr(ex, st, fr, a[2], a[3], a[4], 'gsl_stats_covariance'), a[4])
@lib('gsl_max', 'fmax')
def _max(ex, st, fr, a, i): return If(a[0] > a[1], a[0], a[1])
@lib('gsl_min', 'fmin')
def _min(ex, st, fr, a, i): return If(a[0] < a[1], a[0], a[1])
@lib('GSL_MAX_INT')
def _maxi(ex, st, fr, a, i): return If(a[0] > a[1], a[0], a[1])
@lib('GSL_MIN_INT')
def _mini(ex, st, fr, a, i): return If(a[0] < a[1], a[0], a[1])
@lib('gsl_set_error_handler', 'gsl_set_error_handler_off')
def _geh(ex, st, fr, a, i):
    v = ex.fresh('handler', Ptr); ex.loaded(st, v, ('ptr', ('void',))); return v
@lib('pthread_mutex_lock', 'pthread_mutex_unlock', 'omp_get_thread_num', 'omp_get_max_threads')
def _zero(ex, st, fr, a, i): return ival(0)

# ---------------------------------------------------------------- GSL vectors
def mkvec(ex, st, n, zero=False):
    p = Ptr.mk(newobj(ex, st, ival(40)), ival(0))
    blk = Ptr.mk(newobj(ex, st, ival(16)), ival(0))
    d = newobj(ex, st, mulv(ival(8), n))
    for x, k in ((PO(p), 'gsl_vector'), (PO(blk), 'gsl_block_struct'), (d, 'f64')): st.assume(iskind(x, k))
    setf(ex, st, blk, 'gsl_block_struct.size', I, n); setf(ex, st, blk, 'gsl_block_struct.data', Ptr, Ptr.mk(d, ival(0)))
    for (f, s), v in zip(VF, (n, ival(1), Ptr.mk(d, ival(0)), blk, ival(1))): setf(ex, st, p, 'gsl_vector.' + f, s, v)
    if zero: ex.reg_map(F64, R); ex.setinner(st, F64, d, K(I, RealVal(0)))
    return p
def mkmat(ex, st, a, b, zero=False):
    p = Ptr.mk(newobj(ex, st, ival(48)), ival(0))
    blk = Ptr.mk(newobj(ex, st, ival(16)), ival(0))
    d = newobj(ex, st, mulv(ival(8), mulv(a, b)))
    for x, k in ((PO(p), 'gsl_matrix'), (PO(blk), 'gsl_block_struct'), (d, 'f64')): st.assume(iskind(x, k))
    setf(ex, st, blk, 'gsl_block_struct.size', I, mulv(a, b)); setf(ex, st, blk, 'gsl_block_struct.data', Ptr, Ptr.mk(d, ival(0)))
    for (f, s), v in zip(MF, (a, b, b, Ptr.mk(d, ival(0)), blk, ival(1))): setf(ex, st, p, 'gsl_matrix.' + f, s, v)
    if zero: ex.reg_map(F64, R); ex.setinner(st, F64, d, K(I, RealVal(0)))
    return p
@lib('gsl_vector_alloc')
def _va(ex, st, fr, a, i): return mkvec(ex, st, a[0])
@lib('gsl_vector_calloc')
def _vc(ex, st, fr, a, i): return mkvec(ex, st, a[0], True)
@lib('gsl_matrix_alloc')
def _ma(ex, st, fr, a, i): return mkmat(ex, st, a[0], a[1])
@lib('gsl_matrix_calloc')
def _mc(ex, st, fr, a, i): return mkmat(ex, st, a[0], a[1], True)
@lib('gsl_vector_free', 'gsl_matrix_free')
def _vfree(ex, st, fr, a, i):
    p = a[0]; nn = simplify(isnull(p))
    if is_true(nn): return None
    isv = i.fn['namedSub']['identifier']['id'] == 'gsl_vector_free'
    pre = 'gsl_vector.' if isv else 'gsl_matrix.'
    S_(ex, st, fr, 'gsl free of NULL or a live object', Or(nn, ex.rd1(st, 'LEN', PO(p)) > 0))
    own = fld(ex, st, p, pre + 'owner', I); d = fld(ex, st, p, pre + 'data', Ptr)
    ex.assumptions.add('gsl_*_free releases the data block of an owning vector/matrix; a view shares its parent block')
    L = ex.rd1(st, 'LEN', PO(d))
    nd = If(And(Not(nn), own != 0), ival(-1), L)
    ex.wr1(st, 'LEN', PO(d), nd)
    ex.wr1(st, 'LEN', PO(p), If(nn, ival(0), ival(-1)) if not is_false(nn) else ival(-1))
    return None
def vcheck(ex, st, fr, v, i, what):
    S_(ex, st, fr, what + ' index in range', And(i >= 0, i < v.size) if not isval(i) else (i < v.size if i.as_long() >= 0 else BoolVal(False)))
@lib('gsl_vector_get')
def _vget(ex, st, fr, a, i):
    nonnull(ex, st, fr, a[0], 'gsl_vector_get')
    v = V(ex, st, a[0]); vcheck(ex, st, fr, v, a[1], 'gsl_vector_get')
    return rdd(ex, st, v.o, v.cell(a[1]))
@lib('gsl_vector_set')
def _vset(ex, st, fr, a, i):
    nonnull(ex, st, fr, a[0], 'gsl_vector_set')
    v = V(ex, st, a[0]); vcheck(ex, st, fr, v, a[1], 'gsl_vector_set')
    wrd(ex, st, v.o, v.cell(a[1]), a[2])
@lib('gsl_vector_ptr', 'gsl_vector_const_ptr')
def _vptr(ex, st, fr, a, i):
    nonnull(ex, st, fr, a[0], 'gsl_vector_ptr')
    v = V(ex, st, a[0]); vcheck(ex, st, fr, v, a[1], 'gsl_vector_ptr')
    return Ptr.mk(v.o, v.cell(a[1]))
def mcheck(ex, st, fr, m, i, j, what):
    S_(ex, st, fr, what + ' index in range', And(i >= 0, i < m.size1, j >= 0, j < m.size2))
@lib('gsl_matrix_get')
def _mget(ex, st, fr, a, i):
    nonnull(ex, st, fr, a[0], 'gsl_matrix_get')
    m = M(ex, st, a[0]); mcheck(ex, st, fr, m, a[1], a[2], 'gsl_matrix_get')
    return rdd(ex, st, m.o, m.cell(a[1], a[2]))
@lib('gsl_matrix_set')
def _mset(ex, st, fr, a, i):
    nonnull(ex, st, fr, a[0], 'gsl_matrix_set')
    m = M(ex, st, a[0]); mcheck(ex, st, fr, m, a[1], a[2], 'gsl_matrix_set')
    wrd(ex, st, m.o, m.cell(a[1], a[2]), a[3])
@lib('gsl_matrix_ptr', 'gsl_matrix_const_ptr')
def _mptr(ex, st, fr, a, i):
    nonnull(ex, st, fr, a[0], 'gsl_matrix_ptr')
    m = M(ex, st, a[0]); mcheck(ex, st, fr, m, a[1], a[2], 'gsl_matrix_ptr')
    return Ptr.mk(m.o, m.cell(a[1], a[2]))
def svview(ex, st, fr, i, size, stride, o, c, block):
    import sym
    v = sym.SV(size=size, stride=stride, data=Ptr.mk(o, c), block=block, owner=ival(0))
    return sym.SV(vector=v)
def mview(n1, n2, tda, o, c, block):
    import sym
    return sym.SV(matrix=sym.SV(size1=n1, size2=n2, tda=tda, data=Ptr.mk(o, c), block=block, owner=ival(0)))
@lib('gsl_matrix_row', 'gsl_matrix_const_row')
def _mrow(ex, st, fr, a, i):
    nonnull(ex, st, fr, a[0], 'gsl_matrix_row')
    m = M(ex, st, a[0]); S_(ex, st, fr, 'gsl_matrix_row index', And(a[1] >= 0, a[1] < m.size1))
    return svview(ex, st, fr, i, m.size2, ival(1), m.o, m.cell(a[1], ival(0)), fld(ex, st, a[0], 'gsl_matrix.block', Ptr))
@lib('gsl_matrix_column', 'gsl_matrix_const_column')
def _mcol(ex, st, fr, a, i):
    nonnull(ex, st, fr, a[0], 'gsl_matrix_column')
    m = M(ex, st, a[0]); S_(ex, st, fr, 'gsl_matrix_column index', And(a[1] >= 0, a[1] < m.size2))
    return svview(ex, st, fr, i, m.size1, m.tda, m.o, m.cell(ival(0), a[1]), fld(ex, st, a[0], 'gsl_matrix.block', Ptr))
@lib('gsl_vector_subvector', 'gsl_vector_const_subvector')
def _subv(ex, st, fr, a, i):
    nonnull(ex, st, fr, a[0], 'gsl_vector_subvector')
    v = V(ex, st, a[0]); S_(ex, st, fr, 'gsl_vector_subvector range', And(a[1] >= 0, a[2] >= 0, a[1] + If(a[2] > 0, a[2] - 1, ival(0)) < v.size) if not (isval(a[2])) else And(a[1] >= 0, a[1] + a[2] <= v.size))
    return svview(ex, st, fr, i, a[2], v.stride, v.o, v.cell(a[1]), fld(ex, st, a[0], 'gsl_vector.block', Ptr))
@lib('gsl_matrix_submatrix', 'gsl_matrix_const_submatrix')
def _subm(ex, st, fr, a, i):
    nonnull(ex, st, fr, a[0], 'gsl_matrix_submatrix')
    m = M(ex, st, a[0])
    S_(ex, st, fr, 'gsl_matrix_submatrix range', And(a[1] >= 0, a[2] >= 0, a[1] + a[3] <= m.size1, a[2] + a[4] <= m.size2, a[3] >= 0, a[4] >= 0))
    return mview(a[3], a[4], m.tda, m.o, m.cell(a[1], a[2]), fld(ex, st, a[0], 'gsl_matrix.block', Ptr))

def vec_update(ex, st, v, f, tag):
    """v[i] := f(i) for all i; the other cells of the block are untouched"""
    old = inner(ex, st, v.o)
    A = ex.fresh('vu_' + tag, ArraySort(I, R))
    i = Int('i?'); k = Int('k?')
    if is1(v.stride) or (isval(v.stride) and v.stride.as_long() == 1):
        st.assume(FA([k], A[k] == If(And(k >= v.b, k < v.b + v.size), f(subt(k, v.b)), old[k]), [A[k]])) if not is0(v.b) else \
            st.assume(FA([k], A[k] == If(And(k >= 0, k < v.size), f(k), old[k]), [A[k]]))
        if dn(v.b) == 'midx':
            c = v.cell(i)
            st.assume(FA([i], Implies(And(i >= 0, i < v.size), A[c] == f(i)), [A[c]]))
    else:
        c = v.cell(i)
        st.assume(FA([i], Implies(And(i >= 0, i < v.size), A[c] == f(i)), [A[c]]))
        if dn(c) == 'midx':
            mb, mt = c.arg(0), c.arg(1)
            ii, jj = midx_i(mb, mt, k), midx_j(mb, mt, k)
            base = v.b
            i0, j0 = base.arg(2), base.arg(3)
            st.assume(FA([k], A[k] == If(And(midx(mb, mt, ii, j0) == k, ii >= i0, ii < i0 + v.size), f(subt(ii, i0)), old[k]), [A[k]]))
        else:
            q = vidx_i(v.b, v.stride, k)
            st.assume(FA([k], A[k] == If(And(vidx(v.b, v.stride, q) == k, q >= 0, q < v.size), f(q), old[k]), [A[k]]))
    ex.setinner(st, F64, v.o, A)
def mat_update(ex, st, m, f, tag):
    old = inner(ex, st, m.o)
    A = ex.fresh('mu_' + tag, ArraySort(I, R))
    i, j, k = Int('i?'), Int('j?'), Int('k?')
    c = m.cell(i, j)
    st.assume(FA([i, j], Implies(And(i >= 0, i < m.size1, j >= 0, j < m.size2), A[c] == f(i, j)), [A[c]]))
    mb, mt = c.arg(0), c.arg(1)
    i0, j0 = (m.b.arg(2), m.b.arg(3)) if dn(m.b) == 'midx' and m.b.arg(1).eq(m.tda) else (ival(0), ival(0))
    ii, jj = midx_i(mb, mt, k), midx_j(mb, mt, k)
    st.assume(FA([k], A[k] == If(And(midx(mb, mt, ii, jj) == k, ii >= i0, ii < i0 + m.size1, jj >= j0, jj < j0 + m.size2), f(subt(ii, i0), subt(jj, j0)), old[k]), [A[k]]))
    ex.setinner(st, F64, m.o, A)
@lib('gsl_vector_memcpy')
def _vmemcpy(ex, st, fr, a, i):
    nonnull(ex, st, fr, a[0], 'gsl_vector_memcpy'); nonnull(ex, st, fr, a[1], 'gsl_vector_memcpy')
    d, s = V(ex, st, a[0]), V(ex, st, a[1])
    S_(ex, st, fr, 'gsl_vector_memcpy sizes equal', d.size == s.size)
    src = inner(ex, st, s.o)
    vec_update(ex, st, d, lambda k: Select(src, s.cell(k)), 'memcpy')
    return ival(0)
@lib('gsl_matrix_memcpy')
def _mmemcpy(ex, st, fr, a, i):
    nonnull(ex, st, fr, a[0], 'gsl_matrix_memcpy'); nonnull(ex, st, fr, a[1], 'gsl_matrix_memcpy')
    d, s = M(ex, st, a[0]), M(ex, st, a[1])
    S_(ex, st, fr, 'gsl_matrix_memcpy sizes equal', And(d.size1 == s.size1, d.size2 == s.size2))
    src = inner(ex, st, s.o)
    mat_update(ex, st, d, lambda x, y: Select(src, s.cell(x, y)), 'memcpy')
    return ival(0)
@lib('gsl_matrix_transpose_memcpy')
def _mtmemcpy(ex, st, fr, a, i):
    nonnull(ex, st, fr, a[0], 'gsl_matrix_transpose_memcpy'); nonnull(ex, st, fr, a[1], 'gsl_matrix_transpose_memcpy')
    d, s = M(ex, st, a[0]), M(ex, st, a[1])
    S_(ex, st, fr, 'gsl_matrix_transpose_memcpy sizes', And(d.size1 == s.size2, d.size2 == s.size1))
    src = inner(ex, st, s.o)
    mat_update(ex, st, d, lambda x, y: Select(src, s.cell(y, x)), 'transpose')
    return ival(0)
@lib('gsl_matrix_transpose')
def _mtrans(ex, st, fr, a, i):
    nonnull(ex, st, fr, a[0], 'gsl_matrix_transpose')
    d = M(ex, st, a[0])
    S_(ex, st, fr, 'gsl_matrix_transpose square', d.size1 == d.size2)
    src = inner(ex, st, d.o)
    mat_update(ex, st, d, lambda x, y: Select(src, d.cell(y, x)), 'transpose')
    return ival(0)
@lib('gsl_matrix_set_row')
def _msetrow(ex, st, fr, a, i):
    m, v = M(ex, st, a[0]), V(ex, st, a[2])
    S_(ex, st, fr, 'gsl_matrix_set_row', And(a[1] >= 0, a[1] < m.size1, v.size == m.size2))
    src = inner(ex, st, v.o)
    r = rowvec(m, a[1]); vec_update(ex, st, r, lambda k: Select(src, v.cell(k)), 'setrow'); return ival(0)
@lib('gsl_matrix_set_col')
def _msetcol(ex, st, fr, a, i):
    m, v = M(ex, st, a[0]), V(ex, st, a[2])
    S_(ex, st, fr, 'gsl_matrix_set_col', And(a[1] >= 0, a[1] < m.size2, v.size == m.size1))
    src = inner(ex, st, v.o)
    r = colvec(m, a[1]); vec_update(ex, st, r, lambda k: Select(src, v.cell(k)), 'setcol'); return ival(0)
@lib('gsl_matrix_get_row')
def _mgetrow(ex, st, fr, a, i):
    v, m = V(ex, st, a[0]), M(ex, st, a[1])
    S_(ex, st, fr, 'gsl_matrix_get_row', And(a[2] >= 0, a[2] < m.size1, v.size == m.size2))
    src = inner(ex, st, m.o)
    vec_update(ex, st, v, lambda k: Select(src, m.cell(a[2], k)), 'getrow'); return ival(0)
@lib('gsl_matrix_get_col')
def _mgetcol(ex, st, fr, a, i):
    v, m = V(ex, st, a[0]), M(ex, st, a[1])
    S_(ex, st, fr, 'gsl_matrix_get_col', And(a[2] >= 0, a[2] < m.size2, v.size == m.size1))
    src = inner(ex, st, m.o)
    vec_update(ex, st, v, lambda k: Select(src, m.cell(k, a[2])), 'getcol'); return ival(0)
class RV:
    pass
def rowvec(m, r):
    v = RV(); v.o = m.o; v.b = m.cell(r, ival(0)); v.stride = ival(1); v.size = m.size2; v.cell = lambda i: VIDX(v.b, v.stride, i); return v
def colvec(m, c):
    v = RV(); v.o = m.o; v.b = m.cell(ival(0), c); v.stride = m.tda; v.size = m.size1; v.cell = lambda i: VIDX(v.b, v.stride, i); return v
def vecop(name, f):
    def h(ex, st, fr, a, i):
        nonnull(ex, st, fr, a[0], name)
        d = V(ex, st, a[0]); old = inner(ex, st, d.o)
        if len(a) > 1 and a[1].sort() == Ptr:
            s = V(ex, st, a[1]); src = inner(ex, st, s.o)
            S_(ex, st, fr, name + ' sizes equal', d.size == s.size)
            vec_update(ex, st, d, lambda k: f(Select(old, d.cell(k)), Select(src, s.cell(k))), name[-4:])
        else:
            vec_update(ex, st, d, lambda k: f(Select(old, d.cell(k)), a[1] if len(a) > 1 else None), name[-4:])
        return ival(0)
    LIB[name] = h
VMIN, VMAX = (Function(n_, ArraySort(I, R), I, I, I, R) for n_ in ('gsl_vector_min', 'gsl_vector_max'))
def vext(F, nm):
    def h(ex, st, fr, a, i):
        nonnull(ex, st, fr, a[0], nm); v = V(ex, st, a[0]); S_(ex, st, fr, nm + ' of at least one element', v.size >= 1)
        return F(inner(ex, st, v.o), v.b, v.stride, v.size)
    LIB[nm] = h
vext(VMIN, 'gsl_vector_min'); vext(VMAX, 'gsl_vector_max')
MMIN, MMAX = (Function(n_, ArraySort(I, R), I, I, I, I, R) for n_ in ('gsl_matrix_min', 'gsl_matrix_max'))
def mext(F, nm):
    def h(ex, st, fr, a, i):
        nonnull(ex, st, fr, a[0], nm); m = M(ex, st, a[0]); S_(ex, st, fr, nm + ' of at least one element', And(m.size1 >= 1, m.size2 >= 1))
        return F(inner(ex, st, m.o), m.b, m.tda, m.size1, m.size2)
    LIB[nm] = h
mext(MMIN, 'gsl_matrix_min'); mext(MMAX, 'gsl_matrix_max')
@lib('gsl_vector_minmax')
def _vminmax(ex, st, fr, a, i):
    nonnull(ex, st, fr, a[0], 'gsl_vector_minmax'); v = V(ex, st, a[0]); S_(ex, st, fr, 'gsl_vector_minmax of at least one element', v.size >= 1)
    x = inner(ex, st, v.o)
    for p, F in ((a[1], VMIN), (a[2], VMAX)): wrd(ex, st, PO(p), PI(p), F(x, v.b, v.stride, v.size))
SORTED = Function('sorted_elements', ArraySort(I, R), I, I, I, I, R)
@lib('gsl_sort_vector')
def _gsort(ex, st, fr, a, i):
    nonnull(ex, st, fr, a[0], 'gsl_sort_vector'); v = V(ex, st, a[0]); x = inner(ex, st, v.o)
    vec_update(ex, st, v, lambda k: SORTED(x, v.b, v.stride, v.size, k), 'sort')
vecop('gsl_vector_add', lambda x, y: x + y); vecop('gsl_vector_sub', lambda x, y: x - y)
vecop('gsl_vector_mul', lambda x, y: x * y); vecop('gsl_vector_div', lambda x, y: x / y)
vecop('gsl_vector_scale', lambda x, c: x * c); vecop('gsl_vector_add_constant', lambda x, c: x + c)
vecop('gsl_vector_set_all', lambda x, c: c); vecop('gsl_vector_set_zero', lambda x, c: RealVal(0))
def matop(name, f):
    def h(ex, st, fr, a, i):
        nonnull(ex, st, fr, a[0], name)
        d = M(ex, st, a[0]); old = inner(ex, st, d.o)
        mat_update(ex, st, d, lambda x, y: f(Select(old, d.cell(x, y)), a[1] if len(a) > 1 else None), name[-4:])
        return ival(0)
    LIB[name] = h
matop('gsl_matrix_set_all', lambda x, c: c); matop('gsl_matrix_set_zero', lambda x, c: RealVal(0)); matop('gsl_matrix_scale', lambda x, c: x * c)
