"""SMT background theory of the verifier."""
from z3 import *
import fractions

def _mkobj():
    O = Datatype('Obj')
    O.declare('reg', ('regid', IntSort()))
    O.declare('glob', ('globid', IntSort()))
    O.declare('emb', ('embtag', IntSort()), ('embbase', O), ('embidx', IntSort()))
    return O.create()
Obj = _mkobj()
P_ = Datatype('Ptr'); P_.declare('mk', ('obj', Obj), ('idx', IntSort())); Ptr = P_.create()
Str = DeclareSort('Str')
I, R, B = IntSort(), RealSort(), BoolSort()

def ival(n): return IntVal(n)
NULLO = Obj.glob(ival(0))
NULL = Ptr.mk(NULLO, ival(0))

rootid = Function('rootid', Obj, I)
mul = Function('mul', I, I, I)
isnan = Function('isnan', R, B)
NANV = Const('NANV', R)
INFV = Const('INFV', R)
lower = Function('lower', Str, Str)
slen = Function('slen', Str, I)
charat = Function('charat', Str, I, I)
suffix = Function('suffix', Str, I, Str)
charset = Function('charset', Str, I, I, Str)
strcmpF = Function('strcmpF', Str, Str, I)
strcasecmpF = Function('strcasecmpF', Str, Str, I)
p2i = Function('p2i', Ptr, I)
i2p = Function('i2p', I, Ptr)

def FA(vs, body, pats=None):
    vs = list(vs)
    if pats and all(okpat(x) for x in pats) and all(hasvars(x, vs) for x in pats): return ForAll(vs, body, patterns=pats)
    return ForAll(vs, body)
_badpat = {Z3_OP_AND, Z3_OP_OR, Z3_OP_NOT, Z3_OP_ITE, Z3_OP_EQ, Z3_OP_LE, Z3_OP_LT, Z3_OP_GE, Z3_OP_GT, Z3_OP_IMPLIES, Z3_OP_DISTINCT}
def hasvars(x, vs):
    """every bound variable occurs in the pattern"""
    want = {v.get_id() for v in vs}; st = list(x.children()) if isinstance(x, PatternRef) else [x]; seen = set()
    while st and want:
        e = st.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id()); want.discard(e.get_id())
        if is_app(e): st.extend(e.children())
    return not want
def okpat(x):
    seen = set(); st = list(x.children()) if isinstance(x, PatternRef) else [x]
    while st:
        e = st.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if is_quantifier(e): return False
        if is_app(e):
            if e.decl().kind() in _badpat: return False
            st.extend(e.children())
    return True

_o, _b = Const('o!', Obj), Const('b!', Obj)
_i, _j, _k, _t, _s = Ints('i! j! k! t! s!')
_x, _y = Const('x!', Str), Const('y!', Str)
_p = Const('p!', Ptr)

AXIOMS = {
    rootid: [
        FA([_i], Or(rootid(Obj.reg(_i)) == _i), [rootid(Obj.reg(_i))]),
        FA([_i], rootid(Obj.glob(_i)) == 0, [rootid(Obj.glob(_i))]),
        FA([_t, _b, _i], rootid(Obj.emb(_t, _b, _i)) == rootid(_b), [rootid(Obj.emb(_t, _b, _i))]),
        FA([_i], rootid(Obj.reg(_i)) == _i, [Obj.reg(_i)]),
    ],
    mul: [
        FA([_s], mul(ival(0), _s) == 0, [mul(ival(0), _s)]),
        FA([_i, _s], Implies(_i == 0, mul(_i, _s) == 0), [mul(_i, _s)]),
        FA([_i, _s], Implies(_i == 1, mul(_i, _s) == _s), [mul(_i, _s)]),
        FA([_i, _s], Implies(_s == 1, mul(_i, _s) == _i), [mul(_i, _s)]),
        FA([_i, _s], Implies(And(_i >= 0, _s >= 0), mul(_i, _s) >= 0), [mul(_i, _s)]),
        FA([_i, _j, _s], Implies(And(_i < _j, _s >= 0), mul(_i, _s) + _s <= mul(_j, _s)),
           [MultiPattern(mul(_i, _s), mul(_j, _s))]),
        FA([_i, _j, _s], Implies(_j == _i + 1, mul(_j, _s) == mul(_i, _s) + _s),
           [MultiPattern(mul(_i, _s), mul(_j, _s))]),
        FA([_i, _j, _s, _k], Implies(And(_j == 0, _i >= 0), mul(_i, _s) + _j >= 0), [MultiPattern(mul(_i, _s), mul(_j, _k))]) if False else BoolVal(True),
    ],
    isnan: [isnan(NANV)],
    strcmpF: [FA([_x, _y], (strcmpF(_x, _y) == 0) == (_x == _y), [strcmpF(_x, _y)])],
    strcasecmpF: [FA([_x, _y], (strcasecmpF(_x, _y) == 0) == (lower(_x) == lower(_y)), [strcasecmpF(_x, _y)])],
    slen: [FA([_x], slen(_x) >= 0, [slen(_x)])],
    charat: [FA([_x, _i], Implies(And(_i >= 0, _i <= slen(_x)), (charat(_x, _i) == 0) == (_i == slen(_x))), [charat(_x, _i)])],
    lower: [FA([_x], lower(lower(_x)) == lower(_x), [lower(_x)]), FA([_x], slen(lower(_x)) == slen(_x), [lower(_x)])],
    p2i: [FA([_p], (p2i(_p) == 0) == (Ptr.obj(_p) == NULLO), [p2i(_p)])],
}

def PO(p):
    if p.decl().name() == 'mk': return p.arg(0)
    if is_app(p) and p.decl().kind() == Z3_OP_ITE:
        a, b = PO(p.arg(1)), PO(p.arg(2))
        if a.eq(b): return a
        return If(p.arg(0), a, b)
    return Ptr.obj(p)
def PI(p):
    if p.decl().name() == 'mk': return p.arg(1)
    if is_app(p) and p.decl().kind() == Z3_OP_ITE:
        a, b = PI(p.arg(1)), PI(p.arg(2))
        if a.eq(b): return a
        return If(p.arg(0), a, b)
    return Ptr.idx(p)
def mkp(o, i):
    # mk(obj p, idx p) -> p
    if o.decl().name() == 'obj' and is_app(i) and i.decl().name() == 'idx' and i.arg(0).eq(o.arg(0)):
        return o.arg(0)
    return Ptr.mk(o, i)
def isnull(p):
    o = PO(p)
    if o.decl().name() == 'glob':
        return BoolVal(o.arg(0).as_long() == 0) if is_int_value(o.arg(0)) else o == NULLO
    if o.decl().name() in ('reg', 'emb'): return BoolVal(False)
    return o == NULLO

def isval(x): return is_int_value(x)
def add(a, b):
    if isval(a) and isval(b): return ival(a.as_long() + b.as_long())
    if isval(a) and a.as_long() == 0: return b
    if isval(b) and b.as_long() == 0: return a
    # normalise (x + c1) + c2
    if isval(b) and a.decl().kind() == Z3_OP_ADD and a.num_args() == 2 and isval(a.arg(1)):
        return add(a.arg(0), ival(a.arg(1).as_long() + b.as_long()))
    if isval(a): return add(b, a)
    # cancel  (y - x) + x
    return a + b
def subt(a, b):
    if isval(b): return add(a, ival(-b.as_long()))
    if a.eq(b): return ival(0)
    if a.decl().kind() == Z3_OP_ADD and a.num_args() == 2:
        if a.arg(0).eq(b): return a.arg(1)
        if a.arg(1).eq(b): return a.arg(0)
    return a - b
def mulv(a, b):
    if isval(a) and isval(b): return ival(a.as_long() * b.as_long())
    for x, y in ((a, b), (b, a)):
        if isval(x):
            if x.as_long() == 0: return ival(0)
            if x.as_long() == 1: return y
            return x * y
    return mul(a, b)

def mentions(e, names, cache):
    """does term e contain an uninterpreted constant/func whose name is in `names`?"""
    i = e.get_id()
    if i in cache: return cache[i][1]
    r = False
    if is_quantifier(e):
        r = mentions(e.body(), names, cache)
    elif is_app(e):
        d = e.decl()
        if d.kind() == Z3_OP_UNINTERPRETED and d.name() in names: r = True
        else:
            for c in e.children():
                if mentions(c, names, cache): r = True; break
    cache[i] = (e, r)
    return r

def funcs_in(es):
    seen, out = set(), set()
    stack = list(es)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen: continue
        seen.add(i)
        if is_quantifier(e):
            stack.append(e.body())
        elif is_app(e):
            if e.decl().kind() == Z3_OP_UNINTERPRETED:
                out.add(e.decl())
            stack.extend(e.children())
    return out

_FC = {}
def funcs_of(e):
    """uninterpreted declarations in one formula (remembered)"""
    i = e.get_id(); r = _FC.get(i)
    if r is None: r = _FC[i] = (e, frozenset(funcs_in([e])))
    return r[1]
# ---- cell addressing for (strided) vectors and matrices
midx = Function('midx', I, I, I, I, I)      # base, tda, i, j
midx_i = Function('midx_i', I, I, I, I)     # base, tda, cell -> i
midx_j = Function('midx_j', I, I, I, I)
vidx = Function('vidx', I, I, I, I)         # base, stride, i
vidx_i = Function('vidx_i', I, I, I, I)
_bb, _tt, _ii, _jj = Ints('bb! tt! ii! jj!')
AXIOMS[midx] = [
    FA([_bb, _tt, _ii, _jj], midx(_bb, _tt, _ii, _jj) == _bb + mul(_ii, _tt) + _jj, [midx(_bb, _tt, _ii, _jj)]),
    FA([_bb, _tt, _ii, _jj], Implies(And(_jj >= 0, _jj < _tt), And(midx_i(_bb, _tt, midx(_bb, _tt, _ii, _jj)) == _ii,
                                     midx_j(_bb, _tt, midx(_bb, _tt, _ii, _jj)) == _jj)), [midx(_bb, _tt, _ii, _jj)]),
]
AXIOMS[vidx] = [
    FA([_bb, _tt, _ii], vidx(_bb, _tt, _ii) == _bb + mul(_ii, _tt), [vidx(_bb, _tt, _ii)]),
    FA([_bb, _tt, _ii], Implies(_tt >= 1, vidx_i(_bb, _tt, vidx(_bb, _tt, _ii)) == _ii), [vidx(_bb, _tt, _ii)]),
]
def dn(t): return t.decl().name() if is_app(t) else ''
def is0(t): return isval(t) and t.as_long() == 0
def is1(t): return isval(t) and t.as_long() == 1
def VIDX(b, s, i):
    """cell of element i of a vector with data index b and stride s (normalised)"""
    if is0(i): return b
    if dn(b) == 'midx':
        mb, mt, mi, mj = b.children()
        if is1(s): return MIDX(mb, mt, mi, add(mj, i))
        if s.eq(mt): return MIDX(mb, mt, add(mi, i), mj)
    if dn(b) == 'vidx' and b.arg(1).eq(s): return VIDX(b.arg(0), s, add(b.arg(2), i))
    if isval(s): return add(b, mulv(i, s))
    return vidx(b, s, i)
def MIDX(b, t, i, j):
    if dn(b) == 'midx' and b.arg(1).eq(t):
        return MIDX(b.arg(0), t, add(b.arg(2), i), add(b.arg(3), j))
    return midx(b, t, i, j)

# concatenation of strings
cat = Function('cat', Str, Str, Str); EMPTY = Const('EMPTYSTR', Str)
_z = Const('z!', Str)
AXIOMS[EMPTY.decl()] = [slen(EMPTY) == 0, FA([_x], Implies(slen(_x) == 0, _x == EMPTY), [slen(_x)])]
AXIOMS[cat] = [slen(EMPTY) == 0, FA([_x], Implies(slen(_x) == 0, _x == EMPTY), [slen(_x)]), FA([_x, _y], And(slen(cat(_x, _y)) == slen(_x) + slen(_y), Implies(_x == EMPTY, cat(_x, _y) == _y), Implies(_y == EMPTY, cat(_x, _y) == _x)), [cat(_x, _y)]),
    FA([_x, _y, _z], cat(cat(_x, _y), _z) == cat(_x, cat(_y, _z)), [cat(cat(_x, _y), _z)])]

# opt-in lemmas about multiplication (valid for the mathematical product mul stands for)
LEMMAS = {
    'mul_mono2': [FA([_i, _s, _t], Implies(And(_i >= 0, _s <= _t), mul(_i, _s) <= mul(_i, _t)), [MultiPattern(mul(_i, _s), mul(_i, _t))])],
    'mul_100': [FA([_i, _s], Implies(And(_i >= 0, _i <= 100, _s >= 0), mul(_i, _s) <= 100 * _s), [mul(_i, _s)])],
    'mul_comm': [FA([_i, _s], mul(_i, _s) == mul(_s, _i), [mul(_i, _s)])],
}

# allocation type of an object (C type discipline: a block allocated for one type is never used as another)
okind = Function('okind', Obj, I)
_KINDS = {}
def KIND(name):
    if name not in _KINDS: _KINDS[name] = len(_KINDS) + 1
    return ival(_KINDS[name])
def iskind(o, name): return okind(o) == KIND(name)

# ghost: the DJB string hash (mod 2^64) of the first n characters
djbp = Function('djbp', Str, I, I)
U64 = lambda x: If(And(x >= 0, x < (1 << 64)), x, x % (1 << 64))
def djb(s): return djbp(s, slen(s))
AXIOMS[djbp] = [FA([_x], djbp(_x, 0) == 5381, [djbp(_x, 0)]),
                FA([_x, _i], Implies(_i >= 0, djbp(_x, _i + 1) == U64(U64(djbp(_x, _i) * 33) + U64(charat(_x, _i)))), [MultiPattern(djbp(_x, _i), charat(_x, _i))])]
