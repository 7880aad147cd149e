from spec import *
import theory, fractions
i, j, k, l = Int('i?'), Int('j?'), Int('k?'), Int('l?')
AR = ArraySort(I, R)
# ---- ghost sums: defined by recursion on the number of elements summed.  An element is a[vidx(base, stride, i)].
_a, _w, _u = Const('a!s', AR), Const('w!s', AR), Const('u!s', AR)
_b, _s, _b2, _s2, _b3, _s3, _n = Ints('b!s s!s b2!s s2!s b3!s s3!s n!s')
_m, _p = Reals('m!s p!s')
powint = Function('gsl_pow_int', R, I, R)
LIBX = {}
def ghost(name, vecs, extra, term):
    """name(vec..., extra..., n) = sum over i < n of term(elements, extras)"""
    args = []
    for q in range(vecs): args += [(_a, _b, _s), (_w, _b2, _s2), (_u, _b3, _s3)][q]
    args += extra
    F = Function(name, *([x.sort() for x in args] + [I, R]))
    els = [theory.vidx(args[3*q+1], args[3*q+2], _n) for q in range(vecs)]
    vals = [Select(args[3*q], els[q]) for q in range(vecs)]
    # the pattern names the element read by the program; two spellings of element 0 are the same cell
    ax = [FA(args, F(*args, 0) == 0, [F(*args, ival(0))]),
          FA(args + [_n], Implies(_n >= 0, F(*args, _n + 1) == term(F(*args, _n), vals, extra)), [MultiPattern(F(*args, _n), vals[0])]),
          FA(args + [_n], Implies(_n >= 0, F(*args, _n + 1) == term(F(*args, _n), vals, extra)), [F(*args, _n + 1)])]
    theory.AXIOMS[F] = ax[:2]
    def mk(*vs):
        """vs: vectors (Vec) or (array, base, stride), then extras and n"""
        out = []
        for x in vs:
            if isinstance(x, Vec): out += list(arr(x))
            else: out.append(ival(x) if isinstance(x, int) else x)
        return F(*out)
    return mk
def arr(x): return (Select(x.v.map('f64'), x.o), x.v.pi(x.data), x.stride)
plus = lambda f: lambda acc, v, e: acc + f(v, e)
SX = ghost('sum_x', 1, [], plus(lambda v, e: v[0]))
SWX = ghost('sum_wx', 2, [], plus(lambda v, e: v[0] * v[1]))
SWXX = ghost('sum_wxx', 2, [], plus(lambda v, e: v[0] * v[0] * v[1]))
SWXY = ghost('sum_wxy', 3, [], plus(lambda v, e: v[0] * v[1] * v[2]))
SP3 = ghost('sum_cube', 1, [_m], plus(lambda v, e: (v[0] - e[0]) * (v[0] - e[0]) * (v[0] - e[0])))
SP4 = ghost('sum_fourth', 1, [_m], plus(lambda v, e: (v[0] - e[0]) * (v[0] - e[0]) * (v[0] - e[0]) * (v[0] - e[0])))
SWP = ghost('sum_wpow', 2, [_m, Int('e!s')], plus(lambda v, e: v[1] * powint(v[0] - e[0], e[1])))
SD2 = ghost('sum_sqdiff', 2, [], plus(lambda v, e: (v[0] - v[1]) * (v[0] - v[1])))
rabs = lambda x: If(x >= 0, x, -x)
SD1 = ghost('sum_absdiff', 2, [], plus(lambda v, e: rabs(v[0] - v[1])))
SDM = ghost('max_absdiff', 2, [], lambda acc, v, e: If(acc > rabs(v[0] - v[1]), acc, rabs(v[0] - v[1])))
POW = Function('pow', R, R, R)
SDP = ghost('sum_powdiff', 2, [_p], plus(lambda v, e: POW(rabs(v[0] - v[1]), e[0])))
LOG = Function('logl', R, R)
SEN = ghost('sum_plogp', 1, [_m], lambda acc, v, e: If(v[0] / e[0] == 0, acc, acc - LOG(v[0] / e[0]) * (v[0] / e[0])))
# matrices: row sums, then sums of rows
rowsum = Function('row_sum', AR, I, I, I, I, R); matsum = Function('mat_sum', AR, I, I, I, I, R)
_t, _r, _c = Ints('t!s r!s c!s')
theory.AXIOMS[rowsum] = [FA([_a, _b, _t, _r], rowsum(_a, _b, _t, _r, 0) == 0, [rowsum(_a, _b, _t, _r, ival(0))]),
    FA([_a, _b, _t, _r, _c], Implies(_c >= 0, rowsum(_a, _b, _t, _r, _c + 1) == rowsum(_a, _b, _t, _r, _c) + Select(_a, theory.midx(_b, _t, _r, _c))), [MultiPattern(rowsum(_a, _b, _t, _r, _c), Select(_a, theory.midx(_b, _t, _r, _c)))])]
theory.AXIOMS[matsum] = [FA([_a, _b, _t, _c], matsum(_a, _b, _t, 0, _c) == 0, [matsum(_a, _b, _t, ival(0), _c)]),
    FA([_a, _b, _t, _r, _c], Implies(_r >= 0, matsum(_a, _b, _t, _r + 1, _c) == matsum(_a, _b, _t, _r, _c) + rowsum(_a, _b, _t, _r, _c)), [MultiPattern(matsum(_a, _b, _t, _r, _c), rowsum(_a, _b, _t, _r, _c))])]
def marr(x): return (Select(x.v.map('f64'), x.o), x.v.pi(x.data), x.tda)
SMR = lambda x, r, c: rowsum(*marr(x), r, c)
SM = lambda x, r, c: matsum(*marr(x), r, c)

TR = ToReal
okV = lambda v, p: And(wfVec(v, p), Vec(v, p).size >= 0)
def sums(**kw):
    """candidate invariants: each real local is one of the given running sums up to some counter"""
    def template(L):
        out = []
        fl = [x for t in ('f64', 'f80', 'f128', 'double', 'longdouble') for x in L.locals(t)]
        fl = L.reals()
        for nm, key in fl:
            for cn, ck in L.ints():
                for gn, g in kw.items():
                    out.append(('%s is %s up to %s' % (nm, gn, cn), lambda s, x, key=key, ck=ck, g=g: s.vars[key] == g(L, L.view(s), s.vars[ck])))
        for cn, ck in L.ints(): out.append(('%s >= 0' % cn, lambda s, x, ck=ck: s.vars[ck] >= 0))
        return out
    return template
V_ = lambda L, v, p: Vec(v, L.args[p])

@contract('apop_stats', 'apop_vector_sum', 'in', 'real', props=['C21'])
class _:
    def requires(c): return [('in', null_or(c.args['in'], okV(c.old, c.args['in'])))]
    def ensures(c):
        x = Vec(c.old, c.args['in'])
        return [('NULL sums to zero', Implies(isnull(x.p), c.ret == 0)), ('sum of every element', Implies(x.nonnull, c.ret == SX(x, x.size)))]
    template = sums(sum=lambda L, v, n: SX(V_(L, v, 'in'), n))
@contract('apop_stats', 'apop_matrix_sum', 'm', 'real', props=['C21'])
class _:
    def requires(c): return [('in', null_or(c.m, wfMat(c.old, c.m)))]
    def ensures(c):
        x = Mat(c.old, c.m)
        return [('NULL sums to zero', Implies(isnull(x.p), c.ret == 0)), ('sum of every element', Implies(x.nonnull, c.ret == SM(x, x.size1, x.size2)))]
    def template(L):
        out = []; x = Mat(L.old, L.m)
        for nm, key in L.reals():
            for cn, ck in L.ints():
                out.append(('%s is rows up to %s' % (nm, cn), lambda s, q, key=key, ck=ck: s.vars[key] == SM(x, s.vars[ck], x.size2)))
                for c2, k2 in L.locals('u64') + L.locals('i32'):
                    if k2 == ck: continue
                    out.append(('%s is rows up to %s and row up to %s' % (nm, c2, cn), lambda s, q, key=key, ck=ck, k2=k2: s.vars[key] == SM(x, s.vars[k2], x.size2) + SMR(x, s.vars[k2], s.vars[ck])))
        return out
@contract('apop_stats', 'apop_matrix_mean', 'data', 'real', props=['C20', 'C21'])
class _:
    def requires(c): return [('in', null_or(c.data, And(wfMat(c.old, c.data), Mat(c.old, c.data).size1 * Mat(c.old, c.data).size2 <= IMAX)))]
    def ensures(c):
        x = Mat(c.old, c.data); n = mul(x.size1, x.size2)
        return [('NULL', Implies(isnull(x.p), c.ret == 0)), ('mean of every element', Implies(And(x.nonnull, x.size1 >= 1, x.size2 >= 1), c.ret * TR(n) == SM(x, x.size1, x.size2)))]
    def template(L):
        out = []; x = Mat(L.old, L.data)
        for cn, ck in L.ints():
            out.append(('%s >= 0' % cn, lambda s, q, ck=ck: s.vars[ck] >= 0))
            for c2, k2 in L.locals('u64'):
                if k2 == ck: continue
                out.append(('%s counts rows to %s' % (cn, c2), lambda s, q, ck=ck, k2=k2: s.vars[ck] == mul(s.vars[k2], x.size2)))
                for c3, k3 in L.locals('u64'):
                    if k3 in (ck, k2): continue
                    out.append(('%s counts rows to %s and %s' % (cn, c2, c3), lambda s, q, ck=ck, k2=k2, k3=k3: s.vars[ck] == mul(s.vars[k2], x.size2) + s.vars[k3]))
            for nm, key in L.reals():
                for c2, k2 in L.locals('u64'):
                    if k2 == ck: continue
                    out.append(('%s*%s is rows up to %s' % (nm, cn, c2), lambda s, q, key=key, ck=ck, k2=k2: s.vars[key] * TR(s.vars[ck]) == SM(x, s.vars[k2], x.size2)))
                    for c3, k3 in L.locals('u64'):
                        if k3 in (ck, k2): continue
                        out.append(('%s*%s is rows up to %s and row up to %s' % (nm, cn, c2, c3), lambda s, q, key=key, ck=ck, k2=k2, k3=k3: s.vars[key] * TR(s.vars[ck]) == SM(x, s.vars[k2], x.size2) + SMR(x, s.vars[k2], s.vars[k3])))
        return out

# ---- moments
def vw_req(c, *ps):
    out = [(p, okV(c.old, c.args[p])) for p in ps] + [('weights', null_or(c.weights, okV(c.old, c.weights)))]
    n = Vec(c.old, c.args[ps[0]]).size
    return out + [('sizes', And([n >= 1] + [Vec(c.old, c.args[p]).size == n for p in ps[1:]] + [Or(isnull(c.weights), Vec(c.old, c.weights).size == n)]))]
def WS(c): w = Vec(c.old, c.weights); return SX(w, w.size)
def LENW(c, n): return If(WS(c) < RealVal(str(fractions.Fraction(1.1))), TR(n), WS(c))
def vw_wrap(fn, *ps):
    """the named-argument form: NaN for absent, empty or mismatched input, otherwise the base function's result"""
    b = CONTRACTS[fn + '_base']
    def args(c): return Sub(c, {p: c.varad_in[p] for p in b['params']})
    def good(q):
        n = Vec(q.c.old, q.args[ps[0]]).size; w = q.args['weights']
        return And([Not(isnull(q.args[p])) for p in ps] + [n >= 1] + [Vec(q.c.old, q.args[p]).size == n for p in ps[1:]] + [Or(isnull(w), Vec(q.c.old, w).size == n)])
    c = dict(unit=b['unit'], fn='variadic_' + fn, params=['varad_in'], rettype='real', props=b['props'])
    c['requires'] = lambda c: [(p, null_or(c.varad_in[p], okV(c.old, c.varad_in[p]))) for p in b['params']]
    c['ensures'] = lambda c: [('invalid input gives NaN', Implies(Not(good(args(c))), c.ret == NANV))] + [(l_, Implies(good(args(c)), f)) for l_, f in b['ensures'](args(c))]
    if 'opts' in b: c['opts'] = b['opts']
    CONTRACTS['variadic_' + fn] = c
@contract('apop_stats', 'apop_vector_mean_base', 'v weights', 'real', props=['C20'])
class _:
    def requires(c): return vw_req(c, 'v')
    def ensures(c):
        v, w = Vec(c.old, c.v), Vec(c.old, c.weights); n = v.size
        return [('unweighted', Implies(isnull(c.weights), c.ret == SX(v, n) / TR(n))), ('weighted', Implies(w.nonnull, c.ret == SWX(v, w, n) / SX(w, n)))]
    template = sums(weights=lambda L, v, n: SX(V_(L, v, 'weights'), n), wx=lambda L, v, n: SWX(V_(L, v, 'v'), V_(L, v, 'weights'), n))
vw_wrap('apop_vector_mean', 'v')
gvar = Function('gsl_variance', AR, I, I, I, R); gcov = Function('gsl_covariance', AR, I, I, AR, I, I, I, R)
@contract('apop_stats', 'apop_vector_var_base', 'v weights', 'real', props=['C20'])
class _:
    def requires(c): return vw_req(c, 'v')
    def ensures(c):
        v, w = Vec(c.old, c.v), Vec(c.old, c.weights); n = v.size; W = SX(w, n); L = LENW(c, n); mu = SWX(v, w, n) / W
        return [('unweighted', Implies(isnull(c.weights), c.ret == gvar(*arr(v), n))), ('weighted', Implies(And(w.nonnull, W != 0, L != 1), c.ret == (SWXX(v, w, n) / W - mu * mu) * L / (L - 1)))]
    template = sums(weights=lambda L, v, n: SX(V_(L, v, 'weights'), n), wx=lambda L, v, n: SWX(V_(L, v, 'v'), V_(L, v, 'weights'), n), wxx=lambda L, v, n: SWXX(V_(L, v, 'v'), V_(L, v, 'weights'), n))
vw_wrap('apop_vector_var', 'v')
@contract('apop_stats', 'apop_vector_cov_base', 'v1 v2 weights', 'real', props=['C20'])
class _:
    def requires(c): return vw_req(c, 'v1', 'v2')
    def ensures(c):
        a, b, w = Vec(c.old, c.v1), Vec(c.old, c.v2), Vec(c.old, c.weights); n = a.size; W = SX(w, n); L = LENW(c, n)
        return [('unweighted', Implies(isnull(c.weights), c.ret == gcov(*arr(a), *arr(b), n))),
                ('weighted', Implies(And(w.nonnull, W != 0, L != 1), c.ret == (SWXY(a, b, w, n) / W - (SWX(a, w, n) * SWX(b, w, n)) / (W * W)) * (L / (L - 1))))]
    template = sums(weights=lambda L, v, n: SX(V_(L, v, 'weights'), n), w1=lambda L, v, n: SWX(V_(L, v, 'v1'), V_(L, v, 'weights'), n), w2=lambda L, v, n: SWX(V_(L, v, 'v2'), V_(L, v, 'weights'), n), w12=lambda L, v, n: SWXY(V_(L, v, 'v1'), V_(L, v, 'v2'), V_(L, v, 'weights'), n))
vw_wrap('apop_vector_cov', 'v1', 'v2')
def meanof(c): v, w = Vec(c.old, c.v), Vec(c.old, c.weights); n = v.size; return If(isnull(c.weights), SX(v, n) / TR(n), SWX(v, w, n) / SX(w, n))
for _nm, _e, _S in (('skew', 3, SP3), ('kurtosis', 4, SP4)):
    def _mk(e, S, nm):
        @contract('apop_stats', 'apop_vector_%s_pop_base' % nm, 'v weights', 'real', props=['C20'])
        class _:
            def requires(c): return vw_req(c, 'v')
            def ensures(c):
                v, w = Vec(c.old, c.v), Vec(c.old, c.weights); n = v.size
                return [('unweighted', Implies(isnull(c.weights), c.ret * TR(n) == S(v, meanof(c), n))), ('weighted', Implies(w.nonnull, c.ret == SWP(v, w, meanof(c), e, n) / SX(w, n)))]
            def template(L):
                out = []; v, w = Vec(L.old, L.v), Vec(L.old, L.weights)
                fl = [kk for nm_, kk in L.locals('f80') + L.locals('f64') + L.locals('f128')]
                for nm_, key in L.reals():
                    for cn, ck in L.ints():
                        out.append(('%s*%s is the sum' % (nm_, cn), lambda s, x, key=key, ck=ck: s.vars[key] * TR(s.vars[ck]) == S(v, SX(v, v.size) / TR(v.size), s.vars[ck])))
                        out.append(('%s is the weighted sum to %s' % (nm_, cn), lambda s, x, key=key, ck=ck: s.vars[key] == SWP(v, w, SWX(v, w, v.size) / SX(w, v.size), e, s.vars[ck])))
                        out.append(('%s is the weights to %s' % (nm_, cn), lambda s, x, key=key, ck=ck: s.vars[key] == SX(w, s.vars[ck])))
                for cn, ck in L.ints(): out.append(('%s >= 0' % cn, lambda s, x, ck=ck: s.vars[ck] >= 0))
                return out
        vw_wrap('apop_vector_%s_pop' % nm, 'v')
    _mk(_e, _S, _nm)
SQRT = Function('sqrt', R, R)
@contract('apop_stats', 'apop_vector_correlation_base', 'ina inb weights', 'real', props=['C20'])
class _:
    def requires(c): return vw_req(c, 'ina', 'inb')
    def ensures(c):
        def call(fn, **a): return CONTRACTS[fn]['ensures'](Sub(c, a))
        cv, va, vb = Real('cov?'), Real('va?'), Real('vb?')
        a, b, w = Vec(c.old, c.ina), Vec(c.old, c.inb), Vec(c.old, c.weights); n = a.size; W = SX(w, n); L = LENW(c, n); f = L / (L - 1)
        var = lambda x: If(isnull(c.weights), gvar(*arr(x), n), (SWXX(x, w, n) / W - (SWX(x, w, n) / W) * (SWX(x, w, n) / W)) * L / (L - 1))
        cov = If(isnull(c.weights), gcov(*arr(a), *arr(b), n), (SWXY(a, b, w, n) / W - (SWX(a, w, n) * SWX(b, w, n)) / (W * W)) * f)
        return [('covariance over the standard deviations', Implies(Or(isnull(c.weights), And(W != 0, L != 1)), c.ret == cov / SQRT(var(a) * var(b))))]

# ---- distances
@contract('apop_stats', 'apop_vector_distance_base', 'ina inb metric norm', 'real', props=['C21'])
class _:
    def requires(c): return [('a', okV(c.old, c.ina)), ('b', okV(c.old, c.inb))]
    def ensures(c):
        a, b = Vec(c.old, c.ina), Vec(c.old, c.inb); n = a.size; m = lambda x: Or(c.metric == ord(x), c.metric == ord(x.upper())); eq = a.size == b.size
        diff = And(rng(i, n), a.get(i) != b.get(i))
        return [('sizes differ', Implies(Not(eq), c.ret == NANV)), ('Euclidean', Implies(And(eq, m('e')), c.ret == SQRT(SD2(a, b, n)))), ('Manhattan', Implies(And(eq, m('m')), c.ret == SD1(a, b, n))),
                ('discrete', Implies(And(eq, m('d')), Or(And(c.ret == 0, FA([i], Implies(rng(i, n), a.get(i) == b.get(i)), [a.get(i)])), And(c.ret == 1, Exists([i], diff))))),
                ('sup', Implies(And(eq, m('s')), c.ret == SDM(a, b, n))), ('Lp', Implies(And(eq, m('l')), c.ret == POW(SDP(a, b, c.norm, n), 1 / c.norm))),
                ('unknown metric', Implies(And(eq, Not(Or([m(x) for x in 'emdsl']))), c.ret == NANV))]
    def template(L):
        out = sums(sq=lambda L, v, n: SD2(V_(L, v, 'ina'), V_(L, v, 'inb'), n), ab=lambda L, v, n: SD1(V_(L, v, 'ina'), V_(L, v, 'inb'), n), mx=lambda L, v, n: SDM(V_(L, v, 'ina'), V_(L, v, 'inb'), n), lp=lambda L, v, n: SDP(V_(L, v, 'ina'), V_(L, v, 'inb'), L.norm, n))(L)
        a, b = Vec(L.old, L.ina), Vec(L.old, L.inb)
        for cn, ck in L.ints(): out.append(('equal to %s' % cn, lambda s, x, ck=ck: FA([i], Implies(rng(i, s.vars[ck]), a.get(i) == b.get(i)), [a.get(i)])))
        return out
@contract('apop_stats', 'apop_vector_entropy', 'in', 'real', props=['C21'])
class _:
    def requires(c): return [('in', null_or(c.args['in'], And(okV(c.old, c.args['in']))))]
    def ensures(c):
        x = Vec(c.old, c.args['in']); n = x.size; S = SX(x, n)
        return [('empty', Implies(Or(isnull(x.p), n == 0, S == 0), c.ret == 0)), ('negative total', Implies(And(x.nonnull, n > 0, S < 0), c.ret == NANV)),
                ('negative element', Implies(And(x.nonnull, n > 0, S > 0, Not(FA([i], Implies(rng(i, n), x.get(i) / S >= 0), [x.get(i)]))), c.ret == NANV)),
                ('entropy', Implies(And(x.nonnull, n > 0, S > 0, FA([i], Implies(rng(i, n), x.get(i) / S >= 0), [x.get(i)])), c.ret == SEN(x, S, n)))]
    def template(L):
        x = Vec(L.old, L.args['in']); out = []; S = SX(x, x.size)
        for cn, ck in L.ints():
            out.append(('%s >= 0' % cn, lambda s, q, ck=ck: s.vars[ck] >= 0))
            out.append(('nonnegative to %s' % cn, lambda s, q, ck=ck: FA([i], Implies(rng(i, s.vars[ck]), x.get(i) / S >= 0), [x.get(i)])))
            for nm, key in L.reals(): out.append(('%s is the sum to %s' % (nm, cn), lambda s, q, key=key, ck=ck: s.vars[key] == SEN(x, S, s.vars[ck])))
        return out
@contract('apop_linear_algebra', 'apop_vector_bounded_base', 'in max', 'i32', props=['C21'])
class _:
    def requires(c): return [('in', okV(c.old, c.args['in']))]
    def ensures(c):
        x = Vec(c.old, c.args['in']); e = x.get(i); bad = lambda e: Or(isnan(e), e == INFV, e == -INFV, e > c.max, e < -c.max)
        return [('bounded', Implies(c.ret != 0, FA([i], Implies(rng(i, x.size), Not(bad(e))), [e]))), ('not bounded', Implies(c.ret == 0, Exists([i], And(rng(i, x.size), bad(e))))), ('0 or 1', Or(c.ret == 0, c.ret == 1))]
    def template(L):
        x = Vec(L.old, L.args['in']); e = x.get(i); bad = lambda e: Or(isnan(e), e == INFV, e == -INFV, e > L.max, e < -L.max)
        return [('bounded to %s' % cn, lambda s, q, ck=ck: FA([i], Implies(rng(i, s.vars[ck]), Not(bad(e))), [e])) for cn, ck in L.ints()]
@contract('apop_hist', 'apop_vector_moving_average', 'v bandwidth', 'ptr', props=['C21'])
class _:
    def requires(c): return [('v', null_or(c.v, okV(c.old, c.v))), ('bandwidth', c.bandwidth <= IMAX)]
    def modifies(c): return [(f, 'fresh') for f in ('gsl_vector.size', 'gsl_vector.stride', 'gsl_vector.data', 'gsl_vector.block', 'gsl_vector.owner', 'f64', 'LEN')]
    def ensures(c):
        v, r = Vec(c.old, c.v), Vec(c.new, c.ret); h = c.bandwidth / 2; n = v.size - 2 * h; ok = And(v.nonnull, c.bandwidth >= 1, v.size > 2 * h)
        a, b, s = arr(v)
        return [('NULL', Implies(isnull(c.v), isnull(c.ret))), ('wider than the vector', Implies(And(v.nonnull, c.bandwidth >= 1, v.size <= 2 * h), isnull(c.ret))),
                ('size', Implies(ok, And(Not(isnull(c.ret)), r.size == n))),
                ('each element is the mean of its window', Implies(ok, FA([i], Implies(rng(i, n), r.get(i) * TR(2 * h + 1) == SX(v, i + 2 * h + 1) - SX(v, i)), [r.get(i)])))]
    def template(L):
        v = Vec(L.old, L.v); h = L.bandwidth / 2; out = []
        vs = [q for nm, q in L.locals('Pgsl_vector') if nm != 'v']
        for cn, ck in L.ints():
            out.append(('%s >= -half' % cn, lambda s, q, ck=ck: s.vars[ck] >= -h))
            out.append(('%s <= half + 1' % cn, lambda s, q, ck=ck: s.vars[ck] <= h + 1))
            for ok_ in vs:
                out.append(('averages to %s' % cn, lambda s, q, ck=ck, ok_=ok_: (lambda r: FA([i], Implies(rng(i, s.vars[ck]), r.get(i) * TR(2 * h + 1) == SX(v, i + 2 * h + 1) - SX(v, i)), [r.get(i)]))(Vec(L.view(s), s.vars[ok_]))))
                out.append(('zero from %s' % cn, lambda s, q, ck=ck, ok_=ok_: (lambda r: FA([i], Implies(And(i >= s.vars[ck], i < r.size), r.get(i) == 0), [r.get(i)]))(Vec(L.view(s), s.vars[ok_]))))
                for c2, k2 in L.locals('u64') + L.locals('i32'):
                    if k2 == ck: continue
                    out.append(('window of %s up to %s' % (c2, cn), lambda s, q, ck=ck, ok_=ok_, k2=k2: (lambda r: And(s.vars[ck] + h >= 0, r.get(s.vars[k2]) == SX(v, s.vars[k2] + s.vars[ck] + h) - SX(v, s.vars[k2])))(Vec(L.view(s), s.vars[ok_]))))
                    out.append(('other averages stay (%s, %s)' % (c2, cn), lambda s, q, ok_=ok_, k2=k2: (lambda r, r0: FA([i], Implies(And(rng(i, r.size), i != s.vars[k2]), r.get(i) == r0.get(i)), [r.get(i)]))(Vec(L.view(s), s.vars[ok_]), Vec(L.pre, s.vars[ok_]))))
        return out

VMIN, VMAX = (Function(n_, AR, I, I, I, R) for n_ in ('gsl_vector_min', 'gsl_vector_max'))
@contract('apop_stats', 'apop_vector_normalize_base', 'in out normalization_type', None, props=['C21'])
class _:
    def requires(c):
        p = c.args['in']
        return [('in', And(okV(c.old, p), Vec(c.old, p).size >= 1)), ('out', null_or(c.out, And(live(c.old, c.out, 8), PI(c.out) == 0, rootid(PO(c.out)) > 0, iskind(PO(c.out), 'Pgsl_vector')))), ('out cell', c.old.cell('Pgsl_vector', Ptr, PO(c.out), ival(0)) == c.old.cell('Pgsl_vector', Ptr, PO(c.out), ival(0)))]
    def modifies(c):
        x = Vec(c.old, c.args['in'])
        return [('f64', ('fresh+', [If(isnull(c.out), x.o, NULLO)])), ('Pgsl_vector', [PO(c.out)]), ('LEN', 'fresh')] + [(f, 'fresh') for f in ('gsl_vector.size', 'gsl_vector.stride', 'gsl_vector.data', 'gsl_vector.block', 'gsl_vector.owner')]
    def ensures(c):
        p = c.args['in']; a = Vec(c.old, p); r = Vec(c.new, If(isnull(c.out), p, c.new.cell('Pgsl_vector', Ptr, PO(c.out), ival(0)))); n = a.size; t = lambda x: c.normalization_type == ord(x)
        e = r.get(i); g = a.get(i); h = rng(i, n); S = SX(a, n); mu = S / TR(n); mn, mx = VMIN(*arr(a), n), VMAX(*arr(a), n); fin = lambda x: Not(Or(isnan(x), x == INFV, x == -INFV))
        return [('same size', r.size == n), ('sum to one', Implies(And(t('p'), S != 0), FA([i], Implies(h, e == g * (1 / S)), [e]))), ('sum is zero: unchanged', Implies(And(t('p'), S == 0), FA([i], Implies(h, e == g), [e]))),
                ('range zero to one', Implies(And(t('r')), FA([i], Implies(h, e == (g - mn) * (1 / (mx - mn))), [e]))),
                ('mean zero', Implies(And(t('m'), fin(mu)), FA([i], Implies(h, e == g - mu), [e]))),
                ('standard: the centred elements times one factor', Implies(And(t('s'), fin(mu)), FA([i, j], Implies(And(h, rng(j, n)), e * (a.get(j) - mu) == r.get(j) * (g - mu)), [MultiPattern(e, r.get(j))]))),
                ('the input is kept when another vector is filled', Implies(Not(isnull(c.out)), And(PO(Vec(c.new, p).data) == a.o, FA([i], Implies(h, Vec(c.new, p).get(i) == g), [Vec(c.new, p).get(i)]))))]
SORTED = Function('sorted_elements', AR, I, I, I, I, R)      # the k-th smallest element: depends on the elements only, not on where they are stored
sdif = Function('sorted_differ_at', AR, I, I, AR, I, I, I, I)
_d = sdif(_a, _b, _s, _w, _b2, _s2, _n)
theory.AXIOMS[SORTED] = [FA([_a, _b, _s, _w, _b2, _s2, _n, _t, _c], Or(And(_d >= 0, _d < _n, Select(_a, theory.vidx(_b, _s, _d)) != Select(_w, theory.vidx(_b2, _s2, _d))), SORTED(_a, _b, _s, _n, _t) == SORTED(_w, _b2, _s2, _n, _t)),
    [MultiPattern(SORTED(_a, _b, _s, _n, _t), SORTED(_w, _b2, _s2, _n, _c))])]
@contract('apop_stats', 'apop_vector_percentiles_base', 'data rounding', 'ptr', props=['C21'], opts=dict(lemmas=['mul_100']))
class _:
    def requires(c): return [('data', And(okV(c.old, c.data), Vec(c.old, c.data).size >= 1))]
    def modifies(c): return [('f64', 'fresh'), ('LEN', 'fresh')] + [(f, 'fresh') for f in ('gsl_vector.size', 'gsl_vector.stride', 'gsl_vector.data', 'gsl_vector.block', 'gsl_vector.owner')]
    def ensures(c):
        return [('101 entries', And(Not(isnull(c.ret)), PI(c.ret) == 0, c.new.len(PO(c.ret)) >= 808)), ('each entry', pctl(c, c.new, c.ret, ival(101)))]
    def template(L):
        out = []
        for cn, ck in L.ints():
            out.append(('%s >= 0' % cn, lambda s, q, ck=ck: s.vars[ck] >= 0))
            for nm, pk in L.locals('Pf64'):
                out.append(('entries to %s' % cn, lambda s, q, ck=ck, pk=pk: pctl(L, L.view(s), s.vars[pk], s.vars[ck])))
        return out
def pctl(c, v, p, upto):
    x = Vec(c.old, c.data); n = x.size; e = v.cell('f64', R, PO(p), i); S = lambda q: SORTED(*arr(x), n, q); f = mul(i, n - 1) / 100; ex = mul(i, n - 1) % 100 == 0
    return FA([i], Implies(rng(i, upto), e == If(Or(ex, And(c.rounding != ord('u'), c.rounding != ord('a'))), S(f), If(c.rounding == ord('u'), S(f + 1), (S(f) + S(f + 1)) / 2))), [e])

wrap('apop_vector_normalize', normalization_type='p')
wrap('apop_vector_percentiles', rounding='d')
