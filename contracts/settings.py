from spec import *
import vtables
i, j, k, l = Int('i?'), Int('j?'), Int('k?'), Int('l?')
CONTRACTS['apop_settings_hash@apop_settings'] = dict(CONTRACTS['apop_settings_hash'], unit='apop_settings', csym='apop_settings_hash', props=['C16'])

class Sets:
    """a model's settings list in one state"""
    def __init__(s, v, m): s.v = v; s.p = v.f(m, 'apop_model.settings', Ptr); s.o = PO(s.p)
    def h(s, q): return s.v.cell('apop_settings_type.name_hash', I, s.o, q)
    def g(s, q): return s.v.cell('apop_settings_type.setting_group', Ptr, s.o, q)
    def cp(s, q): return s.v.cell('apop_settings_type.copy', Ptr, s.o, q)
    def fr(s, q): return s.v.cell('apop_settings_type.free', Ptr, s.o, q)
    def nm(s, q): return s.v.map('STR')[s.v.emb('apop_settings_type.name', s.o, q)]
    def wf(s, n):
        b = And(slen(s.nm(k)) > 0, Not(isnull(s.g(k))), Not(isnull(s.fr(k))))
        return And(PI(s.p) == 0, iskind(s.o, 'apop_settings_type'), rootid(s.o) > 0, n >= 0, n < (1 << 24), s.v.len(s.o) >= 136 * (n + 1), slen(s.nm(n)) == 0,
                   FA([k], Implies(rng(k, n), b), [s.nm(k)]), FA([k], Implies(rng(k, n), b), [s.h(k)]), FA([k], Implies(rng(k, n), b), [s.g(k)]), FA([k], Implies(rng(k, n), b), [s.fr(k)]),
                   FA([k, l], Implies(And(rng(k, n), rng(l, n), k != l), s.h(k) != s.h(l)), [MultiPattern(s.h(k), s.h(l))]))
NS = Int('number_of_settings'); P = Int('place')
def entry(a, x, b, y): return And(a.h(x) == b.h(y), a.g(x) == b.g(y), a.cp(x) == b.cp(y), a.fr(x) == b.fr(y), a.nm(x) == b.nm(y))
def same(a, b, lo, hi, sh=0):
    """entries lo..hi of a equal entries lo+sh.. of b"""
    d = add(i, ival(sh))
    return And([FA([i], Implies(And(i >= lo, i < hi), x == y), [x]) for x, y in ((a.h(i), b.h(d)), (a.g(i), b.g(d)), (a.cp(i), b.cp(d)), (a.fr(i), b.fr(d)), (a.nm(i), b.nm(d)))])
def miss(a, n, h): return FA([k], Implies(rng(k, n), a.h(k) != h), [a.h(k)])
def at(a, n, h): return And(rng(P, n), a.h(P) == h)
# P is a ghost parameter: where the named group is, if it is there
def placed(v, m, h): s = Sets(v, m); return null_or(s.p, Or(miss(s, NS, h), at(s, NS, h)))
# ghost log of calls made through the groups' own function pointers
def G(c): return c.ex.glob('ghost:calls')
def ncalls(c, v): return v.cell('ghost.n', I, G(c), ival(0))
def callfn(c, v, q): return v.cell('ghost.fn', Ptr, G(c), q)
def callarg(c, v, q): return v.cell('ghost.arg', Ptr, G(c), q)
GH = lambda c: [ncalls(c, c.old), callfn(c, c.old, ival(0)), callarg(c, c.old, ival(0))] and [('ghost.n', [G(c)]), ('ghost.fn', [G(c)]), ('ghost.arg', [G(c)])]
def callptr(ex, st, fr, p, args, i):
    """a settings group's destructor or copier: logged; it does not touch the settings list (assumption)"""
    ex.used_trusted.add('calls through a settings group\'s copy/free pointers')
    g = ex.glob('ghost:calls')
    for m, s in (('ghost.n', I), ('ghost.fn', Ptr), ('ghost.arg', Ptr)): ex.reg_map(m, s)
    n = ex.rd(st, 'ghost.n', g, ival(0))
    ex.wr(st, 'ghost.fn', g, n, p); ex.wr(st, 'ghost.arg', g, n, args[0]); ex.wr(st, 'ghost.n', g, ival(0), add(n, ival(1)))
    r = None
    if i.lhs is not None:
        o = ex.alloc(st); r = Ptr.mk(o, ival(0))
        ex.reg_map('ghost.ret', Ptr); ex.wr(st, 'ghost.ret', g, n, r)
    return [(st, r)]
def prefix(c, v):
    n = ncalls(c, c.old)
    return And([FA([k], Implies(k < n, f(c, v, k) == f(c, c.old, k)), [f(c, v, k)]) for f in (callfn, callarg)])
def logged(c, n, fn, arg): return And(ncalls(c, c.new) == ncalls(c, c.old) + n, *([callfn(c, c.new, ncalls(c, c.old)) == fn, callarg(c, c.new, ncalls(c, c.old)) == arg] if n else []))
def mod(v, m): return And(live(v, m, 232), PI(m) == 0, iskind(PO(m), 'apop_model'))
def wfm(c, m, n=NS): s = Sets(c.old, m); return null_or(s.p, s.wf(n))
SF = ['name_hash', 'setting_group', 'copy', 'free']

@contract('apop_settings', 'apop_settings_get_grp', 'm type fail', 'ptr', props=['C16'])
class _:
    def requires(c): return [('model', null_or(c.m, And(mod(c.old, c.m), wfm(c, c.m)))), ('name', wfStr(c.old, c.type))]
    def ensures(c):
        s = Sets(c.old, c.m); h = djb(c.old.str(c.type)); ok = And(Not(isnull(c.m)), Not(isnull(s.p)))
        return [('the group under that name', Implies(ok, FA([k], Implies(And(rng(k, NS), s.h(k) == h), c.ret == s.g(k)), [s.h(k)]))),
                ('nothing otherwise', Implies(Or(Not(ok), miss(s, NS, h)), isnull(c.ret)))]
    def template(L):
        s0 = Sets(L.old, L.m); h = djb(L.old.str(L.type)); out = []
        for nm, key in L.ints():
            out.append(('%s in the list' % nm, lambda s, x, key=key: And(s.vars[key] >= 0, s.vars[key] <= NS)))
            out.append(('no group with this name before %s' % nm, lambda s, x, key=key: FA([k], Implies(And(k >= 0, k < s.vars[key]), s0.h(k) != h), [s0.h(k)])))
        return out

@contract('apop_settings', 'apop_settings_remove_group', 'm delme', None, props=['C16'], callptr=callptr)
class _:
    def requires(c): return [('model', And(mod(c.old, c.m), wfm(c, c.m))), ('name', wfStr(c.old, c.delme)), ('place', placed(c.old, c.m, djb(c.old.str(c.delme))))]
    def modifies(c):
        s = Sets(c.old, c.m); own = lambda o: rootid(o) == rootid(s.o)
        return [('apop_settings_type.' + f, [s.o]) for f in SF] + [('STR', ('pred', lambda o: rootid(o) == rootid(s.o)))] + GH(c)
    def ensures(c):
        a, b = Sets(c.old, c.m), Sets(c.new, c.m); h = djb(c.old.str(c.delme)); n = Not(isnull(a.p))
        M = And(n, miss(a, NS, h)); H = And(n, at(a, NS, h))
        return [('list stays in place', b.p == a.p), ('not there: nothing changes', Implies(M, And(same(b, a, ival(0), NS), b.wf(NS)))),
                ('not there: no destructor', Implies(Or(isnull(a.p), M), logged(c, 0, None, None))),
                ('its destructor, once, on the group', Implies(H, logged(c, 1, a.fr(P), a.g(P)))),
                ('earlier groups stay', Implies(H, same(b, a, ival(0), P))), ('later groups move up', Implies(H, same(b, a, P, NS - 1, 1))), ('still wf', Implies(H, b.wf(NS - 1))), ('gone', Implies(H, miss(b, NS - 1, h))), ('log', prefix(c, c.new))]
    def template(L):
        a = Sets(L.old, L.m); h = djb(L.old.str(L.delme)); out = []; n0 = ncalls(L, L.old)
        A_ = at(a, NS, h); M = miss(a, NS, h)
        def elsewhere(s, x):
            v = L.view(s); o = Const('o?', Obj); S, S0 = v.map('STR'), L.old.map('STR')
            return FA([o], Implies(rootid(o) != rootid(a.o), S[o] == S0[o]), [S[o]])
        out.append(('names elsewhere stay', elsewhere)); out.append(('log', lambda s, x: prefix(L, L.view(s))))
        def shifted(b, hi): return And(same(b, a, ival(0), P), same(b, a, P, hi, 1), same(b, a, hi + 1, NS + 1))
        for nm, key in L.ints():
            out.append(('%s counted in the list' % nm, lambda s, x, key=key: And(s.vars[key] >= 0, s.vars[key] <= NS)))
            for n2, k2 in [x for x in L.locals('i32') if 'ct' in x[0]]:
                pass
            def out1(s, x, key=key):
                v = L.view(s); b = Sets(v, L.m); q = s.vars[key]
                un = And(b.p == a.p, same(b, a, ival(0), NS + 1), ncalls(L, v) == n0, FA([k], Implies(And(k >= 0, k < q), a.h(k) != h), [a.h(k)]), q >= 0, q <= NS)
                sh = And(b.p == a.p, shifted(b, NS), ncalls(L, v) == n0 + 1, callfn(L, v, n0) == a.fr(P), callarg(L, v, n0) == a.g(P), q >= P, q <= NS - 1)
                return And(Implies(M, un), Implies(A_, Or(And(un, q <= P), sh)))
            out.append(('removal state by %s' % nm, out1))
            def in1(s, x, key=key):
                v = L.view(s); b = Sets(v, L.m); q = s.vars[key]
                return And(Implies(A_, And(b.p == a.p, shifted(b, q - 1), q >= P + 1)), q <= NS + 1)
            out.append(('moving up to %s' % nm, in1))
        return out

@contract('apop_settings', 'apop_settings_group_alloc', 'model type free_fn copy_fn the_group', 'ptr', props=['C16'], callptr=callptr)
class _:
    def requires(c): return [('model', And(mod(c.old, c.model), wfm(c, c.model))), ('name', And(wfStr(c.old, c.type), slen(c.old.str(c.type)) > 0, rootid(PO(c.type)) != rootid(Sets(c.old, c.model).o))), ('room', NS < (1 << 20)), ('place', placed(c.old, c.model, djb(c.old.str(c.type)))), ('group', And(Not(isnull(c.the_group)), Not(isnull(c.free_fn))))]
    def modifies(c):
        s = Sets(c.old, c.model)
        return [('apop_model.settings', [PO(c.model)]), ('LEN', ('fresh+', [s.o]))] + [('apop_settings_type.' + f, ('fresh+', [s.o])) for f in SF] + [('STR', ('pred', lambda o: Or(rootid(o) == rootid(s.o), rootid(o) > c.old.top)))] + GH(c)
    def ensures(c):
        a, b = Sets(c.old, c.model), Sets(c.new, c.model); h = djb(c.old.str(c.type)); n = Not(isnull(a.p))
        M = And(n, miss(a, NS, h)); H = And(n, at(a, NS, h)); E_ = isnull(a.p)
        def new(q): return And(b.h(q) == h, b.g(q) == c.the_group, b.cp(q) == c.copy_fn, b.fr(q) == c.free_fn)
        return [('returns the group', c.ret == c.the_group), ('first group', Implies(E_, And(new(ival(0)), b.wf(ival(1)), logged(c, 0, None, None)))),
                ('new name: appended', Implies(M, new(NS))), ('new name: others stay', Implies(M, same(b, a, ival(0), NS))), ('new name: no destructor', Implies(M, logged(c, 0, None, None))), ('new name: wf', Implies(M, b.wf(NS + 1))),
                ('replaced: old one destroyed once', Implies(H, logged(c, 1, a.fr(P), a.g(P)))), ('replaced: earlier groups stay', Implies(H, same(b, a, ival(0), P))), ('replaced: later groups move up', Implies(H, same(b, a, P, NS - 1, 1))),
                ('replaced: new group last', Implies(H, new(NS - 1))), ('replaced: wf', Implies(H, b.wf(NS))), ('log', prefix(c, c.new))]
    def template(L):
        out = []
        for nm, key in L.ints():
            def f(s, x, key=key):
                b = Sets(L.view(s), L.model)
                return FA([k], Implies(And(k >= 0, k < s.vars[key]), slen(b.nm(k)) > 0), [b.nm(k)])
            out.append(('names before %s' % nm, f)); out.append(('%s >= 0' % nm, lambda s, x, key=key: s.vars[key] >= 0))
            for hi in (NS - 1, NS, ival(0)): out.append(('%s <= %s' % (nm, hi), lambda s, x, key=key, hi=hi: s.vars[key] <= hi))
        return out

NSO = Int('number_of_settings_out'); PO_ = Int('place_out')
def outgh(c): return [(NS, NSO), (P, PO_)]
def callret(c, v, q): return v.cell('ghost.ret', Ptr, G(c), q)
@contract('apop_settings', 'apop_settings_copy_group', 'outm inm copyme', None, props=['C16'], callptr=callptr, callghosts={'apop_settings_group_alloc': outgh})
class _:
    def requires(c):
        v = c.old; si, so = Sets(v, c.inm), Sets(v, c.outm); h = djb(v.str(c.copyme))
        nm = And(wfStr(v, c.copyme), rootid(PO(c.copyme)) != rootid(so.o), rootid(PO(c.copyme)) != rootid(si.o))
        return [('models', And(mod(v, c.inm), mod(v, c.outm), PO(c.inm) != PO(c.outm))), ('name', Or(isnull(c.copyme), nm)), ('source', wfm(c, c.inm)), ('place', placed(v, c.inm, h)),
                ('target', And(null_or(so.p, And(so.wf(NSO), rootid(so.o) != rootid(PO(c.inm)))), Implies(Not(isnull(so.p)), Or(miss(so, NSO, h), And(rng(PO_, NSO), so.h(PO_) == h))))), ('room', And(NSO >= 0, NSO < (1 << 20))),
                ('separate', Implies(And(Not(isnull(so.p)), Not(isnull(si.p))), And(rootid(si.o) != rootid(so.o), rootid(si.o) != rootid(PO(c.outm)))))]
    def modifies(c):
        so = Sets(c.old, c.outm); G(c); c.ex.reg_map('ghost.ret', Ptr)
        return [('apop_model.settings', [PO(c.outm)]), ('apop_model.error', [PO(c.outm)]), ('LEN', ('fresh+', [so.o]))] + [('apop_settings_type.' + f, ('fresh+', [so.o])) for f in SF] + [('STR', ('pred', lambda o: Or(rootid(o) == rootid(so.o), rootid(o) > c.old.top)))] + GH(c) + [('ghost.ret', [G(c)])]
    def ensures(c):
        v = c.old; si, a, b, bi = Sets(v, c.inm), Sets(v, c.outm), Sets(c.new, c.outm), Sets(c.new, c.inm); h = djb(v.str(c.copyme)); n0 = ncalls(c, v)
        on = And(Not(isnull(c.copyme)), slen(v.str(c.copyme)) > 0, Not(isnull(si.p)))
        M = And(on, miss(si, NS, h)); H = And(on, at(si, NS, h)); cp = Not(isnull(si.cp(P)))
        gnew = If(cp, callret(c, c.new, n0), si.g(P))
        def new(q): return And(b.h(q) == h, b.g(q) == gnew, b.cp(q) == si.cp(P), b.fr(q) == si.fr(P))
        err = c.new.f(c.outm, 'apop_model.error', I) == 115
        E_ = isnull(a.p); MO = And(Not(E_), miss(a, NSO, h)); HO = And(Not(E_), rng(PO_, NSO), a.h(PO_) == h)
        return [('no such group: error', Implies(M, err)), ('nothing to copy: target unchanged', Implies(Or(Not(on), M), And(b.p == a.p, ncalls(c, c.new) == n0, null_or(a.p, same(b, a, ival(0), NSO))))),
                ('copier called once on the group', Implies(And(H, cp), And(callfn(c, c.new, n0) == si.cp(P), callarg(c, c.new, n0) == si.g(P)))),
                ('calls', Implies(H, ncalls(c, c.new) == n0 + If(cp, 1, 0) + If(HO, 1, 0))),
                ('replaced: old one destroyed', Implies(And(H, HO), (lambda q: And(callfn(c, c.new, q) == a.fr(PO_), callarg(c, c.new, q) == a.g(PO_)))(n0 + If(cp, 1, 0)))),
                ('first group', Implies(And(H, E_), new(ival(0)))), ('appended', Implies(And(H, MO), And(new(NSO), same(b, a, ival(0), NSO)))),
                ('replaced', Implies(And(H, HO), And(new(NSO - 1), same(b, a, ival(0), PO_)))),
                ('source list', Implies(Not(isnull(si.p)), And(bi.p == si.p, same(bi, si, ival(0), NS))))]
    def template(L):
        s0 = Sets(L.old, L.inm); h = djb(L.old.str(L.copyme)); out = []
        for nm, key in L.ints():
            out.append(('%s in the list' % nm, lambda s, x, key=key: And(s.vars[key] >= 0, s.vars[key] <= NS)))
            out.append(('no group with this name before %s' % nm, lambda s, x, key=key: FA([k], Implies(And(k >= 0, k < s.vars[key]), s0.h(k) != h), [s0.h(k)])))
        return out
