from spec import *
i, j, k = Int('i?'), Int('j?'), Int('k?')
def ci(v, a, b): return lower(v.str(a)) == lower(v.str(b))

@contract('apop_name', 'apop_name_hash', 'str', 'u64')
class _:
    def requires(c): return [('string', wfStr(c.old, c.str))]
    def ensures(c): return []

@contract('apop_name', 'apop_name_find', 'n name type', 'i32', props=['C02', 'C10'])
class _:
    def requires(c): return [('names wf', null_or(c.n, wfNames(c.old, c.n))), ('name', null_or(c.name, wfStr(c.old, c.name)))]
    def ensures(c):
        v = c.old; n = Names(v, c.n); r = c.ret
        out = [('range', r >= -2), ('nothing to look for', Implies(Or(isnull(c.name), isnull(c.n)), r == -2))]
        isr = Or(c.type == ord('r'), c.type == ord('R')); ist = Or(c.type == ord('t'), c.type == ord('T')); isc = And(Not(isr), Not(ist))
        ok = And(Not(isnull(c.name)), Not(isnull(c.n)))
        for kk, g in (('r', isr), ('t', ist), ('c', isc)):
            m = lambda x: ci(v, c.name, n.ent(kk, x))
            e = n.ent(kk, i)
            out.append(('%s: found name matches' % kk, Implies(And(ok, g, r >= 0), And(r < n.ct(kk), m(r)))))
            out.append(('%s: not found means no match' % kk, Implies(And(ok, g, r < 0), FA([i], Implies(rng(i, n.ct(kk)), Not(m(i))), [e]))))
            X = Int('exact_position')
            hv = FA([i], Implies(rng(i, n.ct(kk)), v.cell('u64', I, PO(n.hash(kk)), i) == djb(n.str(kk, i))), [v.cell('u64', I, PO(n.hash(kk)), i)])
            out.append(('%s: an identically spelled name has priority' % kk, Implies(And(ok, g, Not(isnull(n.hash(kk))), hv, rng(X, n.ct(kk)), n.str(kk, X) == v.str(c.name)), And(r >= 0, djb(n.str(kk, r)) == djb(v.str(c.name))))))
        vm = And(Not(isnull(n.vector)), ci(v, c.name, n.vector))
        iscc = Or(c.type == ord('c'), c.type == ord('C'))
        out.append(('vector name', Implies(And(ok, r == -1), And(iscc, vm))))
        out.append(('vector name found', Implies(And(ok, r == -2), Not(And(iscc, vm)))))
        return out
    def template(L):
        v = L.old; n = Names(v, L.n)
        out = []
        for nm, key in L.ints():
            for kk in 'rtc':
                e = n.ent(kk, i)
                out.append(('no match before %s in %s' % (nm, kk), lambda s, x, key=key, kk=kk, e=e:
                    FA([i], Implies(And(i >= 0, i < s.vars[key]), lower(v.str(L.name)) != lower(v.str(e))), [e])))
                h = v.cell('u64', I, PO(n.hash(kk)), i)
                out.append(('no match of the hash before %s in %s' % (nm, kk), lambda s, x, key=key, kk=kk, e=e, h=h:
                    FA([i], Implies(And(i >= 0, i < s.vars[key], h == djb(v.str(L.name))), lower(v.str(L.name)) != lower(v.str(e))), [h])))
        return out

# ---------------------------------------------------------------- building name lists (C10)
CONTRACTS['apop_name_hash'].update(ensures=lambda c: [('DJB hash of the whole string', c.ret == djb(c.old.str(c.str)))], opts=dict(wrapu=True), props=['C10'], allocates=False)
def _ht(L):
    s0 = L.old.str(L.str); out = []
    for nm, key in L.modptrs():
        out.append(('%s inside the string' % nm, lambda s, x, key=key: And(PI(s.vars[key]) >= 0, PI(s.vars[key]) <= slen(s0), PO(s.vars[key]) == PO(L.str))))
        for n2, k2 in L.ints(): out.append(('%s is the hash up to %s' % (n2, nm), lambda s, x, key=key, k2=k2: s.vars[k2] == djbp(s0, PI(s.vars[key]))))
    return out
CONTRACTS['apop_name_hash']['template'] = _ht
KS = 'rct'
def okStr(v, p): return And(Not(isnull(p)), PI(p) == 0, v.len(PO(p)) >= 0, iskind(PO(p), 'i8'), rootid(PO(p)) > 0)
def hsh(v, n, k, q): return v.cell('u64', I, PO(n.hash(k)), q)
def okNames(v, p, maxn=IMAX):
    """a names object whose storage is its own: lists, hashes and strings do not overlap"""
    n = Names(v, p); f = [live(v, p, 80), PI(p) == 0, iskind(PO(p), 'apop_name'), rootid(PO(p)) > 0]
    for s in (n.title, n.vector): f.append(null_or(s, okStr(v, s)))
    f.append(Or(isnull(n.title), PO(n.title) != PO(n.vector)))
    for k_ in KS:
        a, h, e = n.arr(k_), n.hash(k_), n.ent(k_, i)
        f += [n.ct(k_) >= 0, n.ct(k_) < maxn, PI(a) == 0, PI(h) == 0,
              null_or(a, And(iskind(PO(a), 'Pi8'), rootid(PO(a)) > 0, v.len(PO(a)) >= 8 * n.ct(k_))), null_or(h, And(iskind(PO(h), 'u64'), rootid(PO(h)) > 0, v.len(PO(h)) >= 8 * n.ct(k_))),
              Implies(n.ct(k_) > 0, And(Not(isnull(a)), Not(isnull(h)))),
              FA([i], Implies(rng(i, n.ct(k_)), And(okStr(v, e), PO(e) != PO(n.title), PO(e) != PO(n.vector))), [e]),
              FA([i], Implies(rng(i, n.ct(k_)), hsh(v, n, k_, i) == djb(n.str(k_, i))), [hsh(v, n, k_, i)])]
    for a_, b_ in (('r', 'c'), ('r', 't'), ('c', 't')):
        f += [Or(isnull(n.arr(a_)), PO(n.arr(a_)) != PO(n.arr(b_))), Or(isnull(n.hash(a_)), PO(n.hash(a_)) != PO(n.hash(b_)))]
    return And(f)
def samelist(a, b, k_, lo, hi):
    """entries lo..hi of kind k_ are the same strings (same storage, same text) in both"""
    return FA([i], Implies(And(i >= lo, i < hi), And(a.ent(k_, i) == b.ent(k_, i), a.str(k_, i) == b.str(k_, i))), [a.ent(k_, i)])
def kindof(t): return [('r', t == ord('r')), ('t', t == ord('t')), ('c', And(t != ord('r'), t != ord('t'), t != ord('h'), t != ord('v')))]
NF = ['title', 'vector'] + [x + y for x in ('row', 'col', 'text') for y in ('', 'ct', 'hash')]
def nmod(v, p):
    n = Names(v, p)
    return [('apop_name.' + f, [PO(p)]) for f in NF] + [('Pi8', 'fresh'), ('u64', 'fresh'), ('STR', 'fresh'), ('LEN', ('fresh+', [PO(n.title), PO(n.vector)] + [PO(n.arr(k_)) for k_ in KS] + [PO(n.hash(k_)) for k_ in KS]))]
@contract('apop_name', 'apop_name_add', 'n add_me type', 'i32', props=['C10'])
class _:
    def requires(c):
        n = Names(c.old, c.n)
        return [('names', okNames(c.old, c.n, IMAX - 1)), ('string', Or(isnull(c.add_me), And(okStr(c.old, c.add_me), PO(c.add_me) != PO(n.title), PO(c.add_me) != PO(n.vector))))]
    def modifies(c): return nmod(c.old, c.n)
    def ensures(c):
        a, b = Names(c.old, c.n), Names(c.new, c.n); s = c.old.str(c.add_me); ok = Not(isnull(c.add_me)); v = c.new
        out = [('NULL: refused', Implies(Not(ok), c.ret == -1)),
               ('title', Implies(And(ok, c.type == ord('h')), And(Not(isnull(b.title)), v.str(b.title) == s, rootid(PO(b.title)) > c.old.top))),
               ('vector name', Implies(And(ok, c.type == ord('v')), And(Not(isnull(b.vector)), v.str(b.vector) == s, rootid(PO(b.vector)) > c.old.top))),
               ('title kept', Implies(Not(And(ok, c.type == ord('h'))), b.title == a.title)), ('vector name kept', Implies(Not(And(ok, c.type == ord('v'))), b.vector == a.vector))]
        for k_, g in kindof(c.type):
            me = And(ok, g); e = b.ent(k_, a.ct(k_))
            out += [('%s: one more, at the end' % k_, Implies(me, And(b.ct(k_) == a.ct(k_) + 1, c.ret == b.ct(k_), v.str(e) == s, rootid(PO(e)) > c.old.top))),
                    ('%s: earlier names stay' % k_, samelist(b, a, k_, ival(0), a.ct(k_))),
                    ('%s: other kinds untouched' % k_, Implies(Not(me), And(b.ct(k_) == a.ct(k_), b.arr(k_) == a.arr(k_), b.hash(k_) == a.hash(k_))))]
        for k_ in KS: out.append(('%s: list kept or new' % k_, And(*[Or(f(b) == f(a), rootid(PO(f(b))) > c.old.top) for f in (lambda z: z.arr(k_), lambda z: z.hash(k_))])))
        return out + [('names stay well formed', okNames(v, c.n))]
def tt(v): return v.top.term() if hasattr(v.top, 'term') else v.top
def sepNames(v, p, q):
    """the storage name_add(p, ...) replaces is not part of q"""
    a, b = Names(v, p), Names(v, q); f = [PO(p) != PO(q)]
    for x in [a.title, a.vector]:
        f += [Or(isnull(x), And([PO(x) != PO(y) for y in (b.title, b.vector)])), Or(isnull(x), And([FA([i], Implies(rng(i, b.ct(k_)), PO(b.ent(k_, i)) != PO(x)), [b.ent(k_, i)]) for k_ in KS]))]
    for k_ in KS:
        for l_ in KS: f += [Or(isnull(a.arr(k_)), PO(a.arr(k_)) != PO(b.arr(l_))), Or(isnull(a.hash(k_)), PO(a.hash(k_)) != PO(b.hash(l_)))]
    return And(f)
TY = (('r', 'r'), ('t', 't'), ('c', 'c'))
def stackens(v, w, p, q, t1, ta):
    """kind t1 of p gained q's kind-ta names at its end; everything else as before"""
    a, b, s = Names(v, p), Names(w, p), Names(v, q); out = []
    lst = Or([ta == ord(x) for x in 'rtc'])
    for k1 in KS:
        g1 = [g for x, g in kindof(t1) if x == k1][0]
        for ka in KS:
            me = And(g1, ta == ord(ka)); n = s.ct(ka)
            out += [('%s onto %s: count' % (ka, k1), Implies(me, b.ct(k1) == a.ct(k1) + n)),
                    ('%s onto %s: appended in order' % (ka, k1), Implies(me, FA([i], Implies(rng(i - a.ct(k1), n), b.str(k1, i) == s.str(ka, i - a.ct(k1))), [b.ent(k1, i)]))),
                    ('%s onto %s: earlier names stay' % (ka, k1), Implies(me, samelist(b, a, k1, ival(0), a.ct(k1))))]
        out.append(('%s: otherwise untouched' % k1, Implies(Or(Not(g1), Not(lst)), And(b.ct(k1) == a.ct(k1), b.arr(k1) == a.arr(k1), b.hash(k1) == a.hash(k1)))))
    for k_ in KS: out.append(('%s: list kept or new' % k_, And(*[Or(f(b) == f(a), rootid(PO(f(b))) > tt(v)) for f in (lambda z: z.arr(k_), lambda z: z.hash(k_))])))
    out += [('vector name', Implies(ta == ord('v'), If(isnull(s.vector), b.vector == a.vector, And(Not(isnull(b.vector)), w.str(b.vector) == v.str(s.vector), rootid(PO(b.vector)) > tt(v))))),
            ('vector name kept', Implies(And(ta != ord('v'), t1 != ord('v')), b.vector == a.vector)), ('title kept', Implies(Or(ta == ord('v'), t1 != ord('h')), b.title == a.title))]
    return out
@contract('apop_name', 'apop_name_stack_base', 'n1 nadd type1 typeadd', None, props=['C10'], time=600)
class _:
    def requires(c):
        v = c.old; a, b = Names(v, c.n1), Names(v, c.nadd)
        return [('names', And(okNames(v, c.n1, IMAX // 2), okNames(v, c.nadd, IMAX // 2 - 1))), ('separate', sepNames(v, c.n1, c.nadd)), ('a list', And(c.type1 != ord('h'), Or(c.type1 != ord('v'), c.typeadd == ord('v'))))]
    def modifies(c): return nmod(c.old, c.n1)
    def ensures(c): return stackens(c.old, c.new, c.n1, c.nadd, c.type1, c.typeadd) + [('names stay well formed', okNames(c.new, c.n1))]
    def template(L):
        v = L.old; a, q = Names(v, L.n1), Names(v, L.nadd); out = []
        out.append(('target wf', lambda s, x: okNames(L.view(s), L.n1)))
        out.append(('target title', lambda s, x: And(Names(L.view(s), L.n1).title == a.title, Names(L.view(s), L.n1).vector == a.vector)))
        reused = [PO(a.title), PO(a.vector)] + [PO(a.arr(k_)) for k_ in KS] + [PO(a.hash(k_)) for k_ in KS]
        def lens(s, x):
            o = Const('o?', Obj); M, M0 = L.view(s).map('LEN'), v.map('LEN')
            return FA([o], Implies(And([rootid(o) <= tt(v)] + [o != y for y in reused]), M[o] == M0[o]), [M[o]])
        out.append(('other storage keeps its extent', lens))
        for k_ in KS:
            out.append(('source strings %s' % k_, lambda s, x, k_=k_: FA([i], Implies(rng(i, q.ct(k_)), okStr(L.view(s), q.ent(k_, i))), [q.ent(k_, i)])))
            g1 = [g for z, g in kindof(L.type1) if z == k_][0]
            out.append(('%s other lists' % k_, lambda s, x, k_=k_, g1=g1: (lambda b: Implies(Not(g1), And(b.ct(k_) == a.ct(k_), b.arr(k_) == a.arr(k_), b.hash(k_) == a.hash(k_))))(Names(L.view(s), L.n1))))
            def own(s, x, k_=k_):
                b = Names(L.view(s), L.n1); o = [q.arr(l) for l in KS] + [q.hash(l) for l in KS] 
                return And([Or(b.arr(k_) == a.arr(k_), rootid(PO(b.arr(k_))) > tt(v)), Or(b.hash(k_) == a.hash(k_), rootid(PO(b.hash(k_))) > tt(v))])
            out.append(('%s list old or new' % k_, own))
            out.append(('%s earlier' % k_, lambda s, x, k_=k_: samelist(Names(L.view(s), L.n1), a, k_, ival(0), a.ct(k_))))
        for nm, key in L.ints():
            out.append(('%s >= 0' % nm, lambda s, x, key=key: s.vars[key] >= 0))
            for ka in KS:
                ta = L.typeadd == ord(ka)
                out.append(('%s <= %s' % (nm, ka), lambda s, x, key=key, ka=ka, ta=ta: Implies(ta, s.vars[key] <= q.ct(ka))))
                for k1 in KS:
                    g1 = And(ta, [g for z, g in kindof(L.type1) if z == k1][0])
                    out.append(('%s: %s %s count' % (nm, k1, ka), lambda s, x, key=key, k1=k1, g1=g1: Implies(g1, Names(L.view(s), L.n1).ct(k1) == a.ct(k1) + s.vars[key])))
                    def app(s, x, key=key, k1=k1, g1=g1, ka=ka):
                        b = Names(L.view(s), L.n1)
                        return Implies(g1, FA([i], Implies(rng(i - a.ct(k1), s.vars[key]), b.str(k1, i) == q.str(ka, i - a.ct(k1))), [b.ent(k1, i)]))
                    out.append(('%s: %s from %s' % (nm, k1, ka), app))
        return out
wrap('apop_name_stack', type1='r', typeadd=lambda c, a: a['type1'])
CONTRACTS['variadic_apop_name_stack']['opts'] = {}
@contract('apop_name', 'apop_name_copy', 'in', 'ptr', props=['C10', 'C01'])
class _:
    def requires(c): return [('names', okNames(c.old, c.args['in'], IMAX // 2 - 1))]
    def ensures(c):
        p = c.args['in']; a, b = Names(c.old, p), Names(c.new, c.ret); v = c.new; out = [('a new object', And(rootid(PO(c.ret)) > c.old.top, Not(isnull(c.ret))))]
        for k_ in KS:
            e = b.ent(k_, i)
            out += [('%s: as many' % k_, b.ct(k_) == a.ct(k_)), ('%s: same, in order' % k_, FA([i], Implies(rng(i, a.ct(k_)), b.str(k_, i) == a.str(k_, i)), [e])),
                    ('%s: own storage' % k_, Implies(a.ct(k_) > 0, And(rootid(PO(b.arr(k_))) > c.old.top, rootid(PO(b.hash(k_))) > c.old.top)))]
        for n_, f in (('title', lambda z: z.title), ('vector name', lambda z: z.vector)):
            out.append((n_, If(isnull(f(a)), isnull(f(b)), And(Not(isnull(f(b))), v.str(f(b)) == c.old.str(f(a)), rootid(PO(f(b))) > c.old.top))))
        return out + [('well formed', okNames(v, c.ret))]
@contract('apop_name', 'apop_name_alloc', '', 'ptr', props=['C10', 'C01'])
class _:
    def requires(c): return []
    def ensures(c):
        n = Names(c.new, c.ret)
        return [('empty', And(okNames(c.new, c.ret), isnull(n.title), isnull(n.vector), n.ct('r') == 0, n.ct('c') == 0, n.ct('t') == 0)), ('new', And(rootid(PO(c.ret)) > c.old.top, PO(c.ret) != NULLO)),
                ('no lists', And([And(isnull(n.arr(x)), isnull(n.hash(x))) for x in 'rct']))]
