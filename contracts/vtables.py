from spec import *
i, j, k, l = Int('i?'), Int('j?'), Int('k?'), Int('l?')

class _Hash:
    def requires(c): return [('string', wfStr(c.old, c.str))]
    def ensures(c): return [('DJB hash of the whole string', c.ret == djb(c.old.str(c.str)))]
    def template(L):
        v = L.old; s0 = v.str(L.str)
        out = []
        for nm, key in L.modptrs():
            out.append(('%s inside the string' % nm, lambda s, x, key=key: And(PI(s.vars[key]) >= 0, PI(s.vars[key]) <= slen(s0), PO(s.vars[key]) == PO(L.str))))
            for n2, k2 in L.ints():
                out.append(('%s is the hash up to %s' % (n2, nm), lambda s, x, key=key, k2=k2: s.vars[k2] == djbp(s0, PI(s.vars[key]))))
        return out
contract('apop_vtables', 'apop_settings_hash', 'str', 'u64', props=['C17'], opts=dict(wrapu=True), allocates=False)(_Hash)

class Tabs:
    """the list of dispatch tables in one state"""
    def __init__(s, c, v): s.v = v; s.L = v.cell('Papop_vtable_s', Ptr, c.ex.glob('var:vtable_list'), ival(0)); s.o = PO(s.L)
    def hn(s, k): return s.v.cell('apop_vtable_s.hashed_name', I, s.o, k)
    def ct(s, k): return s.v.cell('apop_vtable_s.elmt_ct', I, s.o, k)
    def E(s, k): return s.v.cell('apop_vtable_s.elmts', Ptr, s.o, k)
    def h(s, k, i): return s.v.cell('apop_vtable_elmt_s.hash', I, PO(s.E(k)), i)
    def f(s, k, i): return s.v.cell('apop_vtable_elmt_s.fn', Ptr, PO(s.E(k)), i)
    def wf(s, N):
        e = s.E(k); t = s.hn(k)
        return And(PI(s.L) == 0, iskind(s.o, 'apop_vtable_s'), rootid(s.o) > 0, s.v.len(s.o) >= 32 * (N + 1), N >= 0, N < IMAX, s.hn(N) == 0, s.ct(N) == 0,
                   FA([k], Implies(rng(k, N), And(t != 0, s.ct(k) >= 0, s.ct(k) < IMAX, Not(isnull(e)), PI(e) == 0, rootid(PO(e)) > 0, iskind(PO(e), 'apop_vtable_elmt_s'), s.v.len(PO(e)) >= 16 * s.ct(k))), [t], ),
                   FA([k], Implies(rng(k, N), And(t != 0, s.ct(k) >= 0, s.ct(k) < IMAX, Not(isnull(e)), PI(e) == 0, rootid(PO(e)) > 0, iskind(PO(e), 'apop_vtable_elmt_s'), s.v.len(PO(e)) >= 16 * s.ct(k))), [e]),
                   FA([k, l], Implies(And(rng(k, N), rng(l, N), k != l), s.hn(k) != s.hn(l)), [MultiPattern(s.hn(k), s.hn(l))]),
                   FA([k, l], Implies(And(rng(k, N), rng(l, N), k != l), PO(s.E(k)) != PO(s.E(l))), [MultiPattern(s.E(k), s.E(l))]),
                   FA([k, i, j], Implies(And(rng(k, N), rng(i, s.ct(k)), rng(j, s.ct(k)), i != j), s.h(k, i) != s.h(k, j)), [MultiPattern(s.h(k, i), s.h(k, j))]))
NT = Int('number_of_tables')
def hit(t, N, h, key, kk, ii): return And(rng(kk, N), t.hn(kk) == h, rng(ii, t.ct(kk)), t.h(kk, ii) == key)
def missT(t, N, h): return FA([k], Implies(rng(k, N), t.hn(k) != h), [t.hn(k)])
def miss(t, N, h, key): return FA([k, i], Not(hit(t, N, h, key, k, i)), [t.h(k, i)])
def sametab(a, b, kk):
    return And(a.hn(kk) == b.hn(kk), a.ct(kk) == b.ct(kk), FA([i], Implies(rng(i, a.ct(kk)), And(a.h(kk, i) == b.h(kk, i), a.f(kk, i) == b.f(kk, i)))))
def others(a, b, N, keep): return FA([k], Implies(And(rng(k, N), Not(keep(k))), And(a.hn(k) == b.hn(k), a.ct(k) == b.ct(k))))
def otherselems(a, b, N, keep): return FA([k, i], Implies(And(rng(k, N), Not(keep(k)), rng(i, a.ct(k))), And(a.h(k, i) == b.h(k, i), a.f(k, i) == b.f(k, i))))
def pre(c):
    t = Tabs(c, c.old)
    return [('table name', And(wfStr(c.old, c.tabname), djb(c.old.str(c.tabname)) != 0)), ('tables wf', null_or(t.L, t.wf(NT)))]
def tmpl(L):
    t = Tabs(L, L.old); h = djb(L.old.str(L.tabname)); out = []
    cn = 'i32'
    for nm, key in L.modptrs():
        out.append(('%s in the list' % nm, lambda s, x, key=key: And(PO(s.vars[key]) == Tabs(L, L.view(s)).o, PI(s.vars[key]) >= 0)))
        out.append(('%s no further than the sentinel' % nm, lambda s, x, key=key: Implies(Not(isnull(t.L)), PI(s.vars[key]) <= NT)))
        out.append(('no table with this name before %s' % nm, lambda s, x, key=key: FA([k], Implies(And(k >= 0, k < PI(s.vars[key])), Tabs(L, L.view(s)).hn(k) != h), [Tabs(L, L.view(s)).hn(k)])))
        for k2, v2 in L.S.vars.items():
            if k2.endswith('::ctr') and not hasattr(v2, 'obj') and v2.sort() == Ptr:
                out.append(('*ctr counts %s' % nm, lambda s, x, key=key, k2=k2: L.ex.rd(s, 'i32', PO(s.vars[k2]), PI(s.vars[k2])) == PI(s.vars[key])))
    for nm, key in L.ints():
        for n2, k2 in L.locals('Papop_vtable_s'):
            def f(s, x, key=key, k2=k2):
                w = Tabs(L, L.view(s)); kk = PI(s.vars[k2]); e = w.h(kk, i)
                return And(s.vars[key] >= 0, FA([i], Implies(And(i >= 0, i < s.vars[key]), e != L.hash), [e]))
            out.append(('no such key before %s in %s' % (nm, n2), f))
    return out
EK = lambda o: iskind(o, 'apop_vtable_elmt_s')
@contract('apop_vtables', 'apop_vtable_get', 'tabname hash', 'ptr', props=['C17'])
class _:
    requires = pre; template = tmpl
    def modifies(c): return [('i32', [c.ex.glob('var:ignore_me')])]
    def ensures(c):
        t = Tabs(c, c.old); h = djb(c.old.str(c.tabname)); n = Not(isnull(t.L))
        return [('registered function returned', Implies(n, FA([k, i], Implies(hit(t, NT, h, c.hash, k, i), c.ret == t.f(k, i)), [t.h(k, i)]))),
                ('nothing when not registered', Implies(Or(isnull(t.L), miss(t, NT, h, c.hash)), isnull(c.ret)))]
@contract('apop_vtables', 'apop_vtable_drop', 'tabname hash', 'i32', props=['C17'])
class _:
    requires = pre; template = tmpl
    def modifies(c):
        t = Tabs(c, c.old)
        return [('i32', [c.ex.glob('var:ignore_me')]), ('apop_vtable_s.elmt_ct', [t.o]), ('apop_vtable_elmt_s.hash', [EK]), ('apop_vtable_elmt_s.fn', [EK])]
    def ensures(c):
        t = Tabs(c, c.old); u = Tabs(c, c.new); h = djb(c.old.str(c.tabname)); n = Not(isnull(t.L)); key = c.hash
        K, J = Int('removed_table'), Int('removed_place')
        H = And(n, hit(t, NT, h, key, K, J)); M = Or(isnull(t.L), miss(t, NT, h, key))
        return [('not found: nothing changes', Implies(And(M, n), And(c.ret == 1, others(t, u, NT, lambda q: BoolVal(False)), otherselems(t, u, NT, lambda q: BoolVal(False))))),
                ('no tables: reported', Implies(isnull(t.L), c.ret == 1)),
                ('found: reported, one fewer', Implies(H, And(c.ret == 0, u.ct(K) == t.ct(K) - 1, u.hn(K) == h))),
                ('other tables untouched', Implies(H, And(others(t, u, NT, lambda q: q == K), otherselems(t, u, NT, lambda q: q == K)))),
                ('earlier entries stay', Implies(H, FA([i], Implies(And(i >= 0, i < J), And(u.h(K, i) == t.h(K, i), u.f(K, i) == t.f(K, i)))))),
                ('later entries stay', Implies(H, FA([i], Implies(And(i >= J, i < t.ct(K) - 1), And(u.h(K, i) == t.h(K, i + 1), u.f(K, i) == t.f(K, i + 1)))))),
                ('list pointer', u.L == t.L), ('tables stay wf', Implies(n, u.wf(NT)))]
@contract('apop_vtables', 'apop_vtable_add', 'tabname fn_in hash', 'i32', props=['C17'])
class _:
    requires = lambda c: pre(c) + [('room', And(NT < (1 << 24), FA([k], Implies(rng(k, NT), Tabs(c, c.old).ct(k) < (1 << 24)), [Tabs(c, c.old).ct(k)])))]
    template = tmpl
    def modifies(c):
        t = Tabs(c, c.old)
        f = ('fresh+', [t.o]); vl = c.ex.glob('var:vtable_list')
        return [('i32', [c.ex.glob('var:ignore_me')]), ('Papop_vtable_s', [vl]), ('LEN', ('fresh+', [t.o, EK]))] + [('apop_vtable_s.' + x, f) for x in ('name', 'hashed_name', 'elmt_ct', 'elmts')] + [('apop_vtable_elmt_s.hash', 'fresh'), ('apop_vtable_elmt_s.fn', 'fresh')]
    def ensures(c):
        t = Tabs(c, c.old); u = Tabs(c, c.new); h = djb(c.old.str(c.tabname)); n = Not(isnull(t.L)); key = c.hash
        N0 = If(n, NT, ival(0)); no = lambda q: BoolVal(False)
        K, J = Int('table'), Int('place')
        HT = And(n, rng(K, NT), t.hn(K) == h); HE = And(HT, rng(J, t.ct(K)), t.h(K, J) == key)
        ME = And(HT, FA([i], Implies(rng(i, t.ct(K)), t.h(K, i) != key), [t.h(K, i)]))
        MT = Or(isnull(t.L), missT(t, NT, h))
        return [('returns 0', c.ret == 0),
                ('present: nothing changes', Implies(HE, And(others(t, u, NT, no), otherselems(t, u, NT, no), u.L == t.L, u.wf(NT)))),
                ('new key: appended', Implies(ME, And(u.hn(K) == h, u.ct(K) == t.ct(K) + 1, u.h(K, t.ct(K)) == key, u.f(K, t.ct(K)) == c.fn_in))),
                ('new key: the table keeps its entries', Implies(ME, FA([i], Implies(rng(i, t.ct(K)), And(u.h(K, i) == t.h(K, i), u.f(K, i) == t.f(K, i)))))),
                ('new key: other tables untouched', Implies(ME, And(others(t, u, NT, lambda q: q == K), otherselems(t, u, NT, lambda q: q == K)))),
                ('new key: tables stay wf', Implies(ME, u.wf(NT))),
                ('new table', Implies(MT, And(u.hn(N0) == h, u.ct(N0) == 1, u.h(N0, 0) == key, u.f(N0, 0) == c.fn_in))),
                ('new table: the others stay', Implies(And(n, MT), And(others(t, u, NT, no), otherselems(t, u, NT, no)))),
                ('new table: tables stay wf', Implies(MT, u.wf(N0 + 1)))]
