from spec import *
from access import firstpage, pages, pageix, pgat, npg, pix, pagematch, wfData
from names import okStr, tt
i, j, k = Int('i?'), Int('j?'), Int('k?')
owner = Function('owner', Obj, Obj)     # ghost: the page a block of storage belongs to
def kinds(p):
    e = pgat(p, k); return FA([k], Implies(rng(k, npg(p)), iskind(PO(e), 'apop_data')), [e])
def sep(v, p, q):
    """page q is not on the list of p"""
    e = pgat(p, k); return FA([k], Implies(rng(k, npg(p)), PO(e) != PO(q)), [e])
def samepage(a, b): return And(a.vector == b.vector, a.matrix == b.matrix, a.weights == b.weights, a.names == b.names, a.text == b.text, a.more == b.more)
@contract('apop_data', 'apop_data_add_page', 'dataset newpage title', 'ptr', props=['C09'], units=['apop_name'])
class _:
    def requires(c):
        v = c.old; n = Data(v, c.newpage)
        e = pgat(c.dataset, k)
        return [('list', null_or(c.dataset, And(pages(v, c.dataset), pageix(c.dataset), kinds(c.dataset)))), ('separate page', Or(isnull(c.dataset), isnull(c.newpage), sep(v, c.dataset, c.newpage))),
                ('new page', null_or(c.newpage, And(live(v, c.newpage, 72), PI(c.newpage) == 0, iskind(PO(c.newpage), 'apop_data'), null_or(n.names, And(live(v, n.names, 80), iskind(PO(n.names), 'apop_name'), PI(n.names) == 0, null_or(n.N.title, okStr(v, n.N.title))))))),
                ('title', null_or(c.title, And(okStr(v, c.title), Or(isnull(c.newpage), isnull(n.names), c.title == n.N.title, PO(c.title) != PO(n.N.title)))))]
    def modifies(c):
        n = Data(c.old, c.newpage); ok = Not(isnull(c.newpage)); last = pgat(c.dataset, npg(c.dataset) - 1)
        oldt = And(ok, Not(isnull(c.title)), Not(isnull(n.names)), n.N.title != c.title)
        return [('apop_data.more', [If(And(ok, Not(isnull(c.dataset))), PO(last), NULLO)]), ('apop_data.names', [If(And(ok, isnull(n.names)), PO(c.newpage), NULLO)]),
                ('apop_name.title', ('fresh+', [If(And(oldt), PO(n.names), NULLO)])), ('LEN', ('fresh+', [If(oldt, PO(n.N.title), NULLO)])), ('STR', 'fresh')] + [(f, 'fresh') for f in ('apop_name.vector', 'apop_name.col', 'apop_name.row', 'apop_name.text', 'apop_name.colct', 'apop_name.rowct', 'apop_name.textct', 'apop_name.colhash', 'apop_name.rowhash', 'apop_name.texthash')]
    def ensures(c):
        n, m = Data(c.old, c.newpage), Data(c.new, c.newpage); ok = Not(isnull(c.newpage)); d = c.dataset; e = pgat(d, k); N = npg(d); on = And(ok, Not(isnull(d)))
        return [('no page to add', Implies(Not(ok), isnull(c.ret))), ('the new page is returned', Implies(ok, c.ret == c.newpage)),
                ('under the given title', Implies(And(ok, Not(isnull(c.title))), And(Not(isnull(m.names)), Not(isnull(m.N.title)), c.new.str(m.N.title) == c.old.str(c.title)))),
                ('title kept if none is given', Implies(And(ok, isnull(c.title), Not(isnull(n.names))), And(m.names == n.names, m.N.title == n.N.title))),
                ('after the last page', Implies(on, Data(c.new, pgat(d, N - 1)).more == c.newpage)),
                ('the list keeps its order', Implies(on, FA([k], Implies(rng(k, N - 1), Data(c.new, e).more == pgat(d, k + 1)), [e]))),
                ('the list keeps its contents', Implies(on, FA([k], Implies(rng(k, N), And(Data(c.new, e).vector == Data(c.old, e).vector, Data(c.new, e).matrix == Data(c.old, e).matrix, Data(c.new, e).names == Data(c.old, e).names, Data(c.new, e).text == Data(c.old, e).text, Data(c.new, e).weights == Data(c.old, e).weights)), [e]))),
                ('nothing follows the new page that did not before', Implies(ok, m.more == n.more))]
    def template(L):
        p = L.dataset; out = []; v = L.old
        for nm, key in L.modptrs():
            out.append(('%s is a page' % nm, lambda s, x, key=key: And(rng(pix(p, s.vars[key]), npg(p)), pgat(p, pix(p, s.vars[key])) == s.vars[key])))
        return out

@contract('apop_data', 'apop_data_free_base', 'freeme', 'i32', trusted=True)
class _:
    def requires(c): return [('one page', And(live(c.old, c.freeme, 72), isnull(Data(c.old, c.freeme).more)))]
    def modifies(c): return [('LEN', ('pred', lambda o: owner(o) == PO(c.freeme)))]
    def ensures(c): return [('success', c.ret == 0)]

@contract('apop_data', 'apop_data_rm_page_base', 'data title free_p', 'ptr', props=['C09'])
class _:
    def requires(c):
        e = pgat(c.data, k)
        return [('list', And(pages(c.old, c.data), pageix(c.data))), ('title', wfStr(c.old, c.title)),
                ('ghost: the first match, if there is one', Or(hit(c), FA([k], Implies(And(k >= 1, k < npg(c.data)), Not(pagematch(c.old, e, c.title, ival(ord('c'))))), [e])))]
    def modifies(c):
        M = lambda o: If(hit(c), o, NULLO); q = HITP
        return [('apop_data.more', [M(PO(pgat(c.data, q - 1))), M(PO(pgat(c.data, q)))]), ('LEN', ('pred', lambda o: And(hit(c), c.free_p == ord('y'), owner(o) == PO(pgat(c.data, q)))))]
    def ensures(c):
        d = c.data; N = npg(d); q = HITP; e = pgat(d, k); H = hit(c)
        M = FA([k], Implies(And(k >= 1, k < N), Not(pagematch(c.old, e, c.title, ival(ord('c'))))), [e])
        nx = lambda z: Data(c.new, z).more
        return [('no such page: nothing changes', Implies(M, And(isnull(c.ret), FA([k], Implies(rng(k, N), nx(e) == pgat(d, k + 1)), [e])))),
                ('unlinked', Implies(H, nx(pgat(d, q - 1)) == pgat(d, q + 1))),
                ('all other links stay', Implies(H, FA([k], Implies(And(rng(k, N), k != q - 1, k != q), nx(e) == pgat(d, k + 1)), [e]))),
                ('contents stay', FA([k], Implies(rng(k, N), And(Data(c.new, e).vector == Data(c.old, e).vector, Data(c.new, e).matrix == Data(c.old, e).matrix, Data(c.new, e).names == Data(c.old, e).names, Data(c.new, e).text == Data(c.old, e).text)), [e])),
                ('removed page is handed over alone', Implies(And(H, c.free_p != ord('y')), And(c.ret == pgat(d, q), isnull(nx(c.ret))))), ('freed', Implies(And(H, c.free_p == ord('y')), isnull(c.ret)))]
    def template(L):
        p = L.data; out = []; v = L.old
        for nm, key in L.modptrs():
            out.append(('%s is a page' % nm, lambda s, x, key=key: And(rng(pix(p, s.vars[key]), npg(p)), pgat(p, pix(p, s.vars[key])) == s.vars[key])))
            out.append(('no match up to %s' % nm, lambda s, x, key=key: (lambda e: FA([k], Implies(And(k >= 1, k <= pix(p, s.vars[key])), Not(pagematch(v, e, L.title, ival(ord('c'))))), [e]))(pgat(p, k))))
        return out
HITP = Int('hit_page')   # ghost: the first matching page after the main one, if there is one
def hit(c):
    e = pgat(c.data, k); C = ival(ord('c'))
    return And(HITP >= 1, HITP < npg(c.data), pagematch(c.old, pgat(c.data, HITP), c.title, C), FA([k], Implies(And(k >= 1, k < HITP), Not(pagematch(c.old, e, c.title, C))), [e]))

def infot(c):
    t = c.varad_in['title']; return If(isnull(t), c.lit('<Info>'), c.old.str(t))
def dfl(x, ch): return If(x == 0, ival(ord(ch)), x)
@contract('apop_data', 'variadic_apop_data_rm_page', 'varad_in', 'ptr', props=['C09'])
class _:
    def sub(c): a = c.varad_in; return Sub(c, dict(data=a['data'], title=infot(c), free_p=dfl(a['free_p'], 'y')))
    def requires(c):
        a = c.varad_in; s = _rm.sub(c); e = pgat(s.data, k)
        return [('list', null_or(a['data'], And(pages(c.old, s.data), pageix(s.data)))), ('title', null_or(a['title'], wfStr(c.old, a['title']))),
                ('ghost: the first match, if there is one', Or(isnull(a['data']), hit(s), FA([k], Implies(And(k >= 1, k < npg(s.data)), Not(pagematch(c.old, e, s.title, ival(ord('c'))))), [e])))]
    def modifies(c):
        s = _rm.sub(c); nn = Not(isnull(s.data)); H = And(nn, hit(s)); M = lambda o: If(H, o, NULLO); q = HITP
        return [('apop_data.more', [M(PO(pgat(s.data, q - 1))), M(PO(pgat(s.data, q)))]), ('LEN', ('pred', lambda o: And(H, s.free_p == ord('y'), owner(o) == PO(pgat(s.data, q)))))]
    def ensures(c):
        s = _rm.sub(c); nn = Not(isnull(s.data))
        return [('no data: nothing', Implies(Not(nn), isnull(c.ret)))] + [(l, Implies(nn, f)) for l, f in CONTRACTS['apop_data_rm_page_base']['ensures'](s)]
_rm = _
@contract('apop_data', 'variadic_apop_data_get_page', 'varad_in', 'ptr', props=['C09'])
class _:
    def sub(c): a = c.varad_in; return Sub(c, dict(data=a['data'], title=infot(c), match=dfl(a['match'], 'c')))
    def requires(c):
        a = c.varad_in; s = _gp.sub(c)
        return [('list', null_or(a['data'], And(pages(c.old, s.data), pageix(s.data)))), ('title', null_or(a['title'], wfStr(c.old, a['title'])))]
    def ensures(c):
        s = _gp.sub(c); nn = Not(isnull(s.data)); ok = Or([s.match == ord(x) for x in 'cre'])
        return [('no data or unknown kind of match: nothing', Implies(Or(Not(nn), Not(ok)), isnull(c.ret)))] + [(l, Implies(And(nn, ok), f)) for l, f in firstpage(c.old, s.data, s.title, s.match, c.ret)]
_gp = _
