"""C28: joining a text grid"""
from spec import *
import theory
from theory import cat, EMPTY
i, j, k = Int('i?'), Int('j?'), Int('k?')
ISTR = lambda o: iskind(o, 'i8')
def okS(v, p): return And(Not(isnull(p)), PI(p) == 0, v.len(PO(p)) >= 0, iskind(PO(p), 'i8'), rootid(PO(p)) > 0, v.len(PO(p)) >= slen(v.str(p)) + 1)
def s0(v, p): return If(isnull(p), EMPTY, v.str(p))
@contract('apop_asst', 'apop_tack_on', 'in addme', None, props=['C28'])
class _:
    def requires(c):
        q = c.old.cell('Pi8', Ptr, PO(c.args['in']), PI(c.args['in']))
        return [('target', And(Not(isnull(c.args['in'])), PI(c.args['in']) >= 0, iskind(PO(c.args['in']), 'Pi8'), c.old.len(PO(c.args['in'])) >= 8 * PI(c.args['in']) + 8, null_or(q, okS(c.old, q)))), ('text', null_or(c.addme, And(Not(isnull(c.addme)), PI(c.addme) == 0, c.old.len(PO(c.addme)) >= 0, iskind(PO(c.addme), 'i8')))), ('not itself', Or(isnull(q), PO(q) != PO(c.addme)))]
    def modifies(c):
        q = c.old.cell('Pi8', Ptr, PO(c.args['in']), PI(c.args['in'])); n = isnull(c.addme)
        return [('Pi8', [PO(c.args['in'])]), ('STR', 'fresh'), ('LEN', ('fresh+', [If(n, NULLO, PO(q))]))]
    def ensures(c):
        a = c.args['in']; q, r = c.old.cell('Pi8', Ptr, PO(a), PI(a)), c.new.cell('Pi8', Ptr, PO(a), PI(a)); n = isnull(c.addme)
        return [('nothing to add, nothing changes', Implies(n, r == q)), ('the text is appended', Implies(Not(n), And(okS(c.new, r), c.new.str(r) == cat(s0(c.old, q), c.old.str(c.addme)), rootid(PO(r)) > c.old.top))),
                ('only this string', FA([k], Implies(k != PI(a), c.new.cell('Pi8', Ptr, PO(a), k) == c.old.cell('Pi8', Ptr, PO(a), k)), [c.new.cell('Pi8', Ptr, PO(a), k)]))]
from text import okD, okGrid
from sym import LObj
ROW = Function('paste_row', I, I, Str); PST = Function('paste_rows', I, Str)
def txt(v, p): return And(PI(p) == 0, v.len(PO(p)) >= 0, iskind(PO(p), 'i8'), rootid(PO(p)) > 0)
def grid(v, p):
    D = Data(v, p); r, e = D.trow(i), D.tent(i, j)
    return And(live(v, p, 72), PI(p) == 0, D.rows >= 0, D.rows <= IMAX, D.cols >= 1, D.cols <= IMAX, Implies(D.rows > 0, And(Not(isnull(D.text)), PI(D.text) == 0, v.len(PO(D.text)) >= 8 * D.rows)),
        FA([i], Implies(rng(i, D.rows), And(Not(isnull(r)), PI(r) == 0, v.len(PO(r)) >= 8 * D.cols)), [r]), FA([i, j], Implies(And(rng(i, D.rows), rng(j, D.cols)), And(Not(isnull(e)), txt(v, e))), [e]))
def strlocals(L):
    out = []
    for k, v in L.S.vars.items():
        if isinstance(v, dict): continue
        ident = k.split('#', 1)[1]; nm = ident.split('::')[-1]
        if k in L.args or '$' in nm: continue
        for un in L.ex.prog.units.values():
            sy = un.sym.get(ident)
            if sy and sy.get('type'):
                try: ok = un.types.name(un.types.parse(sy['type'])) == 'Pi8'
                except Exception: ok = False
                if ok and nm not in L.args: out.append((nm, (lambda s, k=k: L.ex.rd(s, 'Pi8', s.vars[k].obj, ival(0)) if isinstance(s.vars[k], LObj) else s.vars[k])))
                break
    return out
@contract('apop_asst', 'apop_text_paste_base', 'strings between before after between_cols prune prune_parameter', 'ptr', props=['C28'], opts=dict(hard_s=60), calluse={})
class _:
    def requires(c):
        v = c.old; D = Data(v, c.strings); n = D.cols
        sep = lambda a, b: cat(a, b)
        return [('text', null_or(c.strings, grid(v, c.strings))), ('delimiters', And([null_or(q, txt(v, q)) for q in (c.before, c.after)] + [And(Not(isnull(q)), txt(v, q)) for q in (c.between, c.between_cols)])), ('nothing pruned', isnull(c.prune)),
                # definition of the two ghost functions: a row's first j cells joined, the first i rows joined
                ('def: a row of one cell', FA([i], ROW(i, 1) == D.tstr(i, 0), [ROW(i, ival(1))])), ('def: and one more cell', FA([i, j], Implies(j >= 1, ROW(i, j + 1) == cat(cat(ROW(i, j), v.str(c.between_cols)), D.tstr(i, j))), [MultiPattern(ROW(i, j), D.tent(i, j))])),
                ('def: no rows', PST(0) == s0(v, c.before)), ('def: one row', PST(1) == cat(s0(v, c.before), ROW(0, n))), ('def: and one more row', FA([i], Implies(i >= 1, PST(i + 1) == cat(cat(PST(i), v.str(c.between)), ROW(i, n))), [MultiPattern(PST(i), ROW(i, n))]))]
    def modifies(c): return [('Pi8', 'fresh'), ('STR', 'fresh'), ('LEN', 'fresh')]
    def ensures(c):
        D = Data(c.old, c.strings); n = If(isnull(c.strings), ival(0), D.rows)
        return [('absent only when there is nothing to join', isnull(c.ret) == And(isnull(c.before), isnull(c.after), n == 0)), ('head, rows in order with their delimiters, tail', Implies(Not(isnull(c.ret)), c.new.str(c.ret) == cat(PST(n), s0(c.old, c.after)))), ('a new string', Implies(Not(isnull(c.ret)), And(rootid(PO(c.ret)) > c.old.top, c.new.len(PO(c.ret)) >= 0)))]
    def template(L):
        v = L.old; out = []; D = Data(v, L.strings); ss = strlocals(L)
        val = lambda s, f: s0(L.view(s), f(s))
        for nm, f in ss:
            out.append(('%s is absent or a string of its own' % nm, lambda s, x, f=f: null_or(f(s), And(okS(L.view(s), f(s)), rootid(PO(f(s))) > v.top))))
            out.append(('%s absent' % nm, lambda s, x, f=f: isnull(f(s))))
            for n2, f2 in ss:
                if n2 <= nm: continue
                out.append(('%s and %s apart' % (nm, n2), lambda s, x, f=f, f2=f2: Or(isnull(f(s)), isnull(f2(s)), PO(f(s)) != PO(f2(s)))))
                out.append(('%s and %s the same text' % (nm, n2), lambda s, x, f=f, f2=f2: And(isnull(f(s)) == isnull(f2(s)), val(s, f) == val(s, f2))))
        for k0, w in L.S.vars.items():
            if isinstance(w, LObj): out.append(('%s keeps its storage' % k0.split('::')[-1], lambda s, x, w=w: L.view(s).len(w.obj) >= 8))
        ints = [(k.split('::')[-1], k) for k, w in L.S.vars.items() if not hasattr(w, 'obj') and hasattr(w, 'sort') and w.sort() == I]
        for nm, key in L.ints():
            out.append(('%s >= 0' % nm, lambda s, x, key=key: s.vars[key] >= 0)); out.append(('%s <= columns' % nm, lambda s, x, key=key: s.vars[key] <= D.cols)); out.append(('%s <= rows' % nm, lambda s, x, key=key: s.vars[key] <= D.rows))
            for n1, f in ss:
                out.append(('%s present after the first %s' % (n1, nm), lambda s, x, key=key, f=f: (s.vars[key] == 0) == isnull(f(s))))
                out.append(('%s absent only at the start of %s without a head' % (n1, nm), lambda s, x, key=key, f=f: isnull(f(s)) == And(isnull(L.before), s.vars[key] <= 1)))
                out.append(('%s absent only before %s without a head' % (n1, nm), lambda s, x, key=key, f=f: isnull(f(s)) == And(isnull(L.before), s.vars[key] < 1)))
                out.append(('%s joins the first %s rows' % (n1, nm), lambda s, x, key=key, f=f: val(s, f) == PST(s.vars[key])))
                out.append(('%s is row %s-1' % (n1, nm), lambda s, x, key=key, f=f: Implies(s.vars[key] >= 1, val(s, f) == ROW(s.vars[key] - 1, D.cols))))
                for i2, k2 in ints:
                    if k2 != key: out.append(('%s joins the first %s cells of row %s' % (n1, nm, i2), lambda s, x, key=key, k2=k2, f=f: Implies(s.vars[key] >= 1, val(s, f) == ROW(s.vars[k2], s.vars[key]))))
                for n2, f2 in ss:
                    if n2 != n1: out.append(('%s then %s join the first %s rows' % (n1, n2, nm), lambda s, x, key=key, f=f, f2=f2: cat(val(s, f), val(s, f2)) == PST(s.vars[key])))
        return out
