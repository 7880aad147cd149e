from spec import *
from names import okStr, tt
import names
i, j, k, l = Int('i?'), Int('j?'), Int('k?'), Int('l?')
rowof, colof = Function('rowof', Obj, I), Function('colof', Obj, I)
def nul(c, v=None): return (v or c.old).cell('Pi8', Ptr, c.ex.glob('var:apop_nul_string'), ival(0))
def NOBJ(c): return c.ex.glob('var:apop_nul_string')
def okNul(c, v): n = nul(c, v); return And(Not(isnull(n)), PI(n) == 0, v.len(PO(n)) >= 0, rootid(PO(n)) == 0)
MAXT = 1 << 30
def okGrid(c, v, p, R_=None, C_=None, inj=True):
    """the text grid of p is R x C live rows of live strings; cells are either the shared blank or a string of their own"""
    d = Data(v, p); t = d.text; Rr = d.rows if R_ is None else R_; Cc = d.cols if C_ is None else C_; e = d.tent(i, j); r = d.trow(i); n = nul(c, v)
    f = [Rr >= 0, Rr < MAXT, Cc >= 0, Cc < MAXT, (Rr == 0) == (Cc == 0), PI(t) == 0, null_or(t, And(iskind(PO(t), 'PPi8'), rootid(PO(t)) > 0, v.len(PO(t)) >= 8 * Rr, v.len(PO(t)) >= 0)), Implies(isnull(t), Rr == 0),
         FA([i], Implies(rng(i, Rr), And(Not(isnull(r)), PI(r) == 0, iskind(PO(r), 'Pi8'), rootid(PO(r)) > 0, v.len(PO(r)) >= 8 * Cc)), [r]),
         FA([i, j], Implies(And(rng(i, Rr), rng(j, Cc)), Or(e == n, And(okStr(v, e), PO(e) != PO(n)))), [e])]
    if inj:
        f += [FA([i], Implies(rng(i, Rr), rowof(PO(r)) == i), [r]), FA([i, j], Implies(And(rng(i, Rr), rng(j, Cc), e != n), And(rowof(PO(e)) == i, colof(PO(e)) == j)), [e])]
    return And(f)
def pairs(c, v, p):
    d = Data(v, p); n = nul(c, v)
    return And(FA([i, k], Implies(And(rng(i, d.rows), rng(k, d.rows), i != k), PO(d.trow(i)) != PO(d.trow(k))), [MultiPattern(d.trow(i), d.trow(k))]))
def okD(v, p): return And(live(v, p, 72), PI(p) == 0, iskind(PO(p), 'apop_data'), rootid(PO(p)) > 0)
def samecells(a, b, lo_i, hi_i, lo_j, hi_j):
    return FA([i, j], Implies(And(i >= lo_i, i < hi_i, j >= lo_j, j < hi_j), And(a.tent(i, j) == b.tent(i, j), a.tstr(i, j) == b.tstr(i, j))), [a.tent(i, j)])

@contract('apop_data', 'apop_text_blank', 'in row col', None, props=['C08'])
class _:
    def requires(c):
        p = c.args['in']; d = Data(c.old, p)
        return [('data', okD(c.old, p)), ('blank', okNul(c, c.old)), ('grid', okGrid(c, c.old, p)), ('cell', And(rng(c.row, d.rows), rng(c.col, d.cols)))]
    def modifies(c):
        d = Data(c.old, c.args['in']); e = d.tent(c.row, c.col)
        return [('Pi8', [PO(d.trow(c.row))]), ('LEN', [PO(e)])]
    def ensures(c):
        p = c.args['in']; a, b = Data(c.old, p), Data(c.new, p)
        return [('that cell is blank', b.tent(c.row, c.col) == nul(c)),
                ('every other cell stays', FA([i, j], Implies(And(rng(i, a.rows), rng(j, a.cols), Or(i != c.row, j != c.col)), And(b.tent(i, j) == a.tent(i, j), b.tstr(i, j) == a.tstr(i, j))), [b.tent(i, j)])),
                ('grid', okGrid(c, c.new, p))]

@contract('apop_data', 'apop_text_set', 'in row col fmt', 'i32', props=['C08'])
class _:
    def requires(c):
        p = c.args['in']
        return [('data', null_or(p, And(okD(c.old, p), okGrid(c, c.old, p)))), ('blank', okNul(c, c.old)), ('format', null_or(c.fmt, wfStr(c.old, c.fmt))),
                ('nan string', okStr(c.old, NS_(c, c.old)))]
    def modifies(c):
        d = Data(c.old, c.args['in']); e = d.tent(c.row, c.col); ok = And(Not(isnull(d.p)), rng(c.row, d.rows), rng(c.col, d.cols))
        return [('Pi8', [If(ok, PO(d.trow(c.row)), NULLO)]), ('LEN', ('fresh+', [If(And(ok, e != nul(c)), PO(e), NULLO)])), ('STR', 'fresh')]
    def ensures(c):
        p = c.args['in']; a, b = Data(c.old, p), Data(c.new, p); ok = And(Not(isnull(p)), rng(c.row, a.rows), rng(c.col, a.cols)); e = b.tent(c.row, c.col)
        return [('refused outside the grid', Implies(Not(ok), c.ret == -1)), ('accepted inside', Implies(ok, c.ret == 0)),
                ('the formatted text', Implies(And(ok, Not(isnull(c.fmt))), c.new.str(e) == vfmt(c.old.str(c.fmt)))),
                ('the not-a-number text', Implies(And(ok, isnull(c.fmt)), c.new.str(e) == c.old.str(NS_(c, c.old)))),
                ('a string of its own', Implies(ok, And(okStr(c.new, e), rootid(PO(e)) > tt(c.old)))),
                ('every other cell stays', Implies(Not(isnull(p)), FA([i, j], Implies(And(rng(i, a.rows), rng(j, a.cols), Or(Not(ok), i != c.row, j != c.col)), And(b.tent(i, j) == a.tent(i, j), b.tstr(i, j) == a.tstr(i, j))), [b.tent(i, j)]))),
                ('sizes stay', And(b.rows == a.rows, b.cols == a.cols, b.text == a.text)), ('grid', null_or(p, okGrid(c, c.new, p, inj=False)))]
def NS_(c, v): return v.f(Ptr.mk(c.ex.glob('var:apop_opts'), ival(0)), 'apop_opts_type.nan_string', Ptr)
vfmt = Function('vfmt', Str, Str)
def nulmods(c): return []
def cellsame(a, b, i0, j0): return And(a.tent(i0, j0) == b.tent(i0, j0), a.tstr(i0, j0) == b.tstr(i0, j0))

o_ = Const('o?', Obj)
@contract('apop_data', 'apop_text_alloc', 'in row col', 'ptr', props=['C08'], time=2400, units=['apop_name'])
class _:
    def requires(c):
        p = c.args['in']
        return [('data', null_or(p, And(okD(c.old, p), okGrid(c, c.old, p)))), ('blank', okNul(c, c.old)), ('size', And(c.row < MAXT, c.col < MAXT))]
    def modifies(c):
        p = c.args['in']; d = Data(c.old, p); ts = c.old.emb('apop_data.textsize', PO(p), PI(p)); n = nul(c)
        cellof = lambda o: And(iskind(o, 'i8'), o != PO(n))
        return [('apop_data.text', ('fresh+', [PO(p)])), ('u64', ('fresh+', [ts])), ('apop_data.error', ('fresh+', [PO(p)])), ('PPi8', ('fresh+', [PO(d.text)])), ('Pi8', 'fresh'), ('LEN', ('pred', lambda o: Or(rootid(o) > tt(c.old), o == PO(d.text), iskind(o, 'Pi8'), cellof(o))))]
    def ensures(c):
        p = c.args['in']; a, b = Data(c.old, p), Data(c.new, c.ret); n = nul(c); R, C = c.row, c.col; bad = (R == 0) != (C == 0)
        R0, C0 = If(isnull(p), ival(0), a.rows), If(isnull(p), ival(0), a.cols)
        e = b.tent(i, j)
        return [('impossible size refused', Implies(bad, And(c.ret == p, null_or(p, And(b.rows == a.rows, b.cols == a.cols, b.text == a.text))))),
                ('same data set', Implies(Not(isnull(p)), c.ret == p)), ('a data set if there was none', Implies(Not(bad), Not(isnull(c.ret)))),
                ('requested size', Implies(Not(bad), And(b.rows == R, b.cols == C))),
                ('kept cells', Implies(Not(bad), FA([i, j], Implies(And(rng(i, R0), i < R, rng(j, C0), j < C), And(e == a.tent(i, j), b.tstr(i, j) == a.tstr(i, j))), [e]))),
                ('new cells are blank', Implies(Not(bad), FA([i, j], Implies(And(rng(i, R), rng(j, C), Or(i >= R0, j >= C0)), e == n), [e]))),
                ('grid', Implies(Not(bad), okGrid(c, c.new, c.ret, inj=False))), ('rows are distinct', Implies(Not(bad), pairs(c, c.new, c.ret))), ('blank', okNul(c, c.new))]
    def template(L):
        p = L.args['in']; v = L.old; d0 = Data(v, p); R, C = L.row, L.col; n = nul(L, v); out = []; NP = isnull(p)
        R0, C0 = d0.rows, d0.cols; m = If(R0 < R, R0, R); mc = If(C0 < C, C0, C); LM = lambda w: w.map('LEN'); L0 = LM(v); LS = LM(L.pre)
        def P(s):
            # the data set: the argument, or the one allocated here
            q = [k_ for nm, k_ in L.locals('Papop_data') if nm == 'in']
            return s.vars[q[0]] if q else p
        D_ = lambda s: Data(L.view(s), P(s)); DS = Data(L.pre, P(L.S))
        def same(s, cond, base, x=o_): return FA([x], Implies(cond(x), LM(L.view(s))[x] == base[x]), [LM(L.view(s))[x]])
        i8 = lambda o: And(iskind(o, 'i8'), o != PO(n))
        live_ = Not(NP)
        out.append(('kept strings stay live', lambda s, x: Implies(live_, same(s, lambda o: And(i8(o), rootid(o) <= tt(v), rowof(o) < R, colof(o) < C), L0))))
        out.append(('only strings are freed', lambda s, x: same(s, lambda o: Not(i8(o)), LS)))
        out.append(('old non-strings', lambda s, x: same(s, lambda o: And(Not(i8(o)), Not(iskind(o, 'Pi8')), o != PO(d0.text), rootid(o) <= tt(v)), L0)))
        out.append(('kept rows', lambda s, x: FA([i], Implies(And(live_, rng(i, m)), And(D_(s).trow(i) == d0.trow(i), L.view(s).len(PO(d0.trow(i))) >= 8 * C0)), [D_(s).trow(i)])))
        out.append(('blank string', lambda s, x: okNul(L, L.view(s))))
        out.append(('rows distinct', lambda s, x: FA([i, k], Implies(And(rng(i, R), rng(k, R), i != k), PO(D_(s).trow(i)) != PO(D_(s).trow(k))), [MultiPattern(D_(s).trow(i), D_(s).trow(k))])))
        def rowok(s, a, w): r = D_(s).trow(a); return And(Not(isnull(r)), PI(r) == 0, iskind(PO(r), 'Pi8'), rootid(PO(r)) > 0, L.view(s).len(PO(r)) >= 8 * w)
        for nm, key in L.ints():
            out.append(('%s >= 0' % nm, lambda s, x, key=key: s.vars[key] >= 0))
            for b_, bn in ((R, 'row'), (C, 'col'), (R0, 'rows_now'), (C0, 'cols_now')):
                out.append(('%s <= %s' % (nm, bn), lambda s, x, key=key, b_=b_: s.vars[key] <= b_))
            # freeing strings
            out.append(('strings from row %s' % nm, lambda s, x, key=key: same(s, lambda o: And(i8(o), rootid(o) <= tt(v), rowof(o) >= s.vars[key]), L0)))
            out.append(('kept-row strings from row %s' % nm, lambda s, x, key=key: same(s, lambda o: And(i8(o), rootid(o) <= tt(v), rowof(o) >= s.vars[key], rowof(o) < R), L0)))
            for n2, k2 in L.locals('i32'):
                if k2 == key: continue
                aft = lambda o, s, key, k2: And(i8(o), rootid(o) <= tt(v), Or(rowof(o) > s.vars[k2], And(rowof(o) == s.vars[k2], colof(o) >= s.vars[key])))
                out.append(('strings after %s,%s' % (n2, nm), lambda s, x, key=key, k2=k2: same(s, lambda o: aft(o, s, key, k2), L0)))
                out.append(('kept-row strings after %s,%s' % (n2, nm), lambda s, x, key=key, k2=k2: same(s, lambda o: And(aft(o, s, key, k2), rowof(o) < R), L0)))
            out.append(('rows from %s live' % nm, lambda s, x, key=key: FA([i], Implies(And(live_, i >= s.vars[key], i < R0), And(D_(s).trow(i) == d0.trow(i), L.view(s).len(PO(d0.trow(i))) >= 8 * C0)), [D_(s).trow(i)])))
            # building new rows
            for lo, ln, w, wn in ((ival(0), '0', C, 'col'), (R0, 'rows_now', C0, 'cols_now')):
                out.append(('rows %s..%s new, %s wide' % (ln, nm, wn), lambda s, x, key=key, lo=lo, w=w: FA([i], Implies(And(i >= lo, i < s.vars[key]), And(rowok(s, i, w), rootid(PO(D_(s).trow(i))) > tt(v))), [D_(s).trow(i)])))
                out.append(('rows %s..%s distinct' % (ln, nm), lambda s, x, key=key, lo=lo: FA([i, k], Implies(And(i >= lo, i < k, k < s.vars[key]), PO(D_(s).trow(i)) != PO(D_(s).trow(k))), [MultiPattern(D_(s).trow(i), D_(s).trow(k))])))
                out.append(('rows %s..%s blank, %s wide' % (ln, nm, wn), lambda s, x, key=key, lo=lo, w=w: FA([i, j], Implies(And(i >= lo, i < s.vars[key], rng(j, w)), D_(s).tent(i, j) == n), [D_(s).tent(i, j)])))
            for n2, k2 in L.locals('i32') + L.locals('u64'):
                if k2 == key: continue
                for lo, ln in ((ival(0), '0'), (C0, 'cols_now')):
                    out.append(('row %s blank from %s to %s' % (n2, ln, nm), lambda s, x, key=key, k2=k2, lo=lo: FA([j], Implies(And(j >= lo, j < s.vars[key]), D_(s).tent(s.vars[k2], j) == n), [D_(s).tent(s.vars[k2], j)])))
                out.append(('row %s as it was before cols_now (by %s)' % (n2, nm), lambda s, x, k2=k2: FA([j], Implies(rng(j, C0), D_(s).tent(s.vars[k2], j) == DS.tent(s.vars[k2], j)), [D_(s).tent(s.vars[k2], j)])))
            # resizing rows
            out.append(('rows before %s resized' % nm, lambda s, x, key=key: FA([i], Implies(rng(i, s.vars[key]), rowok(s, i, C)), [D_(s).trow(i)])))
            out.append(('rows before %s keep their cells' % nm, lambda s, x, key=key: FA([i, j], Implies(And(rng(i, s.vars[key]), rng(j, mc)), D_(s).tent(i, j) == If(i < R0, d0.tent(i, j), n)), [D_(s).tent(i, j)])))
            out.append(('rows before %s: new cells blank' % nm, lambda s, x, key=key: FA([i, j], Implies(And(rng(i, s.vars[key]), j >= C0, j < C), D_(s).tent(i, j) == n), [D_(s).tent(i, j)])))
            out.append(('rows from %s not yet resized' % nm, lambda s, x, key=key: FA([i], Implies(And(i >= s.vars[key], i < R), And(D_(s).trow(i) == DS.trow(i), rowok(s, i, C0))), [D_(s).trow(i)])))
            out.append(('rows from %s keep their cells' % nm, lambda s, x, key=key: FA([i, j], Implies(And(i >= s.vars[key], i < R, rng(j, C0)), D_(s).tent(i, j) == DS.tent(i, j)), [D_(s).tent(i, j)])))
        return out
