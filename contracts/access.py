from spec import *
i, j, k = Int('i?'), Int('j?'), Int('k?')
DATASZ = 72
pgat = Function('pgat', Ptr, I, Ptr)     # ghost: the k-th page after a data set, in the state the contract starts in
npg = Function('npg', Ptr, I)
def wfData(v, p, names=True):
    d = Data(v, p)
    f = [live(v, p, DATASZ), PI(p) == 0, null_or(d.vector, wfVec(v, d.vector)), null_or(d.matrix, wfMat(v, d.matrix))]
    if names: f.append(null_or(d.names, wfNames(v, d.names)))
    return And(f)
def pages(v, p):
    """p is the head of a finite list of well-formed pages"""
    e = pgat(p, k)
    return And(pgat(p, 0) == p, npg(p) >= 1, isnull(pgat(p, npg(p))),
               FA([k], Implies(rng(k, npg(p)), And(rootid(PO(e)) <= v.top, wfData(v, e), Data(v, e).more == pgat(p, k + 1))), [e]))

def dispatch(v, d, row, col):
    """(is vector access, exists) for element (row, col) of d"""
    D = Data(v, d)
    isv = Or(col == -1, And(col == 0, isnull(D.matrix), Not(isnull(D.vector))))
    vok = And(isv, Not(isnull(D.vector)), row >= 0, row < D.V.size)
    mok = And(Not(isv), Not(isnull(D.matrix)), row >= 0, row < D.M.size1, col >= 0, col < D.M.size2)
    return D, vok, mok

@contract('apop_data', 'apop_data_get_base', 'data row col rowname colname page', 'real', props=['C02'])
class _:
    def requires(c): return [('data wf', wfData(c.old, c.data, False))]
    def ensures(c):
        D, vok, mok = dispatch(c.old, c.data, c.row, c.col)
        return [('vector element', Implies(vok, c.ret == D.V.get(c.row))), ('matrix element', Implies(mok, c.ret == D.M.get(c.row, c.col))),
                ('missing is NaN', Implies(And(Not(vok), Not(mok)), c.ret == NANV))]
@contract('apop_data', 'apop_data_ptr_base', 'data row col rowname colname page', 'ptr', props=['C02'])
class _:
    def requires(c): return [('data wf', wfData(c.old, c.data, False))]
    def ensures(c):
        D, vok, mok = dispatch(c.old, c.data, c.row, c.col)
        return [('vector element', Implies(vok, And(PO(c.ret) == D.V.o, PI(c.ret) == D.V.cell(c.row)))), ('matrix element', Implies(mok, And(PO(c.ret) == D.M.o, PI(c.ret) == D.M.cell(c.row, c.col)))),
                ('missing is NULL', Implies(And(Not(vok), Not(mok)), isnull(c.ret)))]
@contract('apop_data', 'apop_data_set_base', 'data row col val colname rowname page', 'i32', props=['C02'])
class _:
    def requires(c): return [('data wf', wfData(c.old, c.data, False))]
    def modifies(c):
        D, vok, mok = dispatch(c.old, c.data, c.row, c.col)
        return [('f64', [If(vok, D.V.o, D.M.o)])]
    def ensures(c):
        D, vok, mok = dispatch(c.old, c.data, c.row, c.col)
        out = []
        for w, ok, o, cell in (('vector', vok, D.V.o, D.V.cell(c.row)), ('matrix', mok, D.M.o, D.M.cell(c.row, c.col))):
            nw, od = c.new.cell('f64', R, o, k), c.old.cell('f64', R, o, k)
            out += [(w + ' element stored', Implies(ok, c.new.cell('f64', R, o, cell) == c.val)),
                    (w + ' other elements kept', FA([k], Implies(And(ok, k != cell), nw == od), [nw])),
                    (w + ' nothing written on failure', FA([k], Implies(Not(Or(vok, mok)), nw == od), [nw]))]
        return out + [('0 on success', Implies(Or(vok, mok), c.ret == 0)), ('nonzero on failure', Implies(Not(Or(vok, mok)), c.ret != 0))]

# ---- pages
rx = Function('regex_match', Str, Str, B)
@contract('apop_regex', 'apop_regex_base', 'string regex substrings use_case', 'i32', trusted=True)
class _:
    def requires(c): return []
    def ensures(c): return [('pure', (c.ret != 0) == rx(c.old.str(c.string), c.old.str(c.regex)))]
@contract('apop_asst', 'variadic_apop_regex', 'varad_in', 'i32', trusted=True)
class _:
    def requires(c): return []
    def ensures(c): return [('pure', (c.ret != 0) == rx(c.old.str(c.varad_in['string']), c.old.str(c.varad_in['regex'])))]

def pagematch(v, pg, title, match):
    D = Data(v, pg); t = D.N.title
    ts = v.str(title) if title.sort() == Ptr else title
    return And(Not(isnull(D.names)), Not(isnull(t)),
               Or(And(match == ord('c'), lower(v.str(t)) == lower(ts)), And(match == ord('r'), rx(v.str(t), ts)), And(match == ord('e'), v.str(t) == ts)))
def firstpage(v, data, title, match, ret):
    e = pgat(data, k); r = pix(data, ret)
    return [('found page is on the list', Implies(Not(isnull(ret)), And(rng(r, npg(data)), pgat(data, r) == ret))),
            ('found page matches', Implies(Not(isnull(ret)), pagematch(v, ret, title, match))),
            ('first match', Implies(Not(isnull(ret)), FA([k], Implies(And(k >= 0, k < r), Not(pagematch(v, e, title, match))), [e]))),
            ('NULL only if no page matches', Implies(isnull(ret), FA([k], Implies(rng(k, npg(data)), Not(pagematch(v, e, title, match))), [e])))]
pix = Function('pix', Ptr, Ptr, I)
def pageix(p):
    e = pgat(p, k)
    return FA([k], Implies(rng(k, npg(p)), pix(p, e) == k), [e])
@contract('apop_data', 'apop_data_get_page_base', 'data title match', 'ptr', props=['C09', 'C02'])
class _:
    def requires(c): return [('pages', pages(c.old, c.data)), ('page index', pageix(c.data)), ('title', wfStr(c.old, c.title)), ('match', Or([c.match == ord(x) for x in 'cre']))]
    def ensures(c): return firstpage(c.old, c.data, c.title, c.match, c.ret)
    def template(L):
        v = L.old; p = L.data; out = []
        e = pgat(p, k)
        for nm, key in L.modptrs():
            out.append(('%s is a page' % nm, lambda s, x, key=key: Or(isnull(s.vars[key]), And(rng(pix(p, s.vars[key]), npg(p)), pgat(p, pix(p, s.vars[key])) == s.vars[key]))))
            out.append(('no match before %s' % nm, lambda s, x, key=key: FA([k], Implies(And(rng(k, npg(p)), Or(isnull(s.vars[key]), k < pix(p, s.vars[key]))), Not(pagematch(v, e, L.title, L.match))), [e])))
        return out

def access(c, kind):
    """the named-argument forms: the element is found by page, then row name, then column name"""
    a = c.varad_in; v = c.old; data = a['data']
    rown, coln, page = a['rowname'], a['colname'], a['page']
    return a, v, data, rown, coln, page
def wrapreq(c):
    a = c.varad_in; d = a['data']; v = c.old
    return [('pages', null_or(d, And(pages(v, d), pageix(d)))), ('rowname', null_or(a['rowname'], wfStr(v, a['rowname']))), ('colname', null_or(a['colname'], wfStr(v, a['colname']))),
            ('page', null_or(a['page'], wfStr(v, a['page'])))]
def resolve(c):
    """-> (target page exists & is T, predicates row(r), col(q)) as used in the ensures below"""
    a = c.varad_in; v = c.old
    return a, v
def wrapens(c, fail, vec, mat):
    """fail: formula 'error value returned'; vec(D, r), mat(D, r, q): formula 'element accessed'"""
    a = c.varad_in; v = c.old; d = a['data']; r, q = Int('r?'), Int('q?')
    pg = pgat(d, k)
    out = [('NULL data set fails', Implies(isnull(d), fail))]
    nopage = isnull(a['page'])
    # page k is the one addressed
    def addressed(kk):
        e = pgat(d, kk); j2 = Int('j2?'); e2 = pgat(d, j2)
        return Or(And(nopage, kk == 0), And(Not(nopage), rng(kk, npg(d)), pagematch(v, e, a['page'], ival(ord('c'))),
                                           FA([j2], Implies(And(j2 >= 0, j2 < kk), Not(pagematch(v, e2, a['page'], ival(ord('c'))))), [e2])))
    out.append(('no such page fails', Implies(And(Not(isnull(d)), Not(nopage), FA([k], Implies(rng(k, npg(d)), Not(pagematch(v, pg, a['page'], ival(ord('c'))))), [pg])), fail)))
    sk = c.ex.fresh('page_k', I)
    T = pgat(d, sk); D = Data(v, T)
    base = And(Not(isnull(d)), addressed(sk))
    norow, nocol = isnull(a['rowname']), isnull(a['colname'])
    # positions only
    _, vok, mok = dispatch(v, T, a['row'], a['col'])
    pos = And(base, norow, nocol)
    out += [('by position: vector element', Implies(And(pos, vok), vec(D, a['row']))), ('by position: matrix element', Implies(And(pos, mok), mat(D, a['row'], a['col']))),
            ('by position: missing fails', Implies(And(pos, Not(vok), Not(mok)), fail))]
    # the same for the data set itself (no page asked for), stated without the page list
    D0, vok0, mok0 = dispatch(v, d, a['row'], a['col']); pos0 = And(Not(isnull(d)), nopage, norow, nocol)
    out += [('main page by position: vector element', Implies(And(pos0, vok0), vec(D0, a['row']))), ('main page by position: matrix element', Implies(And(pos0, mok0), mat(D0, a['row'], a['col']))),
            ('main page by position: missing fails', Implies(And(pos0, Not(vok0), Not(mok0)), fail))]
    # a row name that is not there
    er = D.N.ent('r', i); ec = D.N.ent('c', i)
    nor = Or(isnull(D.names), FA([i], Implies(rng(i, D.N.rowct), Not(lower(v.str(er)) == lower(v.str(a['rowname'])))), [er]))
    vname = And(Not(isnull(D.N.vector)), lower(v.str(a['colname'])) == lower(v.str(D.N.vector)))
    noc = Or(isnull(D.names), And(FA([i], Implies(rng(i, D.N.colct), Not(lower(v.str(ec)) == lower(v.str(a['colname'])))), [ec]), Not(vname)))
    out += [('unknown row name fails', Implies(And(base, Not(norow), nor), fail)), ('unknown column name fails', Implies(And(base, Not(nocol), noc), fail))]
    # a row name that matches exactly one row
    ur = c.ex.fresh('urow', I); uc = c.ex.fresh('ucol', I)
    def uniq(kk, u, nm):
        e = D.N.ent(kk, i)
        return And(rng(u, D.N.ct(kk)), lower(v.str(D.N.ent(kk, u))) == lower(v.str(nm)), FA([i], Implies(And(rng(i, D.N.ct(kk)), i != u), lower(v.str(e)) != lower(v.str(nm))), [e]))
    hasr = And(base, Not(isnull(D.names)), Not(norow), uniq('r', ur, a['rowname']))
    _, vok, mok = dispatch(v, T, ur, a['col'])
    out += [('row name, column number: vector', Implies(And(hasr, nocol, vok), vec(D, ur))), ('row name, column number: matrix', Implies(And(hasr, nocol, mok), mat(D, ur, a['col']))),
            ('row name, column number: missing', Implies(And(hasr, nocol, Not(vok), Not(mok)), fail))]
    hasc = And(base, Not(isnull(D.names)), Not(nocol), uniq('c', uc, a['colname']))
    _, vok, mok = dispatch(v, T, a['row'], uc)
    out += [('row number, column name: vector', Implies(And(hasc, norow, vok), vec(D, a['row']))), ('row number, column name: matrix', Implies(And(hasc, norow, mok), mat(D, a['row'], uc))),
            ('row number, column name: missing', Implies(And(hasc, norow, Not(vok), Not(mok)), fail))]
    _, vok, mok = dispatch(v, T, ur, uc)
    both = And(hasr, hasc)
    out += [('row and column name: vector', Implies(And(both, vok), vec(D, ur))), ('row and column name: matrix', Implies(And(both, mok), mat(D, ur, uc))), ('row and column name: missing', Implies(And(both, Not(vok), Not(mok)), fail))]
    return out
@contract('apop_data', 'variadic_apop_data_get', 'varad_in', 'real', props=['C02'])
class _:
    requires = wrapreq
    def ensures(c): return wrapens(c, c.ret == NANV, lambda D, r: c.ret == D.V.get(r), lambda D, r, q: c.ret == D.M.get(r, q))
@contract('apop_data', 'variadic_apop_data_ptr', 'varad_in', 'ptr', props=['C02'])
class _:
    requires = wrapreq
    def ensures(c): return wrapens(c, isnull(c.ret), lambda D, r: And(PO(c.ret) == D.V.o, PI(c.ret) == D.V.cell(r)), lambda D, r, q: And(PO(c.ret) == D.M.o, PI(c.ret) == D.M.cell(r, q)))
@contract('apop_data', 'variadic_apop_data_set', 'varad_in', 'i32', props=['C02'])
class _:
    requires = wrapreq
    def modifies(c): return [('f64', 'all')]
    def ensures(c):
        val = c.varad_in['val']
        def one(o, cell):
            oo = Const('o?', Obj); nw, od = c.new.cell('f64', R, oo, k), c.old.cell('f64', R, oo, k)
            return And(c.ret == 0, c.new.cell('f64', R, o, cell) == val, FA([oo, k], Implies(Or(oo != o, k != cell), nw == od), [nw]))
        c.new.map('f64', R)
        oo = Const('o?', Obj); nw, od = c.new.cell('f64', R, oo, k), c.old.cell('f64', R, oo, k)
        return wrapens(c, And(c.ret != 0, FA([oo, k], nw == od, [nw])), lambda D, r: one(D.V.o, D.V.cell(r)), lambda D, r, q: one(D.M.o, D.M.cell(r, q)))
