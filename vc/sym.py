"""Verification-condition generator over GOTO programs (own deductive verifier).

Forward symbolic execution of one function with loops cut at invariants and calls
replaced by contracts (or inlined when the callee has none and its body is in a
loaded unit); every obligation is emitted as (label, facts, goal) for the solvers.
"""
import itertools, time, fractions
from z3 import *
import ir
from ir import *
from theory import *
import theory

import os
HDBG = os.environ.get('HDBG')      # debugging aid: print dropped candidate invariants of loops so named
class Give(Exception):
    """resource / engine limit: undecided, not a failure"""

class LObj:
    __slots__ = ('obj',)
    def __init__(self, o): self.obj = o

class SV(dict):
    """struct value"""

class Top:
    """allocation counter: base symbol + offset"""
    __slots__ = ('base', 'off', 'rank')
    def __init__(self, base, off, rank): self.base, self.off, self.rank = base, off, rank
    def term(self): return add(self.base, ival(self.off))
    def key(self): return (self.rank, self.off)

_anyq = {}
def anyq(f):
    i = f.get_id()
    if i not in _anyq: _anyq[i] = (f, is_quantifier(f) or any(anyq(x) for x in f.children()))
    return _anyq[i][1]
class State:
    __slots__ = ('vars', 'mem', 'top', 'facts', 'ghost', 'seen', 'ret', 'trace', 'pz')
    def __init__(self):
        self.vars = {}; self.mem = {}; self.top = None; self.facts = []; self.ghost = {}; self.seen = set(); self.ret = None
        self.trace = (); self.pz = {}
    def copy(self):
        s = State()
        s.vars = dict(self.vars); s.mem = dict(self.mem); s.top = self.top; s.facts = list(self.facts)
        s.ghost = dict(self.ghost); s.seen = set(self.seen); s.ret = self.ret; s.trace = self.trace; s.pz = dict(self.pz)
        return s
    def assume(self, f):
        if is_true(f): return
        if is_and(f):
            for x in f.children(): self.assume(x)
            return
        # Or(a, And(b, forall ..)) -> the quantifier-free conjuncts stay visible to the quick solver
        if (is_or(f) and f.num_args() == 2 and is_and(f.arg(1))) or (is_implies(f) and is_and(f.arg(1))):
            q, nq = [], []
            for x in f.arg(1).children(): (q if anyq(x) else nq).append(x)
            if q and nq:
                mk_ = (lambda b: Or(f.arg(0), b)) if is_or(f) else (lambda b: Implies(f.arg(0), b))
                self.assume(mk_(And(nq) if len(nq) > 1 else nq[0]))
                for x in q: self.assume(mk_(x))
                return
        i = f.get_id()
        if i in self.seen: return
        self.seen.add(i); self.facts.append(f)

class Frame:
    __slots__ = ('fn', 'id', 'depth', 'cfn')
    def __init__(self, fn, id, depth): self.fn, self.id, self.depth = fn, id, depth

class Oblig:
    __slots__ = ('label', 'facts', 'goal', 'kind', 'line', 'status', 'backend', 'secs', 'info', 'trace')
    def __init__(self, label, facts, goal, kind, line, trace=()):
        self.label, self.facts, self.goal, self.kind, self.line = label, facts, goal, kind, line
        self.status = None; self.backend = None; self.secs = 0; self.info = ''; self.trace = trace

DEFAULT = {'Int': lambda: ival(0), 'Real': lambda: RealVal(0), 'Ptr': lambda: NULL, 'Str': lambda: Const('EMPTYSTR', Str), 'Bool': lambda: BoolVal(False)}

class Program:
    """set of loaded units"""
    def __init__(self, load):
        self.units = {}
        self.load = load
        self.where = {}
    def add(self, name):
        if name in self.units: return self.units[name]
        fj, sj = self.load(name)
        u = ir.Unit(name, fj, sj)
        self.units[name] = u
        for f in u.raw: self.where.setdefault(f, u)
        return u
    def find(self, fname, unit=None):
        if unit is not None and fname in unit.raw: return unit.fn(fname)
        if fname in self.where: return self.where[fname].fn(fname)
        return None

class Ex:
    def __init__(self, prog, contracts, lib, opts=None):
        self.prog, self.contracts, self.lib = prog, contracts, lib
        self.o = dict(maxstates=40, maxloopstates=12, quick_ms=300, houdini_ms=1500, char_mode='str', inline_depth=8,
                      safety=True)
        if opts: self.o.update(opts)
        self.maps = dict(f64=R, u64=I, i32=I, i64=I, Pi8=Ptr, PPi8=Ptr)         # mapname -> value sort
        self.fresh_ct = itertools.count()
        self.emb_tags = {}; self.emb_kinds = {}
        self.globs = {}
        self.lits = {}
        self.objtop = {}       # obj term id -> (term, topkey)
        self.toprank = itertools.count()
        self.obligs = []
        self.suppress = 0
        self.writes = None     # write log (list) when recording
        self.cmps = None
        self.axioms = []
        self.frameid = itertools.count()
        self.target = None
        self.unreach = []; self.used_trusted = set(); self.used_contracts = set(); self.inlined = set()
        self.assumptions = set()
        self.structleafs = {}
        self.hints = {}
        self.newhints = {}
        self.stats = dict(quick=0, quick_s=0.0, houdini=0, houdini_s=0.0)
        self.deadline = None; self.entry_top = None; self.entry_state = None

    # ------------------------------------------------------------ basics
    def fresh(self, name, sort):
        return Const('%s!%d' % (name, next(self.fresh_ct)), sort)
    def newtop(self, name='top'):
        return Top(self.fresh(name, I), 0, next(self.toprank))
    def sortof(self, t):
        k = t[0]
        if k == 'int': return I
        if k == 'float': return R
        if k == 'ptr': return Ptr
        if k == 'bool': return B
        raise Unsupported('sort of %s' % (t,))
    def map_sort(self, m):
        return ArraySort(Obj, ArraySort(I, self.maps[m]))
    def reg_map(self, name, sort):
        if name not in self.maps: self.maps[name] = sort
        return name
    def scalar_map(self, T, t):
        return self.reg_map(T.name(t), self.sortof(t))
    def field_map(self, T, tag, f, ft):
        return self.reg_map(T.tagname(tag) + '.' + f, self.sortof(ft))
    def getmap(self, st, m):
        if m not in st.mem:
            # the initial version, common to all states of this verification
            st.mem[m] = self.initmap(m)
        return st.mem[m]
    def initmap(self, m):
        if m == 'LEN': return Const('LEN0', ArraySort(Obj, I))
        if m == 'STR': return Const('STR0', ArraySort(Obj, Str))
        return Const('M0_' + m, self.map_sort(m))
    def setkind(self, st, T, t, o):
        while t[0] == 'array': t = t[1]
        if t[0] in ('void', 'code'): return
        st.assume(iskind(o, T.name(t)))
    def emb(self, T, tag, f, obj, idx):
        k = T.tagname(tag) + '.' + f
        if k not in self.emb_tags:
            self.emb_tags[k] = len(self.emb_tags) + 1
        if k not in self.emb_kinds:
            for g, ft in T.fields(tag):
                if g == f:
                    while ft[0] == 'array': ft = ft[1]
                    self.emb_kinds[k] = T.name(ft)
        return Obj.emb(ival(self.emb_tags[k]), obj, idx)
    def glob(self, key):
        if key not in self.globs: self.globs[key] = len(self.globs) + 1
        return Obj.glob(ival(self.globs[key]))

    # top / freshness
    def alloc(self, st):
        st.top = Top(st.top.base, st.top.off + 1, st.top.rank)
        return Obj.reg(st.top.term())
    def topkey_of_reg(self, o):
        """for reg(base+off) terms -> (rank, off) by looking the base up"""
        n = o.arg(0)
        off = 0
        if n.decl().kind() == Z3_OP_ADD and n.num_args() == 2 and isval(n.arg(1)):
            off = n.arg(1).as_long(); n = n.arg(0)
        r = self.topbases.get(n.get_id())
        return None if r is None else (r, off)
    def distinct_objs(self, a, b):
        """syntactic: certainly different"""
        if a.eq(b): return False
        an, bn = a.decl().name(), b.decl().name()
        con = ('reg', 'glob', 'emb')
        if an in con and bn in con and an != bn: return True
        if an == 'glob' and bn == 'glob': return not a.arg(0).eq(b.arg(0)) and isval(a.arg(0)) and isval(b.arg(0))
        if an == 'emb' and bn == 'emb':
            if isval(a.arg(0)) and isval(b.arg(0)) and not a.arg(0).eq(b.arg(0)): return True
            return self.distinct_objs(a.arg(1), b.arg(1))
        if an == 'reg' and bn == 'reg':
            ka, kb = self.topkey_of_reg(a), self.topkey_of_reg(b)
            return ka is not None and kb is not None and ka != kb
        for x, y in ((a, b), (b, a)):
            if x.decl().name() == 'reg':
                k = self.topkey_of_reg(x)
                t = self.objtop.get(y.get_id())
                if k is not None and t is not None and k > t[1]: return True
            if x.decl().name() == 'emb':
                if y.decl().name() in ('obj',):
                    pass
        return False
    def sel1(self, M, o):
        """Select(M, o) through store chains"""
        while True:
            if is_app(M) and M.decl().kind() == Z3_OP_STORE:
                o2 = M.arg(1)
                if o2.eq(o): return M.arg(2)
                if self.distinct_objs(o2, o): M = M.arg(0); continue
            break
        if is_app(M) and M.decl().kind() == Z3_OP_CONST_ARRAY: return M.arg(0)
        return Select(M, o)
    def seli(self, A, i):
        while True:
            if is_app(A) and A.decl().kind() == Z3_OP_STORE:
                j = A.arg(1)
                if j.eq(i): return A.arg(2)
                if isval(i) and isval(j): A = A.arg(0); continue
            break
        if is_app(A) and A.decl().kind() == Z3_OP_CONST_ARRAY: return A.arg(0)
        return Select(A, i)
    def rd(self, st, m, o, i):
        return self.seli(self.sel1(self.getmap(st, m), o), i)
    def wr(self, st, m, o, i, v):
        M = self.getmap(st, m)
        inner = self.sel1(M, o)
        new = Store(inner, i, v)
        if is_app(inner) and inner.decl().kind() == Z3_OP_STORE and inner.arg(1).eq(i):
            new = Store(inner.arg(0), i, v)
        self.setinner(st, m, o, new, i)
    def setinner(self, st, m, o, inner, i=None):
        M = self.getmap(st, m)
        if self.writes is not None: self.writes.append((m, o, i))
        if is_app(M) and M.decl().kind() == Z3_OP_STORE and M.arg(1).eq(o): M = M.arg(0)
        st.mem[m] = Store(M, o, inner)
    def rd1(self, st, m, o):     # one-level maps: LEN, STR
        return self.sel1(self.getmap(st, m), o)
    def wr1(self, st, m, o, v):
        M = self.getmap(st, m)
        if self.writes is not None: self.writes.append((m, o, None))
        if is_app(M) and M.decl().kind() == Z3_OP_STORE and M.arg(1).eq(o): M = M.arg(0)
        st.mem[m] = Store(M, o, v)

    def loaded(self, st, v, t):
        """typing facts about a value of C type t that was read from memory / a parameter"""
        if t[0] == 'ptr':
            o = PO(v)
            if o.decl().name() in ('glob', 'reg'): return v
            if o.get_id() not in self.objtop: self.objtop[o.get_id()] = (o, st.top.key())
            st.assume(rootid(o) <= st.top.term())
        elif t[0] == 'int' and not isval(v):
            w, s = t[1], t[2]
            if s: st.assume(And(v >= -(1 << (w - 1)), v < (1 << (w - 1))))
            else: st.assume(And(v >= 0, v < (1 << w)))
        return v

    def notenull(self, st):
        pass

    def pidx(self, st, p):
        """index part of pointer p; 0 when the facts say so"""
        x = PI(p)
        if isval(x): return x
        k = x.get_id()
        c = st.pz.get(k)
        if c is not None and (c[0] or c[1] == len(st.facts)): return ival(0) if c[0] else x
        r = self.quick(st.facts, x == 0, 60)
        st.pz[k] = (r, len(st.facts), x)
        return ival(0) if r else x

    # ------------------------------------------------------------ quick solver
    def quick(self, facts, goal, ms=None):
        """is goal implied (QF facts only, small time out)?"""
        g = simplify(goal)
        if is_true(g): return True
        if is_false(g) and not facts: return False
        self.stats['quick'] += 1
        t0 = time.time()
        s = SimpleSolver()
        s.set('timeout', ms or self.o['quick_ms'])
        for f in facts:
            if not self.hasq(f): s.add(f)
        s.add(Not(goal))
        r = s.check()
        self.stats['quick_s'] += time.time() - t0
        return r == unsat
    def hasq(self, f):
        c = self.__dict__.setdefault('_hq', {})
        i = f.get_id()
        if i in c: return c[i][1]
        if is_quantifier(f): r = True
        else: r = any(self.hasq(x) for x in f.children())
        c[i] = (f, r)
        return r

    def background(self, fs, decls=False):
        fns = fs
        out = []
        names = {f.name() for f in fns}
        for f, ax in AXIOMS.items():
            if f.name() in names: out += [a for a in ax if not is_true(a)]
        if self.entry_top is not None:
            for n in names:
                if n.startswith('M0_') and self.maps.get(n[3:]) == Ptr:
                    M = self.initmap(n[3:]); o, k = Const('o?', Obj), Int('k?')
                    out.append(FA([o, k], rootid(Ptr.obj(M[o][k])) <= self.entry_top.term(), [M[o][k]]))
        if 'okind' in names:
            for k, nm in self.emb_kinds.items():
                if k in self.emb_tags:
                    o, ix = Const('o?', Obj), Int('k?'); e = Obj.emb(ival(self.emb_tags[k]), o, ix)
                    out.append(FA([o, ix], okind(e) == KIND(nm), [okind(e)]))
        if 'LEN0' in names:       # string literals are there from the start
            for kk, n in self.globs.items():
                if kk.startswith('lit:'): out.append(Const('LEN0', ArraySort(Obj, I))[Obj.glob(ival(n))] == len(kk[4:].encode('utf8', 'surrogateescape')) + 1)
        if 'mul' in names:
            for l in self.o.get('lemmas', ()): out += LEMMAS[l]
        if 'lower' in names or 'slen' in names or any(n.startswith('lit_') for n in names):
            out += self.litfacts(names)
        return out
    def litfacts(self, names):
        use = [(txt, c) for txt, c in self.lits.items() if c.decl().name() in names]
        out = []
        if len(use) > 1: out.append(Distinct([c for _, c in use]))
        for txt, c in use:
            if 'slen' in names or 'charat' in names: out.append(slen(c) == len(txt.encode('utf8', 'surrogateescape')))
            if 'lower' in names: out.append(lower(c) == self.lit(txt.lower()))
            if 'charat' in names:
                for k, ch in enumerate(txt[:4] + ('\0' if len(txt) <= 4 else '')): out.append(charat(c, k) == ord(ch))
        return out
    def lit(self, txt):
        if txt not in self.lits:
            self.lits[txt] = Const('lit_%d' % len(self.lits), Str)
        return self.lits[txt]

    def prove(self, facts, goal, ms):
        """in-process proof attempt (Houdini); True / False"""
        g = simplify(goal)
        if is_true(g): return True
        self.stats['houdini'] += 1
        t0 = time.time()
        s = Solver()
        s.set('timeout', ms); s.set('auto_config', False); s.set('mbqi', False)
        import prove as P
        fs = [f for f in facts] + [Not(P.skolem(goal))]
        D = set().union(*[funcs_of(f) for f in fs])
        bg = self.background(D, True)
        bg2 = self.background(D.union(*[funcs_of(f) for f in bg]), True)
        for f in bg2 + fs: s.add(f)
        r = s.check()
        self.stats['houdini_s'] += time.time() - t0
        return r == unsat

    def provec(self, facts, c, s, mult=1):
        """a candidate invariant at state s; candidates from a contract's template get a second, harder try"""
        g = c[1](s, {}); ms = self.o['houdini_ms'] * mult
        if self.prove(facts, g, ms): return True
        if not c[0].startswith('T:') or self.o.get('hard') is False: return False
        import prove as P
        left = []
        for p in P.split(g):
            if not self.prove(facts, p, ms): left.append(p)
            if len(left) > 24: return False
        for p in left:
            r = P.solve(P.smt2(self, Oblig('h', facts, p, '', '')), self.o.get('hard_s', 2), False, P.BACK[:3] if 'hard_s' in self.o else P.BACK[1:3])
            if r[0] != 'proved': return False
        return True

    # ------------------------------------------------------------ obligations
    def oblige(self, st, label, goal, kind, line='?', assume=True):
        if self.deadline and time.time() > self.deadline: raise Give('symbolic execution time limit')
        g = goal
        if is_true(g) or is_true(simplify(g)):
            if not self.suppress:
                ob = Oblig(label, [], BoolVal(True), kind, line); ob.status = 'proved'; ob.backend = 'simplifier'
                self.obligs.append(ob)
            return
        if g.get_id() in st.seen: return      # already known on this path
        if not self.suppress:
            self.obligs.append(Oblig(label, list(st.facts), g, kind, line, st.trace))
        if assume: st.assume(g)

    def safety(self, st, fr, label, goal, line):
        if self.o['safety']:
            self.oblige(st, '%s/safety/%s' % (fr.cfn if hasattr(fr, 'cfn') else fr.fn.name, label), goal, 'safety', line)

    # ------------------------------------------------------------ locations
    def key(self, fr, ident): return '%d#%s' % (fr.id, ident)
    def isglobal(self, fr, ident):
        s = fr.fn.unit_obj.sym.get(ident)
        return bool(s and s.get('isStaticLifetime'))

    def elem_loc(self, T, t, obj, idx):
        if t[0] in ('struct', 'union', 'array'): return ('agg', t, obj, idx)
        if t[0] in ('void', 'code'): return ('raw', t, obj, idx)
        return ('mem', self.scalar_map(T, t), t, obj, idx)

    def lv(self, st, fr, e):
        """-> (loc, chk); chk is None or (obj, idx, elemsize, text) to be checked on access"""
        T = fr.fn.types
        i = e['id']
        if i == 'symbol':
            ident = nsid(e, 'identifier')
            t = T.parse(ns(e, 'type'))
            if t[0] == 'code': return ('fnref', ident), None
            if self.isglobal(fr, ident):
                o = self.glob('var:' + ident)
                try: st.assume(self.rd1(st, 'LEN', o) >= max(T.sizeof(t), 1))
                except Unsupported: pass
                return self.elem_loc(T, t, o, ival(0)), None
            k = self.key(fr, ident)
            v = st.vars.get(k)
            if isinstance(v, LObj): return self.elem_loc(T, t, v.obj, ival(0)), None
            if v is None and (t[0] in ('struct', 'union', 'array') or ident in fr.fn.addrtaken):
                o = self.alloc(st); st.vars[k] = LObj(o); self.setkind(st, T, t, o)
                self.wr1(st, 'LEN', o, ival(max(T.sizeof(t), 1)))
                return self.elem_loc(T, t, o, ival(0)), None
            return ('var', k, t), None
        if i == 'member':
            b = sub(e)[0]
            f = nsid(e, 'component_name')
            ft = T.parse(ns(e, 'type'))
            bt = T.parse(ns(b, 'type'))
            loc, chk = self.lv(st, fr, b)
            if loc[0] != 'agg': raise Unsupported('member of non-aggregate location')
            _, _, obj, idx = loc
            if ft[0] in ('struct', 'union', 'array'):
                return ('agg', ft, self.emb(T, bt[1], f, obj, idx), ival(0)), chk
            return ('mem', self.field_map(T, bt[1], f, ft), ft, obj, idx), chk
        if i == 'index':
            b, ix = sub(e)
            iv = self.ev(st, fr, ix)
            et = T.parse(ns(e, 'type'))
            if b['id'] == 'string_constant':
                return ('str', self.litobj(st, b), iv), None
            bt = T.parse(ns(b, 'type'))
            loc, chk = self.lv(st, fr, b)
            if loc[0] != 'agg': raise Unsupported('index of non-aggregate')
            _, at, obj, idx = loc
            if at[2] is not None:
                self.safety(st, fr, 'array-index', And(iv >= 0, iv < at[2]) if not isval(iv) else BoolVal(0 <= iv.as_long() < at[2]), self.line)
            if not (isval(idx) and idx.as_long() == 0):
                raise Unsupported('index in array of arrays')
            return self.elem_loc(T, et, obj, iv), chk
        if i == 'dereference':
            p = self.ev(st, fr, sub(e)[0])
            t = T.parse(ns(e, 'type'))
            o, ix = PO(p), self.pidx(st, p)
            return self.elem_loc(T, t, o, ix), (o, ix, T.sizeof(t), 'deref')
        if i == 'string_constant':
            return ('str', self.litobj(st, e), ival(0)), None
        if i == 'typecast':
            return self.lv(st, fr, sub(e)[0])
        if i == 'if':
            c, a, b = sub(e)
            raise Unsupported('conditional lvalue')
        if i in ('struct', 'constant', 'array'):
            # rvalue aggregate whose address/field is needed: materialise
            t = T.parse(ns(e, 'type'))
            o = self.alloc(st); self.setkind(st, T, t, o)
            self.wr1(st, 'LEN', o, ival(max(T.sizeof(t), 1)))
            self.store_agg(st, T, t, o, ival(0), self.ev(st, fr, e))
            return ('agg', t, o, ival(0)), None
        raise Unsupported('lvalue ' + i)

    def litobj(self, st, e):
        txt = nsid(e, 'value') or ''
        o = self.glob('lit:' + txt)
        st.assume(self.rd1(st, 'STR', o) == self.lit(txt))
        return o

    def check_access(self, st, fr, chk, what):
        if chk is None: return
        obj, idx, size, txt = chk
        if obj.decl().name() == 'reg' and isval(idx):
            pass
        L = self.rd1(st, 'LEN', obj)
        if self.o['char_mode'] == 'str' and size == 1:
            # character data is modelled as whole strings: only NULL / freed is checked
            self.safety(st, fr, what + ' of NULL or freed string', And(obj != NULLO, L >= 0), self.line)
            return
        if isval(idx):
            g = L >= (idx.as_long() + 1) * size
            if idx.as_long() < 0: g = BoolVal(False)
        else:
            g = And(idx >= 0, (idx + 1) * size <= L)
        self.safety(st, fr, what + ' in bounds', g, self.line)

    def load(self, st, fr, loc, chk):
        T = fr.fn.types
        k = loc[0]
        if k == 'var':
            v = st.vars.get(loc[1])
            if v is None:
                v = self.fresh('uninit', self.sortof(loc[2]))
                st.vars[loc[1]] = v
                self.loaded(st, v, loc[2])
            return v
        if k == 'fnref': return Ptr.mk(self.glob('fn:' + loc[1]), ival(0))
        if k == 'str':
            return charat(self.lit_of(loc[1]), loc[2])
        self.check_access(st, fr, chk, 'read')
        if k == 'mem':
            _, m, t, obj, idx = loc
            if t == ('int', 8, True) and self.o['char_mode'] == 'str' and m in ('i8',):
                return self.loadchar(st, obj, idx)
            v = self.rd(st, m, obj, idx)
            return self.loaded(st, v, t)
        if k == 'agg':
            return self.load_agg(st, T, loc[1], loc[2], loc[3])
        raise Unsupported('load ' + k)
    def lit_of(self, o):
        for kk, n in self.globs.items():
            if kk.startswith('lit:') and o.arg(0).as_long() == n: return self.lit(kk[4:])
        raise Unsupported('lit')
    def strval(self, st, p):
        o, i = PO(p), self.pidx(st, p)
        s = self.rd1(st, 'STR', o)
        if isval(i) and i.as_long() == 0: return s
        return If(i == 0, s, suffix(s, i))
    def loadchar(self, st, obj, idx):
        s = self.rd1(st, 'STR', obj)
        v = charat(s, idx)
        st.assume(And(v >= -128, v < 128))
        return v
    def leafs(self, T, t):
        pass
    def load_agg(self, st, T, t, obj, idx):
        if t[0] in ('struct', 'union'):
            out = SV()
            for f, ft in T.fields(t[1]):
                if f.startswith('$pad'): continue
                if ft[0] in ('struct', 'union', 'array'):
                    out[f] = self.load_agg(st, T, ft, self.emb(T, t[1], f, obj, idx), ival(0))
                else:
                    out[f] = self.loaded(st, self.rd(st, self.field_map(T, t[1], f, ft), obj, idx), ft)
            return out
        if t[0] == 'array':
            n = t[2]
            if t[1] == ('int', 8, True) and self.o['char_mode'] == 'str': return SV({'__str__': self.rd1(st, 'STR', obj)})
            if n is None or n > 64: return SV({'__array_of__': (obj, t)})
            out = SV()
            for k in range(n):
                et = t[1]
                if et[0] in ('struct', 'union', 'array'): out[k] = self.load_agg(st, T, et, obj, ival(k))
                else:
                    m = self.scalar_map(T, et)
                    out[k] = self.rd(st, m, obj, ival(k))
            return out
        raise Unsupported('load_agg')
    def store_agg(self, st, T, t, obj, idx, v):
        if t[0] in ('struct', 'union'):
            for f, ft in T.fields(t[1]):
                if f.startswith('$pad') or f not in v: continue
                if ft[0] in ('struct', 'union', 'array'):
                    self.store_agg(st, T, ft, self.emb(T, t[1], f, obj, idx), ival(0), v[f])
                else:
                    self.wr(st, self.field_map(T, t[1], f, ft), obj, idx, v[f])
        elif t[0] == 'array':
            if '__array_of__' in v:
                src, t2 = v['__array_of__']
                if t2[1][0] in ('struct', 'union', 'array'): raise Unsupported('large array of aggregates')
                m = self.scalar_map(T, t2[1])
                self.setinner(st, m, obj, self.sel1(self.getmap(st, m), src)); return
            if '__str__' in v:
                self.wr1(st, 'STR', obj, v['__str__']); return
            for k, x in v.items():
                et = t[1]
                if et[0] in ('struct', 'union', 'array'): self.store_agg(st, T, et, obj, ival(k), x)
                elif et == ('int', 8, True) and self.o['char_mode'] == 'str':
                    z = all(not isinstance(y, SV) and isval(y) and y.as_long() == 0 for y in v.values())
                    self.wr1(st, 'STR', obj, self.lit('') if z else self.fresh('chararr', Str)); break
                else: self.wr(st, self.scalar_map(T, et), obj, ival(k), x)
        else: raise Unsupported('store_agg')
    def store(self, st, fr, loc, chk, v):
        T = fr.fn.types
        k = loc[0]
        if k == 'var':
            st.vars[loc[1]] = v; return
        self.check_access(st, fr, chk, 'write')
        if k == 'mem':
            _, m, t, obj, idx = loc
            if m == 'apop_opts_type.log_file': return
            if t == ('int', 8, True) and self.o['char_mode'] == 'str' and m in ('i8',):
                s = self.rd1(st, 'STR', obj)
                self.wr1(st, 'STR', obj, charset(s, idx, v)); return
            self.wr(st, m, obj, idx, v); return
        if k == 'agg':
            self.store_agg(st, T, loc[1], loc[2], loc[3], v); return
        raise Unsupported('store ' + k)

    # ------------------------------------------------------------ expressions
    def zero(self, T, t):
        if t[0] in ('struct', 'union'):
            return SV({f: self.zero(T, ft) for f, ft in T.fields(t[1]) if not f.startswith('$pad')})
        if t[0] == 'array':
            if t[1] == ('int', 8, True) and self.o['char_mode'] == 'str': return SV({'__str__': self.lit('')})
            return SV({k: self.zero(T, t[1]) for k in range(min(t[2] or 0, 64))})
        s = self.sortof(t)
        return DEFAULT[str(s)]()

    def const(self, T, e):
        t = T.parse(ns(e, 'type'))
        v = nsid(e, 'value')
        if t[0] == 'int':
            n = int(v, 16)
            if t[2] and n >= 1 << (t[1] - 1): n -= 1 << t[1]
            return ival(n)
        if t[0] == 'bool': return BoolVal(v == 'true')
        if t[0] == 'ptr':
            if v in ('NULL', '0') or int(v, 16) == 0: return NULL
            return i2p(ival(int(v, 16)))
        if t[0] == 'float':
            n = int(v, 16)
            if t[1] in (32, 64):
                eb, mb = (8, 23) if t[1] == 32 else (11, 52)
            elif t[1] == 128: eb, mb = 15, 112
            else: raise Unsupported('float const')
            sgn = n >> (eb + mb); ex = (n >> mb) & ((1 << eb) - 1); man = n & ((1 << mb) - 1)
            bias = (1 << (eb - 1)) - 1
            if ex == (1 << eb) - 1:
                if man: return NANV
                return -INFV if sgn else INFV
            fr = fractions.Fraction(man, 1 << mb)
            val = (fr + 1) * fractions.Fraction(2) ** (ex - bias) if ex else fr * fractions.Fraction(2) ** (1 - bias)
            if sgn: val = -val
            return RealVal('%d/%d' % (val.numerator, val.denominator))
        raise Unsupported('constant of type %s' % (t,))

    def tobool(self, v):
        s = v.sort()
        if s == B: return v
        if s == I: return v != 0
        if s == R: return v != 0
        if s == Ptr: return Not(isnull(v))
        raise Unsupported('tobool')
    def toint(self, v):
        if v.sort() == B:
            return If(v, ival(1), ival(0))
        return v

    def ev(self, st, fr, e):
        T = fr.fn.types
        i = e['id']
        if i == 'constant':
            t = T.parse(ns(e, 'type'))
            return self.const(T, e)
        if i in ('symbol', 'member', 'index', 'dereference'):
            t = T.parse(ns(e, 'type'))
            if i == 'member':
                b = sub(e)[0]
                if b['id'] in ('struct', 'if', 'typecast', 'with'):
                    return self.ev(st, fr, b)[nsid(e, 'component_name')]
            loc, chk = self.lv(st, fr, e)
            if loc[0] == 'agg' and loc[1][0] == 'array':
                # array value in expression position
                return self.load(st, fr, loc, chk)
            return self.load(st, fr, loc, chk)
        if i == 'address_of':
            x = sub(e)[0]
            if x['id'] == 'string_constant':
                return Ptr.mk(self.litobj(st, x), ival(0))
            loc, chk = self.lv(st, fr, x)
            if loc[0] == 'str': return Ptr.mk(loc[1], loc[2])
            if loc[0] == 'fnref': return Ptr.mk(self.glob('fn:' + loc[1]), ival(0))
            if loc[0] == 'agg':
                return mkp(loc[2], loc[3])
            if loc[0] in ('raw',): return mkp(loc[2], loc[3])
            if loc[0] == 'mem':
                if x['id'] == 'member': return self.fieldaddr(loc)
                return mkp(loc[3], loc[4])
            raise Unsupported('address of ' + loc[0])
        if i == 'typecast':
            return self.cast(st, fr, T, sub(e)[0], T.parse(ns(e, 'type')))
        if i == 'not':
            return Not(self.tobool(self.ev(st, fr, sub(e)[0])))
        if i in ('and', 'or'):
            return self.shortcircuit(st, fr, e)
        if i == 'if':
            c, a, b = sub(e)
            cv = simplify(self.tobool(self.ev(st, fr, c)))
            if is_true(cv): return self.ev(st, fr, a)
            if is_false(cv): return self.ev(st, fr, b)
            ncv = simplify(Not(cv))
            if cv.get_id() in st.seen: return self.ev(st, fr, a)
            if ncv.get_id() in st.seen: return self.ev(st, fr, b)
            va = self.guarded(st, fr, cv, a); vb = self.guarded(st, fr, Not(cv), b)
            # x ? x : 0  is x
            if not isinstance(va, SV) and va.sort() == Ptr and vb.eq(NULL) and cv.eq(simplify(Not(isnull(va)))): return va
            if not isinstance(va, SV) and va.sort() == I and not isinstance(vb, SV) and vb.sort() == I and isval(vb) and vb.as_long() == 0 and cv.eq(simplify(va != 0)): return va
            return self.ite(cv, va, vb)
        if i in ('=', 'notequal', 'ieee_float_equal', 'ieee_float_notequal'):
            a, b = self.ev(st, fr, sub(e)[0]), self.ev(st, fr, sub(e)[1])
            if a.sort() == Ptr:
                if a.eq(NULL): r = isnull(b)
                elif b.eq(NULL): r = isnull(a)
                else: r = a == b
            else:
                a, b = self.coerce(a, b)
                r = a == b
                self.logcmp(a, b)
            return r if i in ('=', 'ieee_float_equal') else Not(r)
        if i in ('<', '>', '<=', '>='):
            a, b = self.ev(st, fr, sub(e)[0]), self.ev(st, fr, sub(e)[1])
            if a.sort() == Ptr: a, b = PI(a), PI(b)
            a, b = self.coerce(a, b)
            self.logcmp(a, b)
            return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[i]
        if i in ('+', '-', '*', '/', 'mod'):
            t = T.parse(ns(e, 'type'))
            vs = [self.ev(st, fr, x) for x in sub(e)]
            ts = [T.parse(ns(x, 'type')) for x in sub(e)]
            r, rt = vs[0], ts[0]
            for v, vt in zip(vs[1:], ts[1:]):
                r = self.arith(st, fr, i, r, rt, v, vt, t); rt = t if t[0] != 'ptr' or rt[0] == 'ptr' else rt
            return r
        if i == 'unary-':
            v = self.ev(st, fr, sub(e)[0])
            t = T.parse(ns(e, 'type'))
            if isval(v):
                n = -v.as_long()
                if t[0] == 'int' and not t[2] and n < 0: n += 1 << t[1]
                return ival(n)
            if t[0] == 'int' and not t[2]: return If(v == 0, ival(0), ival(1 << t[1]) - v)
            return -v
        if i == 'unary+': return self.ev(st, fr, sub(e)[0])
        if i == 'struct':
            t = T.parse(ns(e, 'type'))
            out = SV(); fl = T.fields(t[1])
            for (f, ft), x in zip(fl, sub(e)):
                if f.startswith('$pad'): continue
                out[f] = self.ev(st, fr, x)
            return out
        if i == 'union':
            t = T.parse(ns(e, 'type'))
            return SV({nsid(e, 'component_name'): self.ev(st, fr, sub(e)[0])})
        if i == 'array':
            return SV({k: self.ev(st, fr, x) for k, x in enumerate(sub(e))})
        if i == 'string_constant':
            return SV({'__str__': self.lit(nsid(e, 'value') or '')})
        if i == 'isnan': return isnan(self.ev(st, fr, sub(e)[0]))
        if i == 'isinf':
            v = self.ev(st, fr, sub(e)[0]); return Or(v == INFV, v == -INFV)
        if i == 'sign': return self.ev(st, fr, sub(e)[0]) < 0
        if i in ('shl', 'lshr', 'ashr', 'bitand', 'bitor', 'bitxor'):
            a, b = [self.ev(st, fr, x) for x in sub(e)]
            if i == 'shl' and isval(b): return mulv(a, ival(1 << b.as_long()))
            F = Function('bv_' + i, I, I, I)
            return F(a, b)
        if i == 'side_effect':
            t = T.parse(ns(e, 'type'))
            if t[0] == 'void': return None
            v = self.fresh('nondet', self.sortof(t)); self.loaded(st, v, t); return v
        if i == 'nil': return None
        raise Unsupported('expression ' + i)

    def logcmp(self, a, b):
        if self.cmps is not None and a.sort() == I: self.cmps.append((a, b))

    def fieldaddr(self, loc):
        # address of a scalar struct field as a first-class pointer is not modelled
        raise Unsupported('address of scalar field ' + loc[1])

    def coerce(self, a, b):
        if a.sort() == b.sort(): return a, b
        if a.sort() == B and b.sort() == I: return self.toint(a), b
        if a.sort() == I and b.sort() == B: return a, self.toint(b)
        if a.sort() == I and b.sort() == R: return ToReal(a), b
        if a.sort() == R and b.sort() == I: return a, ToReal(b)
        raise Unsupported('coerce %s %s' % (a.sort(), b.sort()))

    def ite(self, c, a, b):
        if isinstance(a, SV):
            return SV({k: self.ite(c, a[k], b[k]) for k in a if k in b})
        if a is b or a.eq(b): return a
        a, b = self.coerce(a, b)
        return If(c, a, b)

    def guarded(self, st, fr, c, e):
        """evaluate e under condition c; its safety obligations & facts are relative to c"""
        s2 = st.copy(); n = len(s2.facts)
        s2.assume(c)
        v = self.ev(s2, fr, e)
        base = n + (1 if len(s2.facts) > n and s2.facts[n].eq(c) else 0)
        for f in s2.facts[base:]: st.assume(Implies(c, f))
        st.top = s2.top
        return v

    def shortcircuit(self, st, fr, e):
        isand = e['id'] == 'and'
        acc = []
        for x in sub(e):
            cond = And(acc) if isand else And([Not(a) for a in acc]) if acc else BoolVal(True)
            if not acc: v = self.tobool(self.ev(st, fr, x))
            else:
                v = self.guarded(st, fr, cond, x)
                v = self.tobool(v)
            v = simplify(v) if not self.hasq(v) else v
            if isand and is_false(v): return BoolVal(False) if not acc else And(acc + [v])
            if not isand and is_true(v): return BoolVal(True) if not acc else Or(acc + [v])
            if (isand and is_true(v)) or (not isand and is_false(v)): continue
            acc.append(v)
        if not acc: return BoolVal(isand)
        if len(acc) == 1: return acc[0]
        return And(acc) if isand else Or(acc)

    def wrapint(self, st, v, t):
        """exact conversion of a mathematical integer to C int type t"""
        w, s = t[1], t[2]
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        if isval(v):
            n = v.as_long() & ((1 << w) - 1)
            if s and n >= 1 << (w - 1): n -= 1 << w
            return ival(n)
        if self.quick(st.facts, And(v >= lo, v <= hi)): return v
        m = v % ival(1 << w)
        if s: return If(And(v >= lo, v <= hi), v, If(m >= 1 << (w - 1), m - (1 << w), m))
        return If(And(v >= lo, v <= hi), v, m)

    def wrapped(self, v):
        """does the term contain a wrapped size_t subtraction?"""
        c = self.__dict__.setdefault('_wr', {}); k = v.get_id()
        if k not in c: c[k] = (v, (is_int_value(v) and v.as_long() >= 1 << 63) or any(self.wrapped(x) for x in v.children()))
        return c[k][1]
    def arith(self, st, fr, op, a, at, b, bt, t):
        if op in ('+', '-') and (at[0] == 'ptr' or bt[0] == 'ptr'):
            if at[0] == 'ptr' and bt[0] == 'ptr':
                return subt(PI(a), PI(b))
            if bt[0] == 'ptr': a, b, at, bt = b, a, bt, at
            b = self.toint(b)
            # size_t offsets that encode negatives
            if isval(b) and b.as_long() >= 1 << 63: b = ival(b.as_long() - (1 << 64))
            return mkp(PO(a), add(self.pidx(st, a), b) if op == '+' else subt(self.pidx(st, a), b))
        if t[0] == 'float':
            a = a if a.sort() == R else ToReal(self.toint(a)); b = b if b.sort() == R else ToReal(self.toint(b))
            if op == '+': return a + b
            if op == '-': return a - b
            if op == '*': return a * b
            if op == '/': return a / b
            raise Unsupported('float ' + op)
        a, b = self.toint(a), self.toint(b)
        uns = t[0] == 'int' and not t[2]
        if op == '+':
            if uns and isval(b) and b.as_long() >= 1 << (t[1] - 1):   # adding a negative constant
                return self.usub(st, a, ival((1 << t[1]) - b.as_long()), t)
            if uns and isval(a) and a.as_long() >= 1 << (t[1] - 1):
                return self.usub(st, b, ival((1 << t[1]) - a.as_long()), t)
            # a negative signed operand converted to unsigned: the sum wraps back (exact); otherwise sums are mathematical (listed assumption)
            if uns:
                pa, pb = signedpre(a, t[1]), signedpre(b, t[1])
                if (pa is None) != (pb is None):
                    r = add(pa if pa is not None else a, pb if pb is not None else b)
                    if self.quick(st.facts, r >= 0): return r
                    return If(r >= 0, r, r + (1 << t[1]))
            r = add(a, b)
            if uns and not isval(r): 
                return self.wrapint(st, r, t) if self.o.get('wrapu') else r
            return self.wrapint(st, r, t) if isval(r) else r
        if op == '-':
            if uns: return self.usub(st, a, b, t)
            r = subt(a, b)
            return r
        if op == '*':
            r = mulv(a, b)
            return self.wrapint(st, r, t) if uns and self.o.get('wrapu') else r
        if op == '/':
            if isval(b) and b.as_long() > 0 and (uns or self.quick(st.facts, a >= 0)): 
                return a / b
            if uns or self.quick(st.facts, And(a >= 0, b > 0)): return a / b
            return If(b > 0, If(a >= 0, a / b, -((-a) / b)), If(a >= 0, -(a / (-b)), (-a) / (-b)))
        if op == 'mod':
            if uns or self.quick(st.facts, And(a >= 0, b > 0)): return a % b
            return If(a >= 0, a % b, -((-a) % b))
        raise Unsupported('arith ' + op)
    def usub(self, st, a, b, t):
        if isval(a) and isval(b):
            return ival((a.as_long() - b.as_long()) % (1 << t[1]))
        r = subt(a, b)
        if isval(r): return ival(r.as_long() % (1 << t[1]))
        if self.quick(st.facts, a >= b): return r
        return If(a >= b, r, r + (1 << t[1]))

    def cast(self, st, fr, T, x, t):
        xt = T.parse(ns(x, 'type'))
        v = self.ev(st, fr, x)
        if t[0] == 'void': return None
        if t[0] == 'bool': return self.tobool(v)
        if t[0] == 'ptr':
            if xt[0] == 'ptr':
                a, b = xt[1], t[1]
                if v.eq(NULL) or a == b: return v
                ix = PI(v)
                if isval(ix) and ix.as_long() == 0: return v
                try:
                    sa, sb = T.sizeof(a), T.sizeof(b)
                except Unsupported: sa = sb = 1
                if sa == sb or b[0] in ('void', 'code') or a[0] in ('void', 'code') : return v
                if a == ('int', 8, True) or b == ('int', 8, True): return v
                raise Unsupported('pointer cast with offset %s -> %s' % (T.name(a), T.name(b)))
            if xt[0] == 'int':
                if isval(v) and v.as_long() == 0: return NULL
                return i2p(v)
            if xt[0] == 'array':
                loc, chk = self.lv(st, fr, x); return mkp(loc[2], ival(0))
            raise Unsupported('cast to pointer')
        if xt[0] == 'ptr':
            if t[0] == 'int': return p2i(v)
            raise Unsupported('cast from pointer')
        if t[0] == 'int':
            if xt[0] == 'bool': return self.toint(v)
            if xt[0] == 'float':
                if v.decl().kind() == Z3_OP_DIV and v.arg(0).decl().kind() == Z3_OP_TO_REAL and is_rational_value(v.arg(1)) and v.arg(1).denominator_as_long() == 1 and v.arg(1).numerator_as_long() > 0:
                    m = v.arg(0).arg(0); c = ival(v.arg(1).numerator_as_long())      # truncation of an integer quotient
                    return m / c if self.quick(st.facts, m >= 0) else If(m >= 0, m / c, -((-m) / c))
                r = ToInt(v)
                return If(v >= 0, r, -ToInt(-v))
            if xt == t: return v
            # widening?
            if xt[0] == 'int':
                lo = xt[1] < t[1] and (t[2] or not xt[2])
                if lo or (xt[1] == t[1] and xt[2] == t[2]): return v
                if xt[1] == t[1] == 64 and t[2] and not isval(v) and not self.wrapped(v): return v    # size_t values are below 2^63
            return self.wrapint(st, v, t)
        if t[0] == 'float':
            if v.sort() == R: return v
            v = self.toint(v)
            return RealVal(v.as_long()) if isval(v) else ToReal(v)
        if t[0] in ('struct', 'union'): return v
        raise Unsupported('cast %s -> %s' % (xt, t))

    # ------------------------------------------------------------ statements
    def branch(self, st, c):
        """split st on boolean c -> (st_true | None, st_false | None)"""
        c = simplify(c) if not self.hasq(c) else c
        if is_true(c): return st, None
        if is_false(c): return None, st
        nc = simplify(Not(c))
        if c.get_id() in st.seen: return st, None
        if nc.get_id() in st.seen: return None, st
        if self.quick(st.facts, c): return st, None
        if self.quick(st.facts, nc): return None, st
        a, b = st, st.copy()
        a.assume(c); b.assume(nc)
        return a, b

    def same(self, a, b):
        if a.top.off != b.top.off or not a.top.base.eq(b.top.base): return False
        if len(a.vars) != len(b.vars) or len(a.mem) != len(b.mem): return False
        for k, v in a.vars.items():
            w = b.vars.get(k)
            if w is None: return False
            if isinstance(v, LObj) or isinstance(w, LObj):
                if not (isinstance(v, LObj) and isinstance(w, LObj) and v.obj.eq(w.obj)): return False
            elif not v.eq(w): return False
        for k, v in a.mem.items():
            if k not in b.mem or not v.eq(b.mem[k]): return False
        if (a.ret is None) != (b.ret is None): return False
        if a.ret is not None and not self.sameval(a.ret, b.ret): return False
        for k, v in a.ghost.items():
            if b.ghost.get(k) is not v: return False
        return True
    def sameval(self, a, b):
        if isinstance(a, SV): return isinstance(b, SV) and all(k in b and self.sameval(a[k], b[k]) for k in a)
        if isinstance(b, SV): return False
        return a.eq(b)

    def split_facts(self, a, b):
        n = 0
        while n < len(a.facts) and n < len(b.facts) and a.facts[n].eq(b.facts[n]): n += 1
        return n
    def merge_same(self, a, b):
        n = self.split_facts(a, b)
        ra, rb = a.facts[n:], b.facts[n:]
        out = a.copy(); out.pz = {}
        out.facts = a.facts[:n]
        idb = {f.get_id() for f in rb}
        common = [f for f in ra if f.get_id() in idb]
        ca = [f for f in ra if f.get_id() not in idb]
        ida = {f.get_id() for f in ra}
        cb = [f for f in rb if f.get_id() not in ida]
        out.seen = {f.get_id() for f in out.facts}
        if not self.o.get('keepcommon'): out.seen |= a.seen & b.seen      # facts both learned after they parted are forgotten unless asked for
        for f in common: out.assume(f)
        if ca and cb:
            o = Or(And(ca), And(cb))
            if not any(self.hasq(x) for x in ca + cb):
                o = simplify(o)
                if not is_true(o) and not self.opaque(o): out.assume(o)
            else: out.assume(o)
        out.seen &= {f.get_id() for f in out.facts}
        return out
    def opaque(self, f):
        """facts about apop_opts logging switches only: worthless, drop"""
        return all(n.name().startswith('M0_apop_opts') or n.name() in ('globid',) for n in funcs_in([f]))

    def merge_ite(self, a, b):
        n = self.split_facts(a, b)
        ra, rb = a.facts[n:], b.facts[n:]
        if not ra: ra = [BoolVal(True)]
        ca = And(ra) if len(ra) > 1 else ra[0]
        # name the condition
        c = self.fresh('br', B)
        out = a.copy(); out.pz = {}
        out.facts = a.facts[:n]
        out.seen = {f.get_id() for f in out.facts}
        for f in ra: out.assume(Implies(c, f))
        for f in rb: out.assume(Implies(Not(c), f))
        for k in set(a.vars) | set(b.vars):
            va, vb = a.vars.get(k), b.vars.get(k)
            if va is None or vb is None:
                out.vars.pop(k, None); continue
            if isinstance(va, LObj) or isinstance(vb, LObj):
                if isinstance(va, LObj) and isinstance(vb, LObj):
                    out.vars[k] = va if va.obj.eq(vb.obj) else LObj(If(c, va.obj, vb.obj))
                else: raise Unsupported('merge of local object with value')
                continue
            out.vars[k] = self.ite(c, va, vb)
        for k in set(a.mem) | set(b.mem):
            ma, mb = self.getmap(a, k), self.getmap(b, k)
            if ma.eq(mb): out.mem[k] = ma
            else:
                nm = self.fresh('mrg_' + k, ma.sort())
                out.assume(Implies(c, nm == ma)); out.assume(Implies(Not(c), nm == mb))
                out.mem[k] = nm
        if not (a.top.base.eq(b.top.base) and a.top.off == b.top.off):
            t = self.newtop()
            self.topbases[t.base.get_id()] = t.rank; self._keep.append(t.base)
            out.assume(And(t.base >= a.top.term(), t.base >= b.top.term()))
            out.top = t
        if a.ret is not None and b.ret is not None: out.ret = self.ite(c, a.ret, b.ret)
        return out

    def dedupe(self, sts):
        out = []
        for s in sts:
            for k, x in enumerate(out):
                if self.same(x, s):
                    out[k] = self.merge_same(x, s); break
            else: out.append(s)
        return out

    def region(self, fr, work, lo, hi, loophead=None):
        """run instructions lo..hi from states in `work` {idx:[states]}; returns exits [(idx, state)]"""
        exits = []
        fn = fr.fn
        while work:
            idx = min(work)
            sts = self.dedupe(work.pop(idx))
            lim = self.o['maxstates']
            while len(sts) > lim:
                m = self.merge_ite(sts[-2], sts[-1]); sts = sts[:-2] + [m]
            if idx in fn.loops and idx != loophead:
                for s in self.loop(fr, idx, sts):
                    self.push(work, exits, s[0], s[1], lo, hi, loophead)
                continue
            first = True
            for s in sts:
                for (t, s2) in self.step(fr, s, idx, loophead):
                    self.push(work, exits, t, s2, lo, hi, loophead)
        return exits
    def push(self, work, exits, t, s, lo, hi, loophead):
        if t == loophead or t < lo or t > hi: exits.append((t, s))
        else: work.setdefault(t, []).append(s)

    def step(self, fr, st, idx, loophead):
        """execute from idx until a branch or join; returns [(idx, state)]"""
        fn = fr.fn
        i = fn.ins[idx]
        if self.deadline and time.time() > self.deadline: raise Give('symbolic execution time limit')
        self.line = i.line
        k = i.kind
        if k in ('SKIP', 'LOCATION', 'OTHER'): return [(idx + 1, st)]
        if k == 'END_FUNCTION': return [(-1, st)]
        if k == 'DECL':
            ident = nsid(i.sym, 'identifier'); key = self.key(fr, ident)
            st.vars.pop(key, None)
            return [(idx + 1, st)]
        if k == 'DEAD':
            key = self.key(fr, nsid(i.sym, 'identifier'))
            st.vars.pop(key, None)
            return [(idx + 1, st)]
        if k == 'GOTO':
            if const_false(i.guard): return [(idx + 1, st)]
            g = i.guard
            if g['id'] == 'constant': return [(i.target, st)]
            c = self.tobool(self.ev(st, fr, g))
            a, b = self.branch(st, c)
            out = []
            if a is not None:
                a.trace = a.trace + ((fn.name, i.line, True),); out.append((i.target, a))
            if b is not None:
                b.trace = b.trace + ((fn.name, i.line, False),); out.append((idx + 1, b))
            return out
        if k in ('ASSERT', 'ASSUME'): return [(idx + 1, st)]
        if k == 'ASSIGN':
            v = self.ev(st, fr, i.rhs)
            self.assign(st, fr, i.lhs, v)
            return [(idx + 1, st)]
        if k == 'SET_RETURN_VALUE':
            if i.rhs['id'] != 'nil': st.ret = self.ev(st, fr, i.rhs)
            return [(idx + 1, st)]
        if k == 'FUNCTION_CALL':
            return [(idx + 1, s) for s in self.call(fr, st, i)]
        raise Unsupported('instruction ' + k)

    def assign(self, st, fr, lhs, v):
        T = fr.fn.types
        if lhs['id'] == 'typecast': lhs = sub(lhs)[0]
        loc, chk = self.lv(st, fr, lhs)
        if v is None: return
        if not isinstance(v, SV):
            t = loc[2] if loc[0] in ('var', 'mem') else None
            if t is not None:
                want = self.sortof(t)
                if v.sort() != want:
                    if want == I and v.sort() == B: v = self.toint(v)
                    elif want == B: v = self.tobool(v)
                    elif want == R and v.sort() == I: v = ToReal(v)
                    elif want == I and v.sort() == R: v = If(v >= 0, ToInt(v), -ToInt(-v))
        self.store(st, fr, loc, chk, v)

    # ------------------------------------------------------------ calls
    def call(self, fr, st, i):
        T = fr.fn.types
        if i.fn['id'] == 'symbol' :
            name = nsid(i.fn, 'identifier')
        else:
            name = None
        if name in self.lib.SPECIAL:
            outs = self.lib.SPECIAL[name](self, st, fr, i)
        else:
            args = [self.ev(st, fr, a) for a in i.args]
            outs = self.docall(fr, st, name, i, args)
        res = []
        for s, r in outs:
            if i.lhs is not None and r is not None:
                self.assign(s, fr, i.lhs, r)
            res.append(s)
        return res

    def docall(self, fr, st, name, i, args):
        T = fr.fn.types
        if name is None:
            p = self.ev(st, fr, i.fn if i.fn['id'] != 'dereference' else sub(i.fn)[0])
            return self.callptr(fr, st, p, i, args)
        uname = '%s@%s' % (name, fr.fn.unit)
        if uname in self.contracts: name = uname
        if name in self.contracts and name not in self.o.get('inline', []):
            c = self.contracts[name]
            if not (c.get('inline')):
                return self.callcontract(fr, st, name, c, args, i)
        if name in self.lib.LIB:
            self.used_trusted.add(name)
            r = self.lib.LIB[name](self, st, fr, args, i)
            return r if isinstance(r, list) else [(st, r)]
        f = self.prog.find(name, fr.fn.unit_obj)
        if f is not None:
            if fr.depth >= self.o['inline_depth']: raise Unsupported('inline depth at ' + name)
            return self.inline(fr, st, f, args)
        raise Unsupported('call to %s without body, contract or library model' % name)

    def callptr(self, fr, st, p, i, args):
        o = PO(p)
        self.safety(st, fr, 'call through NULL function pointer', Not(isnull(p)), self.line)
        h = self.callptr_model
        if o.decl().name() == 'glob' and isval(o.arg(0)):
            for k, n in self.globs.items():
                if n == o.arg(0).as_long() and k.startswith('fn:'):
                    return self.docall(fr, st, k[3:], i, args)
        if h is None: raise Unsupported('call through function pointer')
        return h(self, st, fr, p, args, i)

    def inline(self, fr, st, f, args):
        self.inlined.add(f.name)
        f2 = self.frame(f, fr.depth + 1)
        f2.cfn = fr.cfn
        saved_ret = st.ret
        st.ret = None
        self.bind(st, f2, args)
        outs = self.runbody(f2, st)
        res = []
        for s in outs:
            r = s.ret
            s.ret = saved_ret
            pre = '%d#' % f2.id
            for k in [k for k in s.vars if k.startswith(pre)]: s.vars.pop(k)
            res.append((s, r))
        # results that are the same are merged
        merged = []
        for s, r in res:
            for k, (s0, r0) in enumerate(merged):
                if ((r is None and r0 is None) or (r is not None and r0 is not None and self.sameval(r, r0))) and self.same(s0, s):
                    merged[k] = (self.merge_same(s0, s), r); break
            else: merged.append((s, r))
        return merged
    def frame(self, f, depth):
        f.unit_obj = self.prog.units[f.unit]
        return Frame(f, next(self.frameid), depth)
    def bind(self, st, fr, args):
        T = fr.fn.types
        for ident, v in zip(fr.fn.params, args):
            k = self.key(fr, ident)
            if isinstance(v, SV) or ident in fr.fn.addrtaken:
                tt = fr.fn.symtypes.get(ident)
                if tt is None: continue
                t = T.parse(tt)
                o = self.alloc(st); st.vars[k] = LObj(o); self.setkind(st, T, t, o)
                self.wr1(st, 'LEN', o, ival(max(T.sizeof(t), 1)))
                if isinstance(v, SV): self.store_agg(st, T, t, o, ival(0), v)
                else:
                    loc = self.elem_loc(T, t, o, ival(0)); self.wr(st, loc[1], o, ival(0), v)
            elif v is not None: st.vars[k] = v
    def runbody(self, fr, st):
        n = len(fr.fn.ins)
        if self.o.get('eager') and fr.depth == 0:      # aggregate locals exist from the start, the same object on every path
            T = fr.fn.types
            for ident, tt in sorted(fr.fn.symtypes.items()):
                if tt is None or ident in fr.fn.params: continue
                try: t = T.parse(tt)
                except Exception: continue
                k = self.key(fr, ident)
                if t[0] in ('struct', 'union') and st.vars.get(k) is None and not self.isglobal(fr, ident):
                    o = self.alloc(st); st.vars[k] = LObj(o); self.setkind(st, T, t, o)
                    try: self.wr1(st, 'LEN', o, ival(max(T.sizeof(t), 1)))
                    except Unsupported: pass
        ex = self.region(fr, {0: [st]}, 0, n - 1)
        return [s for t, s in ex]

    def callcontract(self, fr, st, name, c, args, i):
        if name in self.unreach and not self.suppress:
            self.oblige(st, '%s/call %s is not reached under the precondition' % (fr.cfn, name), BoolVal(False), 'assertion', self.line)
        elif name not in self.unreach: self.used_contracts.add(name)
        old = st.copy()
        ctx = Ctx(self, fr, old, None, dict(zip(c['params'], args)), None)
        gh = self.callghosts.get(name)      # values of the callee's ghost parameters (it is proved for all of them)
        gs = [(a, b) for a, b in gh(ctx)] if gh else []
        inst = (lambda f: substitute(f, *gs)) if gs else (lambda f: f)
        for lab, f in c['requires'](ctx) if c.get('requires') else []:
            f = inst(f)
            self.oblige(st, '%s/call %s requires %s' % (fr.cfn, name, lab), f, 'precondition', self.line)
        new = st
        ctx = Ctx(self, fr, old, new, dict(zip(c['params'], args)), None)
        # allocation may happen
        t = self.newtop(); self.topbases[t.base.get_id()] = t.rank; self._keep.append(t.base)
        new.assume(t.base >= old.top.term())
        if c.get('allocates', True): new.top = t
        for m, what in (c['modifies'](ctx) if c.get('modifies') else []):
            if gs: what = [inst(o) for o in what] if isinstance(what, list) else (what[0], [inst(o) for o in what[1]]) if what[0] == 'fresh+' else what
            self.havocmap(new, m, what, old)
        rt = c.get('rettype')
        ret = None
        if rt:
            ret = self.fresh('ret_' + name, {'ptr': Ptr, 'int': I, 'real': R, 'u64': I, 'i32': I, 'char': I}[rt])
            if rt == 'ptr': self.loaded(new, ret, ('ptr', ('void',)))
            elif rt == 'u64': self.loaded(new, ret, ('int', 64, False))
            elif rt == 'i32': self.loaded(new, ret, ('int', 32, True))
            elif rt == 'char': self.loaded(new, ret, ('int', 8, True))
        ctx.ret = ret
        use = self.calluse.get(name)     # a caller may use only part of the callee's (proved) postcondition
        for lab, f in c['ensures'](ctx):
            if use is None or use(lab): new.assume(inst(f))
        return [(new, ret)]

    def havocmap(self, st, m, what, old):
        """what: list of object terms | 'fresh' | 'all' | ('fresh+', [objs])"""
        M = self.getmap(st, m)
        one = m in ('LEN', 'STR')
        if isinstance(what, tuple) and what[0] == 'pred':
            if self.writes is not None: self.writes.append((m, None, None))
            nm = self.fresh('hv_' + m, M.sort()); o = Const('o?', Obj)
            st.assume(FA([o], Implies(Not(what[1](o)), nm[o] == M[o]), [nm[o]]))
            st.mem[m] = nm
        elif what == 'all':
            if self.writes is not None: self.writes.append((m, None, None))
            st.mem[m] = self.fresh('hv_' + m, M.sort())
        elif what == 'fresh' or (isinstance(what, tuple) and what[0] == 'fresh+'):
            objs = what[1] if isinstance(what, tuple) else []
            if self.writes is not None:
                self.writes.append((m, 'FRESH', old.top))
                for o in objs: self.writes.append((m, o, None))
            nm = self.fresh('hv_' + m, M.sort())
            o = Const('o?', Obj)
            st.assume(FA([o], Implies(And([rootid(o) <= old.top.term()] + [o != x for x in objs]), nm[o] == M[o]), [nm[o]]))
            st.mem[m] = nm
        else:
            for o in what:
                if one: self.wr1(st, m, o, self.fresh('hv_' + m, M.sort().range()))
                else:
                    inner = self.fresh('hv_' + m, M.sort().range()); self.setinner(st, m, o, inner)
                    if self.maps.get(m) == Ptr:
                        k = Int('k?'); st.assume(FA([k], rootid(Ptr.obj(inner[k])) <= st.top.term(), [inner[k]]))
        if m == 'LEN': st.assume(st.mem['LEN'][NULLO] == 0)    # nothing allocates or frees the null object
        elif what != 'fresh': st.assume(st.mem[m][NULLO] == M[NULLO])     # nor writes to it (every write is checked to be inside a live object)
        self.ptr_wf(st, m)
    def ptr_wf(self, st, m):
        """every pointer stored in a havocked map refers to something already allocated"""
        if m in self.maps and self.maps[m] == Ptr:
            M = st.mem[m]
            if is_app(M) and M.decl().kind() == Z3_OP_UNINTERPRETED and M.num_args() == 0:
                o, k = Const('o?', Obj), Int('k?')
                st.assume(FA([o, k], rootid(Ptr.obj(M[o][k])) <= st.top.term(), [M[o][k]]))

    # ------------------------------------------------------------ loops
    def modvars(self, fr, head, last):
        out = set()
        declared = set()
        for i in fr.fn.ins[head:last + 1]:
            if i.kind == 'DECL': declared.add(nsid(i.sym, 'identifier'))
        for i in fr.fn.ins[head:last + 1]:
            l = i.lhs
            if i.kind in ('ASSIGN', 'FUNCTION_CALL') and l is not None:
                while l['id'] in ('member', 'index', 'typecast'): l = sub(l)[0]
                if l['id'] == 'symbol': out.add(nsid(l, 'identifier'))
        return out

    def loop(self, fr, head, entries):
        fn = fr.fn
        last = fn.loops[head]
        res = []
        while len(entries) > self.o['maxloopstates']:
            entries = entries[:-2] + [self.merge_ite(entries[-2], entries[-1])]
        for ei, S in enumerate(entries):
            res += self.loop1(fr, head, last, S, '%s.%d' % (fn.name, sorted(fn.loops).index(head)))
        return res

    def loop1(self, fr, head, last, S, lname):
        fn = fr.fn; T = fn.types
        mv = []
        for ident in self.modvars(fr, head, last):
            k = self.key(fr, ident)
            if k in st_vars(S) and not isinstance(S.vars[k], LObj) and not isinstance(S.vars[k], SV):
                mv.append((k, ident, S.vars[k]))
        mv.sort()
        # try a statically bounded unroll: small constant trip count loops are executed directly
        u = self.unroll(fr, head, last, S)
        if u is not None: return u
        hav = {}
        wrapsup = (self.suppress, self.writes, self.cmps)
        bounds = []
        for rnd in range(12):
            F = set(); self.suppress += 1
            ow, oc = self.writes, self.cmps
            self.writes, self.cmps = [], []
            H, ctxinfo = self.havoc_state(fr, S, mv, hav, F, lname)
            H0 = H.copy()
            self.discover += 1
            try:
                # optimistic frames may make a path infeasible or unsupported only while discovering
                self.region(fr, {head: [H]}, head, last, loophead=head)
            finally:
                self.suppress -= 1; self.discover -= 1
                wr, cm = self.writes, self.cmps
                self.writes, self.cmps = ow, oc
            if ow is not None: pass
            cache = {}
            changed = False
            for m, o, ix in wr:
                h = hav.setdefault(m, dict(kind='objs', objs=[], new=True))
                if h.pop('new', False): changed = True
                if h['kind'] == 'all': continue
                if o is None:
                    h['kind'] = 'all'; changed = True; continue
                if isinstance(o, str) and o == 'FRESH':
                    if h['kind'] != 'fresh': h['kind'] = 'fresh'; changed = True
                    continue
                if any(x.eq(o) for x in h['objs']): continue
                ro = o
                while ro.decl().name() == 'emb' : ro = ro.arg(1)
                if ro.decl().name() == 'reg':
                    k = self.topkey_of_reg(ro)
                    if k is not None and k > ctxinfo['topkey'] :
                        if h['kind'] != 'fresh': h['kind'] = 'fresh'; changed = True
                        continue
                if not mentions(o, F, cache):
                    h['objs'].append(o); changed = True
                else:
                    h['kind'] = 'all'; changed = True
                    if o.decl().name() == 'emb' and not mentions(ro, F, cache) and not self.mentions_fresh_since(ro, ctxinfo['mark']): h.setdefault('roots', []).append(ro)
            for a, b in cm:
                for x in (a, b):
                    if not isval(x) and x.sort() == I and not mentions(x, F, cache) and not any(x.eq(y) for y in bounds):
                        # must not mention things created inside the body
                        if not self.mentions_fresh_since(x, ctxinfo['mark']): bounds.append(x)
            if not changed: break
        else:
            raise Give('loop frame analysis did not converge in ' + lname)
        # write objects that mention symbols created inside the body are not loop invariant either
        for m, h in hav.items():
            for o in h['objs']:
                if self.mentions_fresh_since(o, ctxinfo['mark']): h['kind'] = 'all'
        # ---- candidate invariants
        if self.discover:       # an enclosing loop is only collecting what is written: no invariants needed
            H, ci = self.havoc_state(fr, S, mv, hav, set(), lname)
            return self.finish_loop(fr, head, last, S, H, [], mv, lname)
        F = set()
        H, ci = self.havoc_state(fr, S, mv, hav, F, lname)
        cands = self.candidates(fr, S, H, mv, hav, bounds, lname)
        # entry filter + Houdini
        hint = self.hints.get(lname)
        names = [c[0] for c in cands]
        alive = list(cands)
        if hint is not None:
            alive = [c for c in cands if c[0] in hint]; self.hinted = True
        if HDBG and HDBG in lname:
            for c in alive:
                if not self.provec(S.facts, c, S): print('HOUDINI drop init', lname, c[0], flush=True)
        # an enclosing loop's search only ever weakens what is known here: what was dropped on the last visit stays dropped
        n = self.visits[lname] = self.visits.get(lname, -1) + 1
        dropped = self.drops.setdefault((lname, n), set())
        alive = [c for c in alive if c[0] not in dropped]
        alive = [c for c in alive if self.provec(S.facts, c, S)]
        outer = (self.visits, self.drops); self.drops = {}
        while True:
            self.visits = {}
            failing = self.houdini_round(fr, head, last, S, H, alive, mv, lname)
            if not failing: break
            alive = [c for c in alive if c[0] not in failing]
        if HDBG and HDBG in lname: print('HOUDINI kept', lname, [c[0] for c in alive if c[0][:2] == 'T:'], flush=True)
        keep = {c[0] for c in alive}
        dropped |= {c[0] for c in cands if c[0] not in keep}
        self.visits = {}
        try: return self.finish_loop(fr, head, last, S, H, alive, mv, lname)
        finally: self.visits, self.drops = outer

    def mentions_fresh_since(self, x, mark):
        for d in funcs_in([x]):
            n = d.name()
            if '!' in n:
                try:
                    if int(n.rsplit('!', 1)[1]) >= mark: return True
                except ValueError: pass
        return False

    def havoc_state(self, fr, S, mv, hav, F, lname):
        H = S.copy()
        H.ghost = dict(S.ghost)
        vals = {}
        for k, ident, v in mv:
            nv = self.fresh('lv_' + ident.split('::')[-1], v.sort())
            F.add(nv.decl().name()); H.vars[k] = nv
            tt = fr.fn.symtypes.get(ident)
        t = self.newtop('ltop'); self.topbases[t.base.get_id()] = t.rank; self._keep.append(t.base)
        F.add(t.base.decl().name())
        H.assume(t.base >= S.top.term())
        H.top = t
        for k, ident, v in mv:
            tt = fr.fn.symtypes.get(ident)
            if tt: self.loaded(H, H.vars[k], fr.fn.types.parse(tt))
        sw = self.writes; self.writes = None
        for m, h in hav.items():
            before = next(self.fresh_ct)
            if h['kind'] == 'all': self.havocmap(H, m, 'all', S)
            elif h['kind'] == 'fresh': self.havocmap(H, m, ('fresh+', h['objs']), S)
            else: self.havocmap(H, m, h['objs'], S)
            after = next(self.fresh_ct)
            for n in range(before, after): F.add('hv_%s!%d' % (m, n))
        self.writes = sw
        if sw is not None:
            # the enclosing loop sees this loop's writes
            for m, h in hav.items():
                if h['kind'] == 'all': sw.append((m, None, None))
                else:
                    if h['kind'] == 'fresh': sw.append((m, 'FRESH', S.top))
                    for o in h['objs']: sw.append((m, o, None))
        return H, dict(topkey=t.key(), mark=next(self.fresh_ct))

    def candidates(self, fr, S, H, mv, hav, bounds, lname):
        """list of (name, fn(state, extra) -> formula)"""
        out = []
        ints = [(k, ident, v) for k, ident, v in mv if v.sort() == I]
        for k, ident, v in ints:
            nm = ident.split('::')[-1]
            out.append(('%s>=init' % ident, lambda s, x, k=k, v=v: s.vars[k] >= v))
            out.append(('%s<=init' % ident, lambda s, x, k=k, v=v: s.vars[k] <= v))
            out.append(('%s>=0' % ident, lambda s, x, k=k: s.vars[k] >= 0))
            for n, b in enumerate(bounds):
                if b.eq(v): continue
                bn = 'b%d' % n
                out.append(('%s<=%s' % (ident, bn), lambda s, x, k=k, b=b: s.vars[k] <= b))
                out.append(('%s<=max(init,%s)' % (ident, bn), lambda s, x, k=k, b=b, v=v: Or(s.vars[k] <= b, s.vars[k] <= v)))
                out.append(('%s<%s' % (ident, bn), lambda s, x, k=k, b=b: s.vars[k] < b))
        for k, ident, v in mv:
            if v.sort() != Ptr: continue
            out.append(('%s same object' % ident, lambda s, x, k=k, v=v: PO(s.vars[k]) == PO(v)))
            out.append(('%s index>=init' % ident, lambda s, x, k=k, v=v: PI(s.vars[k]) >= PI(v)))
        for (k1, i1, v1), (k2, i2, v2) in itertools.combinations(ints, 2):
            out.append(('%s-%s const' % (i1, i2), lambda s, x, a=k1, b=k2, v1=v1, v2=v2: s.vars[a] - v1 == s.vars[b] - v2))
            out.append(('%s<=%s' % (i1, i2), lambda s, x, a=k1, b=k2: s.vars[a] <= s.vars[b]))
            out.append(('%s<=%s' % (i2, i1), lambda s, x, a=k1, b=k2: s.vars[b] <= s.vars[a]))
        o = Const('o?', Obj)
        for m, h in hav.items():
            MS = self.getmap(S, m)
            # a write that always leaves the loop does not change what the next iteration sees
            out.append(('%s not written before leaving' % m, lambda s, x, m=m, MS=MS: self.getmap(s, m) == MS))
            if h['kind'] != 'all': continue
            ex = h['objs']
            for ro in h.get('roots', [])[:3]:
                out.append(('frame %s objects outside %s unchanged' % (m, str(ro)[:40].replace(chr(10), ' ')), lambda s, x, m=m, MS=MS, ex=ex, ro=ro:
                        FA([o], Implies(And([rootid(o) != rootid(ro)] + [o != y for y in ex]), self.getmap(s, m)[o] == MS[o]), [self.getmap(s, m)[o]])))
            out.append(('frame %s old objects unchanged' % m, lambda s, x, m=m, MS=MS, ex=ex, S=S:
                        FA([o], Implies(And([rootid(o) <= S.top.term()] + [o != y for y in ex]), self.getmap(s, m)[o] == MS[o]), [self.getmap(s, m)[o]])))
            if self.entry_top is not None and S is not self.entry_state:
                M0 = self.getmap(self.entry_state, m)
                et = self.entry_top
                out.append(('frame %s pre-state objects unchanged' % m, lambda s, x, m=m, MS=MS, et=et:
                        FA([o], Implies(rootid(o) <= et.term(), self.getmap(s, m)[o] == MS[o]), [self.getmap(s, m)[o]])))
        tmpl = self.template
        if tmpl is not None:
            for nm, f in tmpl(LoopCtx(self, fr, S, H, mv, lname)):
                out.append(('T:' + nm, f))
        return out

    def houdini_round(self, fr, head, last, S, H, alive, mv, lname):
        self.suppress += 1
        ow, oc = self.writes, self.cmps
        self.writes = None; self.cmps = None
        try:
            H1 = H.copy()
            for n, f in alive: H1.assume(f(H, {}))
            ex = self.region(fr, {head: [H1]}, head, last, loophead=head)
        finally:
            self.suppress -= 1
            self.writes, self.cmps = ow, oc
        failing = set()
        for t, s in ex:
            if t != head: continue
            for n, f in alive:
                if n in failing: continue
                if not self.provec(s.facts, (n, f), s):
                    failing.add(n)
                    if HDBG and HDBG in lname:
                        print('HOUDINI drop preserve', lname, n, flush=True)
                        if os.environ.get('HCAND') == n:
                            for x in s.facts: print('   F', x)
                            print('   G', f(s, {}), flush=True)
                            import prove as _P; open('/tmp/hc.smt2', 'w').write(_P.smt2(self, Oblig('x', s.facts, f(s, {}), '', '')))
        return failing

    def try_invs(self, fr, head, last, S, H, invs, mv, lname):
        for n, f in invs:
            if not self.provec(S.facts, (n, f), S, 3): return False, None
        fl = self.houdini_round(fr, head, last, S, H, invs, mv, lname)
        return (not fl), None

    def finish_loop(self, fr, head, last, S, H, alive, mv, lname):
        if not self.suppress or True:
            self.newhints[lname] = sorted(set(self.newhints.get(lname, [])) | {n for n, _ in alive})
        for n, f in alive:
            self.oblige(S, '%s/loop %s/init %s' % (fr.cfn, lname, n), f(S, {}), 'invariant', self.line, assume=False)
        H1 = H.copy()
        for n, f in alive: H1.assume(f(H, {}))
        oc = self.cmps; 
        ex = self.region(fr, {head: [H1]}, head, last, loophead=head)
        out = []
        for t, s in ex:
            if t == head:
                for n, f in alive:
                    self.oblige(s, '%s/loop %s/preserve %s' % (fr.cfn, lname, n), f(s, {}), 'invariant', self.line, assume=False)
            else: out.append((t, s))
        return out

    def unroll(self, fr, head, last, S, limit=6):
        """loops whose guard is decided by constants: run them concretely"""
        if not self.o.get('unroll', True): return None
        # cheap pre-test: the loop guard at entry must be decided syntactically on each iteration
        snap = (len(self.obligs), self.suppress, self.writes, self.cmps)
        cur = [S.copy()]
        outs = []
        self.suppress += 1
        ow, oc = self.writes, self.cmps
        self.writes = [] if ow is not None else None
        self.cmps = None
        ok = True
        try:
            for n in range(limit + 1):
                nxt = []
                for s in cur:
                    if not self.decided(fr, head, last, s): ok = False; break
                if not ok: break
                work = self.region(fr, {head: cur}, head, last, loophead=head)
                nxt = [s for t, s in work if t == head]
                if not nxt: break
                if n == limit: ok = False; break
                cur = self.dedupe(nxt)
        finally:
            self.suppress = snap[1]; self.writes, self.cmps = ow, oc
        if not ok: return None
        # again for real
        cur = [S]
        outs = []
        while cur:
            work = self.region(fr, {head: cur}, head, last, loophead=head)
            outs += [(t, s) for t, s in work if t != head]
            cur = self.dedupe([s for t, s in work if t == head])
        return outs
    def decided(self, fr, head, last, s):
        """is the exit test at the loop head syntactically decided?"""
        j = head
        while j <= last and fr.fn.ins[j].kind in ('SKIP', 'LOCATION', 'DECL'): j += 1
        i = fr.fn.ins[j]
        if i.kind != 'GOTO' or i.guard['id'] == 'constant': return False
        try:
            self.suppress += 1
            c = simplify(self.tobool(self.ev(s.copy(), fr, i.guard)))
        except Exception:
            return False
        finally: self.suppress -= 1
        return is_true(c) or is_false(c)

    # ------------------------------------------------------------ whole function
    def verify(self, fname, contract, unit):
        u = self.prog.add(unit)
        f = u.fn(fname)
        if f is None: raise Unsupported('function %s not found in %s' % (fname, unit))
        self.target = fname
        self.regstructs(u.types)
        self.discover = 0; self.visits = {}; self.drops = {}
        self.template = contract.get('template'); self.callptr_model = contract.get('callptr'); self.callghosts = contract.get('callghosts', {}); self.calluse = contract.get('calluse', {}); self.unreach = (contract.get('opts') or {}).get('unreach', [])
        fr = self.frame(f, 0); fr.cfn = fname
        self.topbases = {}; self._keep = []
        st = State()
        t = self.newtop('top0'); self.topbases[t.base.get_id()] = t.rank; self._keep.append(t.base)
        st.top = t
        st.assume(t.base >= 0)
        self.rd1(st, 'LEN', NULLO)
        st.assume(self.getmap(st, 'LEN')[NULLO] == 0)
        st.assume(INFV > 0)
        args = {}
        T = f.types
        ptypes = {}
        for n, ident in enumerate(f.params):
            tt = f.symtypes.get(ident) or (u.sym.get(ident) or {}).get('type')
            pn = contract['params'][n] if n < len(contract['params']) else ident
            t_ = T.parse(tt)
            if t_[0] in ('struct', 'union'):
                v = self.symstruct(st, T, t_, 'arg_' + pn)
            else:
                v = Const('arg_' + pn, self.sortof(t_))
                self.loaded(st, v, t_)
            args[pn] = v; ptypes[pn] = t_
        if len(contract['params']) != len(f.params):
            raise Unsupported('%s has %d parameters, contract has %d' % (fname, len(f.params), len(contract['params'])))
        self.entry_top = st.top
        pre = Ctx(self, fr, st, None, args, None)
        for lab, g in contract['requires'](pre) if contract.get('requires') else []:
            st.assume(g)
        self.entry_state = st.copy()
        self.entry_args = args
        old = self.entry_state
        self.precond = list(st.facts)
        self.bind(st, fr, [args[p] for p in contract['params']])
        outs = self.runbody(fr, st)
        self.nret = len(outs)
        self.endstates = outs
        modifies = contract['modifies'](Ctx(self, fr, old, None, args, None)) if contract.get('modifies') else []
        modd = dict()
        for m, w in modifies: modd.setdefault(m, []).append(w)
        for n, s in enumerate(outs):
            ctx = Ctx(self, fr, old, s, args, s.ret)
            for lab, g in contract['ensures'](ctx):
                self.oblige(s, '%s/post/%s' % (fname, lab), g, 'post', 'ret%d' % n, assume=False)
            if contract.get('frame', True):
                self.frame_obligs(s, old, modd, fname, n)
        return self.obligs

    def regstructs(self, T):
        for tag in list(T.tags):
            n = T.tagname(tag)
            if not n.lstrip('_').startswith(('gsl_', 'apop_')): continue
            try:
                for f, ft in T.fields(tag):
                    if ft[0] in ('int', 'float', 'ptr', 'bool'): self.field_map(T, tag, f, ft)
            except Exception: continue
    def isnew(self, o):
        while o.decl().name() == 'emb': o = o.arg(1)
        if o.decl().name() != 'reg': return False
        k = self.topkey_of_reg(o)
        return k is not None and k > self.entry_top.key()
    def frame_obligs(self, s, old, modd, fname, n):
        o = Const('o?', Obj)
        for m, M in s.mem.items():
            M0 = self.getmap(old, m)
            if M.eq(M0): continue
            M1 = M
            while is_app(M1) and M1.decl().kind() == Z3_OP_STORE and self.isnew(M1.arg(1)): M1 = M1.arg(0)
            if M1.eq(M0): continue      # only objects allocated by this call were written (syntactically)
            w = modd.get(m)
            if w and any(x == 'all' for x in w if isinstance(x, str)): continue
            objs = []
            for x in w or []:
                if isinstance(x, str): continue
                if isinstance(x, tuple) and x[0] == 'pred': objs.append(x[1]); continue
                objs += x[1] if isinstance(x, tuple) else x
            preds = [x for x in objs if callable(x)]
            objs = [x for x in objs if not callable(x)]
            sk = self.fresh('frm', Obj)
            g = Implies(And([rootid(sk) <= self.entry_top.term()] + [sk != x for x in objs] + [Not(p(sk)) for p in preds]), Select(M, sk) == Select(M0, sk))
            self.oblige(s, '%s/frame/%s' % (fname, m), g, 'frame', 'ret%d' % n, assume=False)

    def symstruct(self, st, T, t, nm):
        out = SV()
        for f, ft in T.fields(t[1]):
            if f.startswith('$pad'): continue
            if ft[0] in ('struct', 'union'): out[f] = self.symstruct(st, T, ft, nm + '.' + f)
            elif ft[0] == 'array': out[f] = SV({k: self.loaded(st, Const('%s.%s.%d' % (nm, f, k), self.sortof(ft[1])), ft[1]) for k in range(ft[2])})
            else: out[f] = self.loaded(st, Const(nm + '.' + f, self.sortof(ft)), ft)
        return out

def st_vars(S): return S.vars

class View:
    """read access to one state's memory, for specifications"""
    def __init__(self, ex, st): self.ex, self.st = ex, st
    def map(self, m, sort=None):
        if m not in ('LEN', 'STR') and m not in self.ex.maps:
            self.ex.maps[m] = sort
        return self.ex.getmap(self.st, m)
    def f(self, p, field, sort):
        """field 'Struct.name' of the struct at pointer p"""
        self.map(field, sort)
        return self.ex.rd(self.st, field, PO(p), self.pi(p))
    def pi(self, p): return self.ex.pidx(self.st, p)
    def cell(self, m, sort, o, i):
        self.map(m, sort)
        return self.ex.rd(self.st, m, o, i)
    def len(self, o): return self.ex.rd1(self.st, 'LEN', o)
    def str(self, p): return self.ex.rd1(self.st, 'STR', PO(p))
    def emb(self, key, o, i):
        if key not in self.ex.emb_tags: self.ex.emb_tags[key] = len(self.ex.emb_tags) + 1
        return Obj.emb(ival(self.ex.emb_tags[key]), o, i)
    @property
    def top(self): return self.st.top.term()

class Ctx:
    def __init__(self, ex, fr, old, new, args, ret):
        self.ex, self.fr, self.args, self.ret = ex, fr, args, ret
        self.oldst, self.newst = old, new
        self.old = View(ex, old)
        self.new = View(ex, new) if new is not None else None
    def __getattr__(self, k):
        a = self.__dict__.get('args', {})
        if k in a: return a[k]
        raise AttributeError(k)
    def lit(self, s): return self.ex.lit(s)

def signedpre(v, w):
    """the signed number x when v is x converted to an unsigned type: If(x fits, x, x mod 2^w)"""
    if is_app(v) and v.decl().kind() == Z3_OP_ITE:
        x, m = v.arg(1), v.arg(2)
        if is_app(m) and m.num_args() == 2 and isval(m.arg(1)) and m.arg(1).as_long() == 1 << w and m.decl().kind() in (Z3_OP_MOD, Z3_OP_ADD) and m.arg(0).eq(x): return x
    return None
class LoopCtx:
    """what a template sees: entry state, slots"""
    def __init__(self, ex, fr, S, H, mv, lname):
        self.ex, self.fr, self.S, self.H, self.mv, self.lname = ex, fr, S, H, mv, lname
        self.args = ex.entry_args
        self.old = View(ex, ex.entry_state)
        self.pre = View(ex, S)
    def __getattr__(self, k):
        a = self.__dict__.get('args', {})
        if k in a: return a[k]
        raise AttributeError(k)
    def ints(self):
        return [(ident.split('::')[-1], k) for k, ident, v in self.mv if v.sort() == I]
    def reals(self):
        return [(ident.split('::')[-1], k) for k, ident, v in self.mv if v.sort() == R]
    def modptrs(self):
        return [(ident.split('::')[-1], k) for k, ident, v in self.mv if v.sort() == Ptr]
    def locals(self, tname):
        """live scalar locals (any inline frame) of the C type called tname, e.g. 'Papop_data'"""
        out, seen = [], set()
        for k, v in self.S.vars.items():
            if isinstance(v, (LObj, SV)): continue
            ident = k.split('#', 1)[1]
            u = None
            for un in self.ex.prog.units.values():
                sy = un.sym.get(ident)
                if sy and sy.get('type'):
                    try: tn = un.types.name(un.types.parse(sy['type']))
                    except Unsupported: continue
                    if tn == tname: out.append((ident.split('::')[-1] , k))
                    break
        return out
    def view(self, s): return View(self.ex, s)
