"""GOTO-program JSON -> small IR (types, expressions stay irep dicts but pre-digested)."""
import re

class Unsupported(Exception):
    pass

def sub(e): return e.get('sub', [])
def ns(e, k):
    return e.get('namedSub', {}).get(k)
def nsid(e, k):
    v = ns(e, k)
    return v.get('id') if v else None

class Types:
    """per-unit type environment"""
    def __init__(self, symtab):
        self.tags = {}
        self.alias = {}      # anonymous tag -> typedef name
        for k, v in symtab.items():
            if not v.get('isType'): continue
            t = v['type']
            if t['id'] in ('struct', 'union'):
                self.tags[k] = t
            elif t['id'] in ('struct_tag', 'union_tag'):
                tag = nsid(t, 'identifier')
                if 'anon' in tag:
                    old = self.alias.get(tag)
                    if old is None or k < old: self.alias[tag] = k
        self.cache = {}
        self._fields = {}

    def tagname(self, tag):
        if tag in self.alias: return self.alias[tag]
        n = tag[4:] if tag.startswith('tag-') else tag
        # nice names
        return n

    def parse(self, t):
        i = t['id']
        if i in ('signedbv', 'unsignedbv'):
            return ('int', int(nsid(t, 'width')), i == 'signedbv')
        if i == 'floatbv': return ('float', int(nsid(t, 'width')))
        if i == 'pointer': return ('ptr', self.parse(sub(t)[0]))
        if i == 'bool': return ('bool',)
        if i == 'c_bool': return ('int', 8, False)
        if i == 'empty': return ('void',)
        if i == 'code': return ('code',)
        if i == 'struct_tag': return ('struct', nsid(t, 'identifier'))
        if i == 'union_tag': return ('union', nsid(t, 'identifier'))
        if i in ('c_enum_tag', 'c_enum'): return ('int', 32, False)
        if i == 'array':
            sz = ns(t, 'size')
            n = None
            if sz and sz['id'] == 'constant':
                n = int(nsid(sz, 'value'), 16)
            return ('array', self.parse(sub(t)[0]), n)
        if i == 'c_bit_field': return self.parse(sub(t)[0])
        if i in ('complex', 'vector', 'nil', 'constructor', 'ellipsis', ''): return ('other', i)
        raise Unsupported('type ' + i)

    def fields(self, tag):
        """list of (name, type) incl. padding names starting with $pad"""
        if tag in self._fields: return self._fields[tag]
        if tag not in self.tags: raise Unsupported('incomplete struct ' + tag)
        out = []
        comps = ns(self.tags[tag], 'components')
        for c in sub(comps):
            out.append((nsid(c, 'name'), self.parse(ns(c, 'type'))))
        self._fields[tag] = out
        return out

    def sizeof(self, t):
        k = t[0]
        if k == 'int': return t[1] // 8
        if k == 'float': return t[1] // 8
        if k == 'ptr': return 8
        if k == 'bool': return 1
        if k in ('void', 'code'): return 1
        if k == 'array':
            if t[2] is None: return 0
            return t[2] * self.sizeof(t[1])
        if k == 'struct':
            return sum(self.sizeof(ft) for _, ft in self.fields(t[1]))
        if k == 'union':
            return max([self.sizeof(ft) for _, ft in self.fields(t[1])] + [1])
        raise Unsupported('sizeof %s' % (t,))

    def name(self, t):
        k = t[0]
        if k == 'int': return ('i' if t[2] else 'u') + str(t[1])
        if k == 'float': return 'f' + str(t[1])
        if k == 'ptr': return 'P' + self.name(t[1])
        if k in ('struct', 'union'): return self.tagname(t[1])
        if k == 'array': return 'A' + self.name(t[1])
        return k

class Ins:
    __slots__ = ('n', 'kind', 'guard', 'target', 'lhs', 'rhs', 'fn', 'args', 'sym', 'line')
    def __repr__(self): return '%d:%s' % (self.n, self.kind)

class Fn:
    def __init__(self, unit, j, types):
        self.unit = unit
        self.types = types
        self.name = j['name']
        self.params = j['parameterIdentifiers']
        self.ins = []
        raw = j['instructions']
        num = {r['locationNumber']: k for k, r in enumerate(raw)}
        for k, r in enumerate(raw):
            i = Ins()
            i.n = k; i.kind = r['instructionId']; i.guard = r.get('guard'); i.target = None
            i.lhs = i.rhs = i.fn = i.args = i.sym = None
            i.line = (r.get('sourceLocation') or {}).get('line', '?')
            if 'targets' in r:
                i.target = num[r['targets'][0]]
            c = r.get('code')
            if i.kind == 'ASSIGN':
                i.lhs, i.rhs = sub(c)[0], sub(c)[1]
            elif i.kind == 'FUNCTION_CALL':
                i.lhs, i.fn = sub(c)[0], sub(c)[1]
                i.args = sub(sub(c)[2])
                if i.lhs['id'] == 'nil': i.lhs = None
            elif i.kind in ('DECL', 'DEAD'):
                i.sym = sub(c)[0]
            elif i.kind == 'SET_RETURN_VALUE':
                i.rhs = sub(c)[0]
            elif i.kind == 'OTHER':
                i.rhs = c
            self.ins.append(i)
        self.addrtaken = set()
        for i in self.ins:
            for e in (i.guard, i.lhs, i.rhs, i.fn):
                if e is not None: self._scan(e)
            for e in i.args or []: self._scan(e)
        # loops: head -> last back edge
        self.loops = {}
        for i in self.ins:
            if i.kind == 'GOTO' and i.target is not None and i.target <= i.n and not const_false(i.guard):
                self.loops[i.target] = max(self.loops.get(i.target, -1), i.n)
        self.castto = {}
        for i in self.ins:
            for e in (i.rhs,):
                if e is not None: self._casts(e)
            for e in i.args or []: self._casts(e)
        self.symtypes = {}
        for i in self.ins:
            for e in (i.guard, i.lhs, i.rhs, i.fn, i.sym):
                if e is not None: self._syms(e)
            for e in i.args or []: self._syms(e)

    def _syms(self, e):
        if e['id'] == 'symbol':
            self.symtypes[nsid(e, 'identifier')] = ns(e, 'type')
        for s in sub(e): self._syms(s)

    def _casts(self, e):
        if e['id'] == 'typecast' and sub(e)[0]['id'] == 'symbol':
            t = ns(e, 'type')
            if t['id'] == 'pointer' and sub(t)[0]['id'] != 'empty':
                self.castto.setdefault(nsid(sub(e)[0], 'identifier'), t)
        for s in sub(e): self._casts(s)

    def _scan(self, e):
        if e['id'] == 'address_of':
            x = sub(e)[0]
            while x['id'] in ('member', 'index'):
                if x['id'] == 'member' : pass
                x = sub(x)[0]
            if x['id'] == 'symbol': self.addrtaken.add(nsid(x, 'identifier'))
        for s in sub(e): self._scan(s)

def const_false(g):
    """syntactically false guards such as 0 != 0"""
    if g is None: return False
    if g['id'] == 'constant' and nsid(g, 'value') == 'false': return True
    if g['id'] in ('notequal', '='):
        a, b = sub(g)
        if a['id'] == 'constant' and b['id'] == 'constant':
            va, vb = nsid(a, 'value'), nsid(b, 'value')
            return (va == vb) if g['id'] == 'notequal' else (va != vb)
    if g['id'] == 'not':
        x = sub(g)[0]
        if x['id'] == 'constant': return nsid(x, 'value') == 'true'
    return False

class Unit:
    def __init__(self, unit, fj, sj):
        self.name = unit
        self.types = Types(sj)
        self.sym = sj
        self.fns = {}
        self.raw = {j['name']: j for j in fj}
        self.addrfields = set()
        for j in fj:
            for i in j['instructions']:
                for k in ('guard', 'code'):
                    if k in i: self._scanfields(i[k])

    def fn(self, name):
        if name not in self.fns:
            if name not in self.raw: return None
            self.fns[name] = Fn(self.name, self.raw[name], self.types)
        return self.fns[name]

    def _scanfields(self, e):
        if e['id'] == 'address_of':
            x = sub(e)[0]
            if x['id'] == 'member':
                t = ns(x, 'type')
                if t['id'] not in ('struct_tag', 'array', 'union_tag'):
                    so = ns(sub(x)[0], 'type')
                    if so['id'] == 'struct_tag':
                        self.addrfields.add((self.types.tagname(nsid(so, 'identifier')), nsid(x, 'component_name')))
        for s in sub(e): self._scanfields(s)
