"""Loads a mirdump JSON file: types (keyed by their printed name), instances, API table."""
import json
import re
import terms


class Ty:
    __slots__ = ('name', 'k', 'd', 'db')

    def __repr__(self):
        return self.name

    def __getattr__(self, a):
        try:
            return self.d[a]
        except KeyError:
            raise AttributeError(a)

    @property
    def to(self):
        return self.db.ty(self.d['to'])

    @property
    def elem(self):
        return self.db.ty(self.d['elem'])

    def field_tys(self, variant):
        if self.k == 'adt':
            return [self.db.ty(f[1]) for f in self.d['variants'][variant]['fields']]
        if self.k == 'tuple':
            return [self.db.ty(i) for i in self.d['elems']]
        if self.k == 'closure':
            return [self.db.ty(i) for i in self.d['upvars']]
        raise KeyError(self.name)

    @property
    def item(self):
        return self.d.get('item')

    def variant_index(self, name):
        for i, v in enumerate(self.d['variants']):
            if v['name'] == name:
                return i
        raise KeyError((self.name, name))

    def field_index(self, variant, name):
        for i, f in enumerate(self.d['variants'][variant]['fields']):
            if f[0] == name:
                return i
        raise KeyError((self.name, variant, name))

    def targs(self):
        return [self.db.ty(a) for a in self.d.get('args', []) if isinstance(a, int)]


def strip_generics(p):
    # remove ::<...> groups that are generics of path segments (not `<impl T>` or `<T as Trait>`)
    out = []
    i = 0
    while i < len(p):
        if p.startswith('::<', i) and not p.startswith('::<impl', i):
            d = 0
            j = i + 2
            while j < len(p):
                if p[j] == '<':
                    d += 1
                elif p[j] == '>' and p[j - 1] != '-':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    return ''.join(out)


class Inst:
    __slots__ = ('id', 'd', 'db', 'path', 'name', 'krate', 'item', 'trait', 'kind', '_cfg', 'key')

    def __repr__(self):
        return self.name

    @property
    def body(self):
        return self.d['body']

    @property
    def self_ty(self):
        s = self.d['self']
        return None if s is None else self.db.ty(s)

    @property
    def targs(self):
        return [self.db.ty(a) for a in self.d['targs'] if isinstance(a, int)]

    @property
    def gargs(self):
        return [self.db.ty(a) if isinstance(a, int) else a for a in self.d['args']]


class DB:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = []
        self.by_name = {}
        for name, t in d['types']:
            o = Ty()
            if name in self.by_name:        # distinct types may print alike (closures of one macro, items local to like-named functions)
                name = '%s#%d' % (name, len(self.types))
            o.name, o.k, o.d, o.db = name, t['k'], t, self
            self.types.append(o)
            self.by_name.setdefault(name, o)
            if t['k'] == 'int' and not t['signed']:
                terms.TYBITS[name] = t['bits']
            if t['k'] == 'char':
                terms.TYBITS[name] = 32
        self.insts = []
        for i, x in enumerate(d['insts']):
            o = Inst()
            o.id, o.d, o.db = i, x, self
            o.path, o.name, o.krate, o.item, o.trait, o.kind = x['path'], x['name'], x['krate'], x['item'], x['trait'], x['kind']
            o._cfg = None
            if x['cont'] in ('trait', 'impl_trait'):
                o.key = strip_generics(x['trait']) + '::' + x['item']
            else:
                o.key = strip_generics(x['path'])
            self.insts.append(o)
        self.api = d['api']
        self.roots = d['roots']
        self.by_iname = {}
        for o in self.insts:
            self.by_iname.setdefault(o.name, o)

    def ty(self, i):
        return self.types[i]

    def tyn(self, name):
        return self.by_name[name]

    def adt(self, item, krate=None):
        """the unique monomorphic ADT with this last path segment"""
        c = [t for n, t in self.by_name.items() if t.k == 'adt' and t.d['item'] == item and (krate is None or t.d['krate'] == krate) and not t.d['args']]
        if len(c) > 1:
            depth = sorted(c, key=lambda t: t.name.count('::'))
            if depth[0].name.count('::') < depth[1].name.count('::'):
                return depth[0]
        if len(c) != 1:
            raise KeyError((item, [x.name for x in c]))
        return c[0]

    def method(self, self_item, item, trait=None):
        """instance of method `item` on the ADT whose last path segment is self_item"""
        c = []
        for o in self.insts:
            if o.item != item or o.d['self'] is None:
                continue
            st = o.self_ty
            if st.k != 'adt' or st.d['item'] != self_item:
                if st.name != self_item:
                    continue
            tn = None if o.trait is None else strip_generics(o.trait).split('::')[-1]
            if trait is None and o.trait is not None:
                continue
            if trait is not None and tn != trait:
                continue
            c.append(o)
        if len(c) > 1:
            c2 = [o for o in c if o.body is not None]
            c = c2 or c
        if len(c) > 1:
            c2 = [o for o in c if not any(g.k not in ('adt', 'int', 'tuple', 'array') for g in o.gargs if isinstance(g, Ty))]
            c = c2 or c
        if not c:
            raise KeyError(('no method', self_item, item, trait))
        return c[0]

    def fn(self, name_suffix):
        c = [o for o in self.insts if strip_generics(o.path).endswith(name_suffix) and o.body is not None]
        if not c:
            raise KeyError(('no fn', name_suffix))
        return c[0]
