"""Reading of a schema used only to *generate* values (never to judge): mirrors MkT in JSchema.tla."""
PRIMS = ('Binary', 'Boolean', 'Integer', 'Number', 'String')
FIELDED = ('Choice', 'Array', 'Map', 'Record')
CORE = PRIMS + FIELDED + ('Enumerated', 'ArrayOf', 'MapOf')
TOPT = {'=': 'id', '*': 'vtype', '+': 'ktype', '#': 'enum', '>': 'pointer', '/': 'format', '%': 'pattern', 'y': 'minf',
        'z': 'maxf', '{': 'minv', '}': 'maxv', 'q': 'unique', 's': 'set', 'b': 'unordered', 'o': 'sequence',
        'C': 'combine', 'X': 'extend', '!': 'default'}
FOPT = {'[': 'minc', ']': 'maxc', '&': 'tagid', '<': 'dir', 'K': 'key', 'L': 'link'}
ALL = {**TOPT, **FOPT}


def opts(ol):
    return {ALL[o[0]]: o[1:] for o in ol}


class T:
    def __init__(self, b, o=None):
        self.b, self.o = b, o or {}
        self.id = 'id' in self.o
        self.f, self.items, self.v, self.k = [], [], None, None
        self.mn, self.mx = 0, None
        self.name = None


class F:
    pass


class Model:
    def __init__(self, schema, conf=None):
        self.s = schema
        self.types = {t[0]: t for t in schema['types']}
        cf = (conf or schema).get('info', {}).get('config', {})
        self.lim = {'Binary': cf.get('$MaxBinary', 255), 'String': cf.get('$MaxString', 255)}
        self.elt = cf.get('$MaxElements', 100)
        self.env = {n: self.mk(t[1], opts(t[2]), t[4] if len(t) > 4 else []) for n, t in self.types.items()}
        for n, t in self.env.items():
            t.name = n

    def fitems(self, fs):
        return [(f[0], f[1]) for f in fs]

    def enum_items(self, n):
        t = self.types[n]
        return self.fitems(t[4]) if t[1] in FIELDED + ('Enumerated',) else []

    def ptr_items(self, n):
        def paths(n, base):
            t = self.types[n]
            if t[1] in FIELDED:
                for f in t[4]:
                    if 'dir' in opts(f[3]):
                        if f[2] in self.types:
                            yield from paths(f[2], base + f[1] + '/')
                    else:
                        yield base + f[1]
        return [(i, p) for i, p in enumerate(paths(n, ''), 1)]

    def derived(self, n):
        return self.enum_items(n[1:]) if n[0] == '#' else self.ptr_items(n[1:])

    def ty(self, n):
        if n[0] in '#>':
            t = T('Enumerated')
            t.items = self.derived(n)
            return ('inl', t)
        return ('prim', n) if n in PRIMS else ('ref', n)

    def deref(self, ty):
        if ty[0] == 'inl':
            return ty[1]
        return T(ty[1]) if ty[0] == 'prim' else self.env[ty[1]]

    def size(self, t):
        if t.b in ('Binary', 'String', 'Array', 'ArrayOf', 'Map', 'MapOf', 'Record'):
            t.mn = int(t.o.get('minv', 0))
            t.mx = int(t.o.get('maxv', 0)) or self.lim.get(t.b, self.elt)

    def mk(self, b, o, fs):
        t = T(b, o)
        self.size(t)
        if b == 'Enumerated':
            t.items = self.enum_items(o['enum']) if 'enum' in o else self.ptr_items(o['pointer']) if 'pointer' in o else self.fitems(fs)
        elif b in FIELDED:
            t.f = [self.mkf(f) for f in fs]
        elif b == 'ArrayOf':
            t.v = self.ty(o['vtype'])
        elif b == 'MapOf':
            kt = o['ktype']
            if kt[0] in '#>' or (kt in self.types and self.types[kt][1] == 'Enumerated'):
                items = self.derived(kt) if kt[0] in '#>' else self.mk('Enumerated', opts(self.types[kt][2]), (self.types[kt] + [[]])[4]).items
                t = T('Map')
                t.mx = self.elt
                for i, n in items:
                    f = F()
                    f.i, f.n, f.opt, f.tag, f.ty = i, n, False, None, self.ty(o['vtype'])
                    t.f.append(f)
            else:
                t.v, t.k = self.ty(o['vtype']), self.ty(kt)
        return t

    def key_ty(self, n):
        t = self.types[n]
        if t[1] == 'MapOf':
            return self.ty(opts(t[2])['ktype'])
        f = [f for f in t[4] if 'key' in opts(f[3])][-1]
        if f[2] in self.types:
            return ('ref', f[2])
        return ('inl', self.mk(f[2], {k: v for k, v in opts(f[3]).items() if k in TOPT.values()}, []))

    def mkf(self, fd):
        fo = opts(fd[3])
        multi = fo.get('maxc', '1') != '1'
        topt = {k: v for k, v in fo.items() if k in TOPT.values() and not (multi and k == 'unique')}
        if 'link' in fo:
            e = self.key_ty(fd[2])
        elif fd[2] in self.types:
            e = ('ref', fd[2])
        elif not topt and 'key' not in fo:
            e = ('prim', fd[2])
        else:
            e = ('inl', self.mk(fd[2], topt, []))
        f = F()
        minc, maxc = int(fo.get('minc', 1)), int(fo.get('maxc', 1))
        f.i, f.n, f.opt, f.tag = fd[0], fd[1], minc == 0, int(fo['tagid']) if 'tagid' in fo else None
        f.ty = e
        if multi:
            t = T('ArrayOf', {k: v for k, v in fo.items() if k == 'unique'})
            t.v, t.mn, t.mx = e, max(minc, 1), maxc or self.elt
            f.ty = ('inl', t)
        return f
