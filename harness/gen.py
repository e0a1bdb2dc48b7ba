"""Random JADN schemas, API values and serialized values.  Generation only: what is right or wrong is decided by the
specification.  Schemas stay inside the well-formed schemas the library accepts (see DESIGN.md, "generator limits")."""
import random
import string

import pats
from resolve import Model, PRIMS, CORE, opts, T

TNAMES = ['Alpha', 'Beta', 'Gamma-1', 'Delta', 'Eps', 'Zeta2', 'Eta', 'Theta', 'Iota', 'Kappa', 'Lambda', 'Mu-Nu', 'Xi', 'Omicron',
          'Pi', 'Rho', 'Sigma', 'Tau', 'Upsilon', 'Phi', 'Chi', 'Psi', 'Omega', 'A', 'B2', 'Cc-Dd', 'Long-Type-Name-0', 'R$x', '$Tt', '$']
FNAMES = ['a', 'b', 'cc', 'd_1', 'eE', 'f9', 'g', 'h_h', 'ii', 'j', 'k$', 'll', 'm', 'name', 'kind', 'val', 'x', 'y', 'z0', '$ff']
INAMES = ['red', 'green', 'blue', 'x-1', 'two words', 'UP', 'q', '10', 'Val', 'zz', 'on/off', 'é', 'w_w', 'end']
CHARS = 'abcxyzABC019 _-/.,'
UNI = 'éßλЖ中'
STRFMT = {
    'hostname': (['a', 'example.com', 'a-b.c', 'x1.y2.z3', 'EX.com', 'a.b.', '0.1'], ['-a', 'a-', 'a..b', 'a b', '.', 'ex_a', 'a' * 64, 'é.com', '', '.a', 'a.-b', 'a\n', 'a.b\n', '٣.com', 'a_b.c', 'a.b..', 'x.' * 127 + 'ab']),
    'email': (['a@b.c', 'joe.x@example.com', 'a-b@c-d.org', 'x_1@y2.zz'], ['@b', 'a', 'a@', 'ab@c', 'abc', '', 'a@bcd', 'a@b.c ', 'a@b.c\n', 'a@b.c, d@e.f', ' a@b.c', 'a@b.c d']),
    'idn-email': (['a@b', 'é@x.y'], ['abc', '']),
    'date': (['2020-02-29', '1999-12-31', '0001-01-01', '2000-02-29'], ['2021-02-29', '1900-02-29', '2020-13-01', '2020-1-1', '2020-00-10', '20200101', '', '2020-04-31']),
    'ipv4': (['1.2.3.4', '0.0.0.0', '255.255.255.255'], ['1.2.3', '256.1.1.1', '1.2.3.4.5', '01.2.3.4', 'a.b.c.d', '', '1.2.3.4/8']),
    'ipv6': (['::1', '1:2:3:4:5:6:7:8', 'fe80::', '::', '2001:DB8::a'], ['1:2:3', ':::', 'g::1', '1:2:3:4:5:6:7:8:9', '', '1::2::3', '12345::']),
    'uri': (['http://example.com/a', 'https://a.b/c?d=e#f', 'urn:x:y', 'mailto:a@b.c', 'http://x'], ['', 'a b', '//', 'x', 'http://a b', '1http://x', ':']),
    'regex': (['', 'a', '^a+$', '(a|b)*', '[a-z]{1,3}'], ['(', '[', '*', 'a{2,1}']),
    'date-time': (['2020-01-01T00:00:00Z', 'zzz'], []), 'json-pointer': (['/a/b', 'x'], []),
}
UUIDS = [bytes([i * 7 + 3 & 255 for i in range(6)]) + bytes([v << 4 | 5, 9, w, 200, 1, 2, 3, 4, 5, 6]) for v, w in ((1, 0x80), (4, 0xbf), (5, 0x9a), (3, 0xa0), (2, 0x81))]
BADUUIDS = [bytes(16), bytes([255] * 16), bytes([1] * 6 + [0x60, 1, 0x80] + [7] * 7), bytes([1] * 6 + [0x40, 1, 0xc0] + [7] * 7), bytes([1] * 6 + [0x40, 1, 0x70] + [7] * 7)]
IP6 = [bytes(16), bytes(15) + b'\1', bytes.fromhex('20010db8000000010000000000000001'), bytes.fromhex('fe80000000000000abcd00000000ef01'),
       bytes(range(16)), bytes.fromhex('00010000000200000003000000040000'), bytes.fromhex('00000000000000000001000000000000'),
       bytes.fromhex('20010db8000000000001000000000000'), bytes.fromhex('00000000000000000000ffff01020304'), bytes([255] * 16), bytes.fromhex('00010002000300040005000600000008'),
       bytes.fromhex('000100000000000200000000000000030'[:32])]
DATES = [0, 1, -1, 999, 1000, -1000, 1723456789012, 1704067200000, -62135596800000, 253402300799999, 951782400000, 951868800001, 4102444800000 - 1,
         -2208988800000, 1000 * 2**31 - 1, 1709164800000, 1709251199999, 86400000 * 365 - 1]
BADDATES = [-62135596800001, 253402300800000, 10**16]
INTLIM = {'i8': 2**7, 'i16': 2**15, 'i32': 2**31, 'i64': 2**63}
NUMS = [0.5, -0.25, 1.5, 3.75, 100.125, -7.5, 2.0, 0.0, 1e-3, 12345.678]


class Schemas:
    """Random well-formed schemas.  `feat` switches features off: {'ext': False} etc."""

    def __init__(self, rng, **feat):
        self.r = rng
        self.feat = {'ext': True, 'formats': True, 'untagged': True, 'tagid': True, 'idopt': True, 'mapof': True, 'array': True,
                     'link': True, 'loose': True, 'recursive': True, 'desc': False, 'config': True, 'multipart': True, 'pointer': True,
                     'multi': True, 'anon': True, 'names': True, 'default': False, 'derived': True, 'mapofenum': True, 'binary': True,
                     'extend': True, 'cfgpat': False}
        self.feat.update(feat)

    def p(self, x):
        return self.r.random() < x

    def desc(self):
        if not self.feat['desc'] or self.p(.5):
            return ''
        return self.r.choice(['A thing', 'One, two: three', 'see [x](y)', 'Uses {a} and "b"', 'x // y', "it's", 'v1.2 (beta)', 'naïve', 'a; b', 'w'])

    def schema(self, ntypes=None):
        r = self.r
        self.types, self.pats = [], {}
        self.names = TNAMES[:]
        r.shuffle(self.names)
        self.conf = {}
        if self.feat['config'] and self.p(.5):
            for k, lo, hi in (('$MaxString', 3, 9), ('$MaxBinary', 3, 20), ('$MaxElements', 2, 5)):
                if self.p(.6):
                    self.conf[k] = r.randint(lo, hi)
        self.trees = {}
        self.cfgpat = self.feat['cfgpat'] and self.p(.25)
        if self.cfgpat:         # string types that refer to the configured name patterns
            own = self.p(.6)
            for k, (text, tree) in pats.NAMED.items():
                if own and self.p(.7):
                    tree = r.choice(pats.CONFIGURED)
                    self.conf[k] = pats.text(tree)
                    self.use_pat(tree)
                self.trees[k] = tree
            if self.p(.6):
                self.types.append(['TypeRef', 'String', [], '', []])
            elif self.p(.3):
                self.names.append('TypeRef')
        n = ntypes or r.randint(4, 10)
        kinds = ['Integer', 'String', 'Enumerated', 'Record', 'Map', 'Choice', 'ArrayOf']
        more = ['Record', 'Record', 'Map', 'Choice', 'ArrayOf', 'Number', 'Boolean', 'String', 'Integer', 'Enumerated']
        if self.feat['binary']:
            more += ['Binary', 'Binary']
        if self.feat['array']:
            more += ['Array', 'Array']
        if self.feat['mapof']:
            more += ['MapOf', 'MapOf']
        seqk = [r.choice(more if self.p(.8) else kinds) for _ in range(n)]
        prims = [k for k in seqk if k in PRIMS or k == 'Enumerated']
        seqk = prims + [k for k in seqk if k not in prims]
        self.max = self.conf.get('$MaxElements', 100)
        for k in seqk:
            if not self.names:
                break
            getattr(self, 'mk_' + k)(self.newname())
        if self.feat['tagid'] and self.p(.35):
            self.mk_tagged()
        if self.feat['link'] and self.p(.35):
            self.mk_link()
        if self.feat['multipart'] and self.p(.3):
            self.mk_multipart()
        if self.feat['derived'] and self.feat['ext'] and self.p(.4):
            self.mk_derived()
        if self.feat['pointer'] and self.feat['derived'] and self.feat['ext'] and self.p(.25):
            self.mk_tree()
        if self.feat['recursive'] and self.p(.3):
            self.mk_recursive()
        r.shuffle(self.types)
        s = {'types': self.types}
        info = {}
        if self.conf:
            info['config'] = self.conf
        if info or self.p(.3):
            s['info'] = {'package': 'http://example.com/p', **info}
        return s

    def newname(self):
        return self.names.pop()

    def add(self, name, base, o, fields=()):
        self.types.append([name, base, o, self.desc(), [list(f) for f in fields]])
        return name

    def of(self, *bases):
        return [t[0] for t in self.types if t[1] in bases]

    # ---- options of base types ----
    def size(self, lo=0, hi=6, p=.5):
        if not self.p(p):
            return []
        a = self.r.randint(lo, hi)
        b = self.r.randint(max(a, 1), hi + 2)
        if self.p(.25):
            return ['{%d' % max(a, 1), '}%d' % max(a, 1)]
        o = []
        if self.p(.6):
            o.append('{%d' % a)
        if self.p(.7):
            o.append('}%d' % b)
        return o

    def popts(self, base):
        """Options of a primitive type."""
        r = self.r
        if base == 'Integer':
            if self.feat['formats'] and self.p(.35):
                f = r.choice(['i8', 'i16', 'i32', 'i64', 'datetime-ms', 'datetime-ms'])
                o = ['/' + f]
                if self.p(.2):
                    o += ['{-5', '}100'] if f != 'datetime-ms' else ['{0']
                return o
            if self.p(.5):
                a = r.choice([-100, -5, -1, 0, 1, 7, -2**40, 255])
                b = a + r.choice([0, 1, 3, 10, 2**33])
                return (['{%d' % a] if self.p(.7) else []) + (['}%d' % b] if self.p(.7) else [])
            return []
        if base == 'Number':
            o = []
            if self.feat['formats'] and self.p(.15):
                o.append('/' + r.choice(['f16', 'f32', 'f64']))
            if self.p(.5):
                a = r.choice(['-1.5', '0.0', '0.25', '-100.0', '2.5'])
                if self.p(.7):
                    o.append('y' + a)
                if self.p(.7):
                    o.append('z' + str(float(a) + r.choice([0.0, 0.25, 3.0, 100.5])))
            return o
        if base == 'String':
            if self.cfgpat and self.p(.4):
                return ['%' + r.choice(list(pats.NAMED))]
            x = r.random()
            if x < .25:
                self.use_pat(p := r.choice(pats.ANCHORED + (pats.LOOSE if self.feat['loose'] else [])))
                return ['%' + pats.text(p)]
            if x < .5 and self.feat['formats']:
                return ['/' + r.choice([f for f in STRFMT])]
            return self.size(p=.6)
        if base == 'Binary':
            if self.feat['formats'] and self.p(.55):
                f = r.choice(['b', 'x', 'X', 'eui', 'uuid', 'ipv4-addr', 'ipv6-addr'])
                return ['/' + f] + (self.size(p=.4) if f in 'bxX' else [])
            return self.size(p=.5)
        return []

    def use_pat(self, p):
        self.pats[pats.text(p)] = pats.ast(p)
        self.trees[pats.text(p)] = p

    def mk_Integer(self, n):
        self.add(n, 'Integer', self.popts('Integer'))

    def mk_Number(self, n):
        self.add(n, 'Number', self.popts('Number'))

    def mk_Boolean(self, n):
        self.add(n, 'Boolean', [])

    def mk_String(self, n):
        self.add(n, 'String', self.popts('String'))

    def mk_Binary(self, n):
        self.add(n, 'Binary', self.popts('Binary'))

    def ids(self, k, lo=0):
        if self.p(.5):
            return list(range(1, k + 1))
        return self.r.sample(range(lo, 40), k) if self.p(.8) else self.r.sample(range(200, 9999), k)

    def ext(self, p=.1):
        return ['X'] if self.feat['extend'] and self.p(p) else []

    def mk_Enumerated(self, n, names=None):
        k = self.r.randint(1, 5)
        names = names or self.r.sample(INAMES if self.feat['names'] else INAMES[:3] + INAMES[5:7], k if self.feat['names'] else min(k, 5))
        o = (['='] if self.feat['idopt'] and self.p(.25) else []) + self.ext()
        self.add(n, 'Enumerated', o, [[i, x, self.desc()] for i, x in zip(self.ids(len(names)), names)])

    # ---- references and fields ----
    def ref(self, prim_ok=True, derived=True):
        """A type name usable as vtype or untagged alternative."""
        c = [t[0] for t in self.types]
        if prim_ok and (not c or self.p(.3)):
            return self.r.choice([x for x in PRIMS if x != 'Binary' or self.feat['binary']])
        if derived and self.feat['derived'] and self.feat['ext'] and self.p(.12):
            f = [t[0] for t in self.types if t[1] in ('Record', 'Map', 'Choice', 'Array') and t[4]]
            if f:
                x = self.r.choice(f)
                return ('>' if self.feat['pointer'] and self.p(.3) else '#') + x
        return self.r.choice(c) if c else 'String'

    def card(self):
        """Cardinality options of a field."""
        x = self.r.random()
        if not (self.feat['ext'] and self.feat['multi']) or x < .72:
            return ['[0'] if self.p(.4) else []
        return self.r.choice([[']0'], ['[0', ']0'], ['[0', ']3'], [']4'], ['[2', ']4'], ['[2', ']0'], ['[0', ']2'], ['[3', ']3'],
                              [']1'], ['[0', ']1'], ['[1', ']1'], ['[1', ']3'], ['[1']])

    def field_type(self, self_ref=None):
        """(type, options) of a structure field."""
        r = self.r
        if self.feat['ext'] and self.feat['anon'] and self.p(.3):
            b = r.choice(['Integer', 'String', 'Number', 'ArrayOf', 'MapOf', 'Enumerated'] + (['Binary'] if self.feat['binary'] else []))
            if b == 'MapOf' and not self.feat['mapof']:
                b = 'String'
            if b in PRIMS:
                return b, self.popts(b)
            if b == 'ArrayOf':
                return b, ['*' + self.ref()] + self.size(0, 3) + (self.r.choice([['q'], ['s'], ['b'], []]) if self.p(.5) else [])
            if b == 'MapOf':
                return b, ['+' + self.r.choice(['String', 'Integer'] + self.keytypes()), '*' + self.ref()] + self.size(0, 3)
            src = [t[0] for t in self.types if t[1] in ('Record', 'Map', 'Choice', 'Array') and t[4]]
            if src and self.feat['derived']:
                x = r.choice(src)
                return 'Enumerated', [('>' if self.feat['pointer'] and self.p(.3) else '#') + x] + (['='] if self.feat['idopt'] and self.p(.2) else [])
            return 'String', []
        t = self.ref(derived=False)
        return t, []

    def keytypes(self):
        """Names usable as ktype that do not name an enumeration."""
        out = []
        for t in self.types:
            if t[1] == 'String' and not any(o[0] == '/' for o in t[2]):
                out.append(t[0])
            if t[1] == 'Integer' and '/datetime-ms' not in t[2]:
                out.append(t[0])
        return out

    def fields(self, k, lo=1, ordinal=True, choice=False, dirs=True):
        names = self.r.sample(FNAMES, k)
        ids = list(range(1, k + 1)) if ordinal else self.ids(k)
        out = []
        for i, n in zip(ids, names):
            t, o = self.field_type()
            if not choice:
                o = o + (c := self.card())
                bt = {x[0]: x[1] for x in self.types}.get(t, t)
                if any(x[0] == ']' and x != ']1' for x in c):
                    if self.p(.3) and not any(x in ('q', 's', 'b') for x in o):
                        o.append('q')
                elif dirs and bt in ('Record', 'Map') and t != bt and self.feat['pointer'] and self.feat['ext'] and self.p(.3):
                    o.append('<')
            self.r.shuffle(o)
            out.append([i, n, t, o, self.desc()])
        return out

    def msize(self, fields, p=.25):
        """Size limits of a structure with these fields: satisfiable."""
        n = len(fields)
        req = sum('[0' not in f[3] for f in fields)
        if not self.p(p):
            return [] if req <= self.max else ['}%d' % max(n, 1)]
        a = self.r.randint(0, n)
        b = self.r.randint(max(a, req, 1), n + 1)
        if self.p(.3):
            x = max(req, 1) if self.p(.7) else b
            return ['{%d' % x, '}%d' % x]
        return (['{%d' % a] if self.p(.7) else []) + ['}%d' % b]

    def mk_Record(self, n):
        f = self.fields(self.r.randint(1, 5))
        self.add(n, 'Record', self.msize(f) + self.ext() + (['o'] if self.p(.05) else []), f)

    def mk_Map(self, n):
        f = self.fields(self.r.randint(1, 5), ordinal=False)
        self.add(n, 'Map', (['='] if self.feat['idopt'] and self.p(.3) else []) + self.msize(f) + self.ext(), f)

    def mk_Array(self, n):
        f = self.fields(self.r.randint(1, 4), dirs=True)
        self.add(n, 'Array', self.msize(f) + self.ext(), f)

    def mk_Choice(self, n):
        k = self.r.randint(1, 4)
        f = self.fields(k, ordinal=False, choice=True)
        if self.feat['untagged'] and self.p(.4):
            o = ['C' + self.r.choice('OAX')]
            f = [[i, x, self.ref(derived=False), [], self.desc()] for i, x in zip(self.ids(k), self.r.sample(FNAMES, k))]
            if self.p(.3):
                self.union_helper(f)
        else:
            o = ['='] if self.feat['idopt'] and self.p(.3) else []
        self.add(n, 'Choice', o + self.ext(), f)

    def union_helper(self, f):
        """Alternatives that overlap partially: ranges of integers or sizes of strings."""
        for i, x in enumerate(f):
            if not self.names:
                return
            nm = self.newname()
            if self.p(.3):
                b = self.r.choice(['Integer', 'String', 'Binary', 'Number'] if self.feat['binary'] else ['Integer', 'String', 'Number'])
                self.add(nm, b, self.popts(b))
            elif self.p(.5):
                self.add(nm, 'Integer', ['{%d' % (i * 2), '}%d' % (i * 2 + 3)])
            else:
                self.add(nm, 'String', ['{%d' % i, '}%d' % (i + 2)])
            x[2] = nm

    def mk_ArrayOf(self, n):
        self.add(n, 'ArrayOf', ['*' + self.ref()] + self.size(0, 3, .6) + (self.r.choice([['q'], ['s'], ['b'], []]) if self.p(.6) else []))

    def mk_MapOf(self, n):
        x = self.r.random()
        if x < .3 and self.feat['mapofenum'] and self.feat['ext']:
            e = [t[0] for t in self.types if t[1] == 'Enumerated' and '=' not in t[2] and 0 < len(t[4]) <= self.max]
            d = ['#' + t[0] for t in self.types if t[1] in ('Record', 'Map', 'Choice', 'Array') and 0 < len(t[4]) <= self.max]
            c = e + (d if self.feat['derived'] else [])
            if c:
                return self.add(n, 'MapOf', ['+' + self.r.choice(c), '*' + self.ref()])
        k = self.keytypes() + ['String', 'Integer']
        self.add(n, 'MapOf', ['+' + self.r.choice(k), '*' + self.ref()] + self.size(0, 3, .6))

    # ---- composed situations ----
    def mk_tagged(self):
        """A structure with a Choice field whose type is selected by another field."""
        if len(self.names) < 3:
            return
        r = self.r
        en, cn, sn = self.newname(), self.newname(), self.newname()
        k = r.randint(1, 4)
        names, ids = r.sample(FNAMES, k), self.ids(k)
        idf = ['='] if self.feat['idopt'] and self.p(.3) else []
        self.add(cn, 'Choice', idf, [[i, x, self.ref(derived=False), [], ''] for i, x in zip(ids, names)])
        if self.feat['derived'] and self.feat['ext'] and self.p(.3):
            self.add(en, 'Enumerated', ['#' + cn] + idf)
        else:
            extra = [[77, 'other', '']] if self.p(.3) else []
            self.add(en, 'Enumerated', idf[:], [[i, x, ''] for i, x in zip(ids, names)] + extra)
        base = r.choice(['Record', 'Record', 'Map'] + (['Array'] if self.feat['array'] else []))
        k = r.randint(2, 4)
        fid = list(range(1, k + 1)) if base != 'Map' else self.ids(k, 1)
        fn = r.sample(FNAMES, k)
        ti, vi = r.sample(range(k), 2)
        fs = []
        for i in range(k):
            if i == ti:
                fs.append([fid[i], fn[i], en, ['[0'] if self.p(.25) else [], ''])
            elif i == vi:
                fs.append([fid[i], fn[i], cn, ['&%d' % fid[ti]] + (['[0'] if self.p(.3) else []), ''])
            else:
                fs.append([fid[i], fn[i], self.ref(derived=False), ['[0'] if self.p(.5) else [], ''])
        self.add(sn, base, (['='] if base == 'Map' and self.feat['idopt'] and self.p(.3) else []) +
                 (['}%d' % k] if k > self.max else []), fs)

    def mk_link(self):
        if len(self.names) < 2 or not self.feat['ext']:
            return
        r = self.r
        a, b = self.newname(), self.newname()
        kt = r.choice(['String', 'Integer'] + self.of('String', 'Integer'))
        ko = self.popts(kt) if kt in PRIMS and self.p(.5) else []
        base = r.choice(['Record', 'Map'])
        self.add(a, base, ['}3'] if self.max < 2 else [],
                 [[1, 'id', kt, ko + ['K'], self.desc()], [2, 'data', self.ref(derived=False), ['[0'], '']])
        tgt = a
        if self.feat['mapof'] and self.p(.25):
            m = [t[0] for t in self.types if t[1] == 'MapOf' and opts(t[2])['ktype'] in ('String', 'Integer')]
            tgt = r.choice(m) if m else a
        self.add(b, r.choice(['Record', 'Map']), [],
                 [[1, 'to', tgt, ['L'] + self.card(), ''], [2, 'via', a, ['[0', 'L'], '']][:r.randint(1, 2)])

    def mk_multipart(self):
        if not self.names or self.max < 2 or not self.feat['array'] or not self.feat['formats']:
            return
        f = self.r.choice(['ipv4-net', 'ipv6-net', 'tag-uuid'])
        n = self.newname()
        if f == 'tag-uuid':
            bins = [['Binary', []], ['Binary', ['/uuid']]]
            if not self.feat['ext'] or self.conf.get('$MaxBinary', 255) < 16:
                bins = bins[:1]
            fs = [[1, 'tag', 'String', [], ''], [2, 'uuid', *self.r.choice(bins), '']]
        else:
            six = f == 'ipv6-net'
            bins = [['Binary', []], ['Binary', ['/ipv6-addr' if six else '/ipv4-addr']], ['Binary', ['/x']]]
            if not self.feat['ext'] or self.conf.get('$MaxBinary', 255) < 16:
                bins = bins[:1]
            ints = [['Integer', []], ['Integer', ['{0', '}24']], ['Integer', ['/i8']]]
            if not self.feat['ext']:
                ints = ints[:1]
            fs = [[1, 'addr', *self.r.choice(bins), ''], [2, 'plen', *self.r.choice(ints), '']]
        self.add(n, 'Array', ['/' + f], fs)

    def mk_derived(self):
        src = [t for t in self.types if t[1] in ('Record', 'Map', 'Choice', 'Array') and t[4]]
        if not src or not self.names:
            return
        t = self.r.choice(src)
        p = self.feat['pointer'] and t[1] != 'Choice' and self.p(.4)
        o = [('>' if p else '#') + t[0]] + (['='] if self.feat['idopt'] and self.p(.3) else [])
        self.add(self.newname(), 'Enumerated', o)

    def mk_tree(self):
        """Collections within collections, and enumerations of pointers into them."""
        r = self.r
        depth = r.randint(2, 4)
        if len(self.names) < depth + 2:
            return
        below = []
        for k in range(depth):
            n = self.newname()
            base = r.choice(['Record', 'Map'] + (['Array'] if self.feat['array'] else []))
            dirs = r.sample(below, min(len(below), r.choice([1, 1, 2])))
            if below and below[-1] not in dirs:
                dirs[0] = below[-1]
            leaves = [r.choice(['Integer', 'Boolean', 'String']) for _ in range(r.choice([0, 1, 1, 2]) if dirs else r.choice([1, 2]))]
            ts = [(x, ['<']) for x in dirs] + [(x, []) for x in leaves]
            r.shuffle(ts)
            ids = self.ids(len(ts)) if base == 'Map' else range(1, len(ts) + 1)
            fs = [[i, fn, t, o + (['[0'] if self.p(.5) else []), self.desc()] for i, fn, (t, o) in zip(ids, r.sample(FNAMES, len(ts)), ts)]
            self.add(n, base, ['}%d' % len(ts)] if len(ts) > self.max else [], fs)
            below.append(n)
        self.add(self.newname(), 'Enumerated', ['>' + below[-1]] + (['='] if self.feat['idopt'] and self.p(.3) else []))
        if self.p(.5):
            self.add(self.newname(), 'ArrayOf', ['*>' + r.choice(below)])

    def mk_recursive(self):
        if not self.names:
            return
        n = self.newname()
        k = self.r.random()
        if k < .4:
            self.add(n, 'Record', ['}9'] if self.max < 3 else [],
                     [[1, 'val', self.ref(derived=False), [], ''], [2, 'next', n, ['[0'], ''], [3, 'kids', n, ['[0', ']3'] if self.feat['ext'] and self.feat['multi'] else ['[0'], '']])
        elif k < .7 or not self.feat['array']:
            self.add(n, 'Map', ['}9'] if self.max < 2 else [], [[1, 'val', self.ref(derived=False), ['[0'], ''], [5, 'sub', n, ['[0'], '']])
        else:
            self.add(n, 'Choice', [], [[1, 'leaf', self.ref(derived=False), [], ''], [2, 'node', n, [], '']])


class Values:
    """API values for the types of a schema: conforming ones, and ones with a defect planted at a random node."""

    def __init__(self, rng, schema, pats_by_text, conf=None):
        self.r, self.m = rng, Model(schema, conf)
        self.pt = pats_by_text
        self.fault = -1

    def p(self, x):
        return self.r.random() < x

    def value(self, name, faulty=False):
        ty = ('ref', name) if name in self.m.env else ('prim', name)
        self.fault = -1
        self.nodes = 0
        v = self.val(ty, 0)
        if not faulty:
            return v
        n = self.nodes
        self.nodes = 0
        self.fault = self.r.randrange(max(n, 1))
        v = self.val(ty, 0)
        self.fault = -1
        return v

    def n_between(self, lo, hi, cap=4):
        hi = max(hi, lo)
        x = self.r.random()
        if x < .25:
            return lo
        if x < .5 and hi <= 12:
            return hi
        return self.r.randint(lo, min(hi, lo + cap))

    def chars(self, n):
        s = ''.join(self.r.choice(CHARS) for _ in range(n))
        if n and self.p(.1):
            i = self.r.randrange(n)
            s = s[:i] + self.r.choice(UNI) + s[i + 1:]
        return s

    def val(self, ty, d):
        t = self.m.deref(ty)
        self.nodes += 1
        bad = False
        if self.fault == 0:
            self.fault = -1
            bad = True
        elif self.fault > 0:
            self.fault -= 1
        if bad and self.p(.2):
            return self.r.choice([None, True, 0, 1.5, 'x', b'y', [], {}, ['a'], {'a': 1}, (1,), -1, '', 7, 10**20, -10**20, 1e300, b'1234', [b'1234', 8], {1: 2}, '1.2.3.4/8', '2020-01-01T00:00:00Z', [None], {'zz': None}])
        return getattr(self, 'v_' + t.b)(t, d, bad)

    def size_for(self, t, bad, cap=4):
        if bad:
            c = [t.mx + 1] if t.mx is not None and t.mx < 300 else []
            if t.mn > 0:
                c += [t.mn - 1, t.mn - 1]
            if c:
                return self.r.choice(c)
        return self.n_between(t.mn, t.mx if t.mx is not None else t.mn + cap, cap)

    def v_Boolean(self, t, d, bad):
        if bad:
            return self.r.choice([0, 1, 'true', None, 'True', 1.0])
        return self.p(.5)

    def v_Integer(self, t, d, bad):
        r = self.r
        f = t.o.get('format')
        if bad and self.p(.3):
            return r.choice([True, False, 1.0, '1', None, 2.5])
        lo, hi = (int(t.o[k]) if k in t.o else None for k in ('minv', 'maxv'))
        if f == 'datetime-ms':
            if bad and self.p(.6):
                return r.choice(BADDATES)
            c = [x for x in DATES if (lo is None or x >= lo) and (hi is None or x <= hi)]
            return r.choice(c) if self.p(.6) else r.randrange(max(-62135596800000, lo if lo is not None else -10**14), min(253402300799999, hi if hi is not None else 10**14))
        if f in INTLIM:
            L = INTLIM[f]
            lo, hi = max(-L, lo if lo is not None else -L), min(L - 1, hi if hi is not None else L - 1)
        if bad:
            c = ([lo - 1] if lo is not None else []) + ([hi + 1] if hi is not None else [])
            if c:
                return r.choice(c)
        if lo is None and hi is None:
            return r.choice([0, 1, -1, 5, 2**31, -2**63, 10**20, 42])
        if lo is None:
            return hi - r.choice([0, 1, 2**35])
        if hi is None:
            return lo + r.choice([0, 1, 2**35])
        return r.choice([lo, hi, r.randint(lo, hi)])

    def v_Number(self, t, d, bad):
        r = self.r
        if bad and self.p(.3):
            return r.choice([True, False, '1.5', None])
        lo, hi = (float(t.o[k]) if k in t.o else None for k in ('minf', 'maxf'))
        if bad:
            c = ([lo - .5, lo - .001, int(lo) - 1] if lo is not None else []) + ([hi + .5, hi + .001, int(hi) + 1] if hi is not None else [])
            if c:
                return r.choice([round(x, 6) for x in c])
        c = [x for x in NUMS + [0, 1, -3, 100, 2, 2**40] if (lo is None or x >= lo) and (hi is None or x <= hi)]
        c += [x for x in (lo, hi) if x is not None]
        return r.choice(c)

    def v_String(self, t, d, bad):
        r = self.r
        if bad and self.p(.2):
            return r.choice([None, 1, b'abc', True, ['a']])
        pt = t.o.get('pattern')
        if pt is None and t is self.m.env.get('TypeRef') and '$TypeName' in self.pt:
            s = pats.sample(self.pt['$TypeName'], r)
            if self.p(.6):
                s = pats.sample(self.pt['$NSID'], r) + ':' + s
            return r.choice([s + ':', ':' + s, s[1:], s + '!', s.lower(), s + ':' + s]) if bad else s
        if pt is not None and pt in self.pt:
            s = pats.sample(self.pt[pt], r)
            if bad:
                k = r.random()
                s = s[:-1] if k < .3 else ('!' + s if k < .6 else s + r.choice(['!', '\n', ' ', 'Z9']))
            return s
        f = t.o.get('format')
        if f in STRFMT:
            good, wrong = STRFMT[f]
            fit = [s for s in good if t.mn <= len(s) and (t.mx is None or len(s) <= t.mx)]
            return r.choice(wrong) if bad and wrong else r.choice(fit or good)
        return self.chars(self.size_for(t, bad))

    def v_Binary(self, t, d, bad):
        r = self.r
        if bad and self.p(.25):
            return r.choice([None, 1, 'abcd', True, [1, 2]])
        f = t.o.get('format')
        if f == 'uuid':
            return r.choice(BADUUIDS + [UUIDS[0][:15], UUIDS[0] + b'x']) if bad else r.choice(UUIDS)
        if f == 'ipv4-addr':
            return r.choice([b'abc', b'abcde', b'', bytes(16)]) if bad else r.choice([bytes(4), b'\xff' * 4, bytes([10, 0, 0, 1]), bytes([192, 168, 100, 9])])
        if f == 'ipv6-addr':
            return r.choice([bytes(4), bytes(15), bytes(17), b'']) if bad else r.choice(IP6)
        if f == 'eui':
            return r.choice([b'12345', b'1234567', b'', bytes(9)]) if bad else bytes(r.randrange(256) for _ in range(r.choice([6, 8])))
        return bytes(r.randrange(256) for _ in range(self.size_for(t, bad)))

    def v_Enumerated(self, t, d, bad):
        r = self.r
        if not t.items:
            return None
        i, n = r.choice(t.items)
        if bad:
            return r.choice([n if t.id else i, 'nope', 99999, True, None, str(i), n + ' ', n.upper() + 'x', float(i)])
        return i if t.id else n

    def tag(self, t, f):
        return f.i if t.id else f.n

    def v_Choice(self, t, d, bad):
        r = self.r
        if not t.f:
            return {}
        if 'combine' in t.o:
            fs = [f for f in t.f if not self.deep(f.ty, d)] or t.f
            if t.o['combine'] == 'A' and self.p(.7):
                for _ in range(3):
                    v = self.val(r.choice(fs).ty, d + 1)
                    return v
            return self.val(r.choice(fs).ty, d + 1)
        fs = [f for f in t.f if not self.deep(f.ty, d)] or t.f
        f = r.choice(fs)
        v = {self.tag(t, f): self.val(f.ty, d + 1)}
        if bad:
            k = r.random()
            if k < .2:
                return {}
            if k < .4:
                g = r.choice(t.f)
                return {**v, (self.tag(t, g) if g is not f else 'zz'): list(v.values())[0]}
            if k < .6:
                return {r.choice(['nope', 9999, None]): list(v.values())[0]}
            if k < .8:
                return {(f.n if t.id else f.i): list(v.values())[0]}
            if k < .9:
                return {self.tag(t, f): None}
            return [list(v.items())[0][1]]
        return v

    def deep(self, ty, d):
        """Skip branches that only lead deeper (recursive types)."""
        return d > 3 and ty[0] == 'ref' and self.m.deref(ty).b in ('Record', 'Map', 'Choice', 'Array', 'MapOf', 'ArrayOf')

    def struct(self, t, d, bad):
        """{field: value} of a Map, Record or Array."""
        r = self.r
        out = {}
        keep = r.choice([0, .3, .7, 1])
        for f in t.f:
            if f.opt and (not self.p(keep) or d > 3):
                continue
            if f.tag is not None:
                continue
            out[f] = self.val(f.ty, d + 1)
        for f in t.f:
            if f.tag is None or (f.opt and not self.p(.8)):
                continue
            g = [x for x in t.f if x.i == f.tag][0]
            if g not in out:
                if f.opt:
                    continue
                out[g] = self.val(g.ty, d + 1)
            ct = self.m.deref(f.ty)
            alt = [x for x in ct.f if self.tag(ct, x) == out[g]]
            if not alt and f.opt and self.p(.8):
                continue
            if not alt:
                alt = [r.choice(ct.f)]
                if not bad:
                    out[g] = self.tag(ct, alt[0])
            out[f] = self.val(alt[0].ty, d + 1)
        # size limits
        while t.mx is not None and len(out) > t.mx and not bad:
            o = [f for f in out if f.opt and f.i not in [x.tag for x in t.f]]
            if not o:
                break
            del out[r.choice(o)]
        for f in t.f:
            if len(out) >= t.mn or (bad and self.p(.5)):
                break
            if f not in out and f.tag is None:
                out[f] = self.val(f.ty, d + 1)
        if bad and out and self.p(.4):
            f = r.choice(list(out))
            if self.p(.6):
                del out[f]
            else:
                out[f] = None
        return out

    def v_Record(self, t, d, bad):
        r = self.r
        out = self.struct(t, d, bad)
        v = {f.n: out[f] for f in (t.f if self.p(.7) else r.sample(t.f, len(t.f))) if f in out}
        if bad and self.p(.5):
            k = r.random()
            if k < .4:
                v[r.choice(['extra', 0, 99, '1'])] = r.choice([1, None, 'x'])
            elif k < .7:
                return {f.i: out[f] for f in out}
            else:
                return list(v.values())
        return v

    v_Map = v_Record

    def v_Array(self, t, d, bad):
        r = self.r
        f = t.o.get('format')
        if f:
            six = f == 'ipv6-net'
            if f == 'tag-uuid':
                l = [r.choice(['a', 'action', 'a-b', '', 'x y', '-']), r.choice(BADUUIDS if bad else UUIDS)]
            else:
                mx = 128 if six else 32
                t2 = self.m.deref(t.f[1].ty)
                top = min(mx, int(t2.o.get('maxv', mx)))
                n = r.choice([-1, mx + 1, True, None, '8', top + 1]) if bad and self.p(.5) else r.choice([0, 1, 8, 24, top])
                a = r.choice(IP6) if six else bytes([10, 1, r.randrange(256), 0])
                if bad and self.p(.5):
                    a = r.choice([a[:-1], a + b'x', None, 'x'])
                l = [a, n]
            if bad and self.p(.2):
                l = r.choice([l[:1], l + [1], tuple(l), []])
            return l
        out = self.struct(t, d, bad)
        l = [out.get(f) for f in t.f]
        if self.p(.8):
            while l and l[-1] is None:
                l.pop()
        if bad and self.p(.5):
            k = r.random()
            if k < .4:
                l = l + [None] * (len(t.f) - len(l)) + [r.choice([None, 1])]
            elif k < .6:
                return {f.n: out[f] for f in out}
            elif k < .8:
                return l[:-1]
            else:
                l.insert(0, None)
        return l

    def v_ArrayOf(self, t, d, bad):
        r = self.r
        n = self.size_for(t, bad, 1 if d > 2 else 3)
        if d > 4:
            n = min(n, max(t.mn, 1)) if not bad else n
        uniq = 'unique' in t.o or 'set' in t.o
        one = None
        l = []
        for _ in range(n):
            if n > 12:      # long lists only for the default limits: repeat one value where allowed
                one = one if one is not None and not uniq else self.val(t.v, d + 1)
                l.append(one)
                continue
            x = self.val(t.v, d + 1)
            if uniq and not bad:
                for _ in range(4):
                    if x not in l:
                        break
                    x = self.val(t.v, d + 1)
            l.append(x)
        if bad and l and (uniq or self.p(.2)) and self.p(.6):
            l.append(l[0])
        if not bad and not uniq and l and self.p(.1) and (t.mx is None or len(l) < t.mx):
            l.append(l[-1])
        return l

    def v_MapOf(self, t, d, bad):
        n = self.size_for(t, bad, 2)
        out = {}
        for _ in range(n * 4):
            if len(out) >= n:
                break
            k = self.val(t.k, d + 1)
            try:
                if any(k == q and type(k) is not type(q) for q in out):
                    continue
                out[k] = self.val(t.v, d + 1)
            except TypeError:
                pass
        if bad and self.p(.3):
            out[self.r.choice([5, 'zz', ''])] = None
        return out


ALTDATES = ['2024-08-12T09:59:49.012Z', '1969-12-31T23:59:59.999+00:00', '1970-01-01T00:00:00+01:00', '2024-02-30T00:00:00Z', '2024-02-29 12:00:00z',
            '2024-13-01T00:00:00Z', '2000-01-01T24:00:00Z', 'yesterday', '', '2000-01-01T00:60:00Z', '2000-01-01T00:00:00-05:30']


def mutate(rng, v, depth=0):
    """A serialized value with a small change at a random node."""
    r = rng
    if isinstance(v, list) and v and r.random() < .7:
        w = list(v)
        i = r.randrange(len(w))
        k = r.random()
        if k < .55:
            w[i] = mutate(r, w[i], depth + 1)
        elif k < .65:
            del w[i]
        elif k < .75:
            w.append(w[i])
        elif k < .85:
            w[i] = None
        elif k < .93:
            w.append(r.choice([None, 1, 'x']))
        else:
            w[i], w[0] = w[0], w[i]
        return w
    if isinstance(v, dict) and v and r.random() < .8:
        w = dict(v)
        key = r.choice(list(w))
        k = r.random()
        if k < .5:
            w[key] = mutate(r, w[key], depth + 1)
        elif k < .62:
            del w[key]
        elif k < .72:
            w[r.choice(['extra', 'zz', 99, '99', '0'])] = r.choice([1, 'x', None])
        elif k < .8:
            w[key] = None
        elif k < .9:
            x = w.pop(key)
            w[r.choice([key + 'x', key.upper(), 1, key + ' ']) if isinstance(key, str) else str(key)] = x
        else:
            x = w.pop(key)
            w[r.choice([1, 2, '1', '2', '01', 'a', '-1', '', False, 1.5, None, b'1'])] = x
        return w
    if isinstance(v, str) and r.random() < .75:
        k = r.random()
        if k < .2:
            return v.swapcase()
        if k < .35:
            return v[:-1]
        if k < .5:
            return v + r.choice(['x', '=', '0', 'A', ' ', '/8', '\n'])
        if k < .6 and v:
            i = r.randrange(len(v))
            return v[:i] + r.choice('abF09.:-/ +_é') + v[i + 1:]
        if k < .7 and '/' in v:
            return v.split('/')[0] + r.choice(['', '/0', '/33', '/129', '/-1', '/', '/x', '/08', '/24'])
        if 'T' in v and '-' in v:
            return r.choice(ALTDATES)
        return r.choice(['', 'zz', 'AQ', 'AQIDBA', 'ff', '::1', '1.2.3.4'])
    if isinstance(v, bool):
        return r.choice([0, 1, 'true', None, not v])
    if isinstance(v, (int, float)) and r.random() < .8:
        return r.choice([v + 1, v - 1, -v, str(v), True, float(v) if abs(v) < 2**40 else 0.5, None, v * 1000 if abs(v) < 2**40 else 0])
    return r.choice([None, True, 0, 1.5, 'x', [], {}, [1], {'a': 1}, '', -1, {'1': 1}, [None]])
