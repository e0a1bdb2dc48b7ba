"""Schemas for the well-formedness check: option matrices, valid schemas, and defective ones.  Whether a schema is well-formed is
decided by the specification (JCheck), never here."""
import copy
import itertools
import random

import gen
import pats
from resolve import CORE as CORES

CORE = list(CORES)

OPTS = ['=', '*String', '+String', '#R', '>R', '/i8', '/x', '/hostname', '/ipv4-net', '/f32', '/bogus', '/date', '/uuid', '%^a$', 'y1.0', 'z0.5', 'z2.0', '{0', '{3', '{-1',
        '}2', '}5', '}-7', 'q', 's', 'b', 'o', 'CO', 'CA', 'CX', 'X', '!x', '[0', '[2', ']0', ']1', ']3', ']-1', '[-1', '&1', '&2', '&0', '<', 'K', 'L', '?', '{x', 'yq', '{', 'T', '/datetime-ms',
        '/b', '/eui', '/i64', '/X', '/tag-uuid', '/email', '/iri-reference', 'y0.0', 'z0.0', 'z-0.5', '}0', '{7', '[3', ']2']
R = ['R', 'Record', [], '', [[1, 'a', 'String', [], ''], [2, 'e', 'Integer', ['[0'], '']]]


def type_matrix(k):
    """Each core type with every set of at most k options of the pool."""
    for b in CORE:
        for n in range(k + 1):
            for c in itertools.combinations(OPTS, n):
                f = []
                if b == 'Enumerated' and not any(o[0] in '#>' for o in c if o):
                    f = [[1, 'x', '']]
                elif b in ('Choice', 'Array', 'Map', 'Record'):
                    f = [[1, 'x', 'String', [], '']]
                yield {'types': [['T', b, list(c), '', f], R]}


OWN = {'Integer': ['{0', '{3', '{-1', '{7', '}2', '}5', '}0', '}-7', '/i8', '/datetime-ms', '/f32'],
       'Number': ['y1.0', 'y0.0', 'y-2.5', 'y0.001', 'z0.5', 'z2.0', 'z0.0', 'z-0.5', 'z-3.0', '/f16', '/i8'],
       'String': ['{0', '{3', '{7', '}2', '}5', '}0', '%^a$', '/hostname', '/x'],
       'Binary': ['{0', '{3', '{7', '}2', '}5', '}0', '/x', '/eui', '/email'],
       'Array': ['{0', '{3', '}2', '}5', '}0', '/ipv4-net', '/ipv4-addr', 'X'], 'Record': ['{0', '{3', '}2', '}5', '}0', 'X', 'o', '='],
       'Map': ['{0', '{3', '}2', '}5', '}0', 'X', 'o', '='], 'Choice': ['CO', 'CA', 'CX', 'X', '=', '{1'], 'Enumerated': ['=', '#R', '>R', 'X', '*R'],
       'ArrayOf': ['*String', '*R', '{0', '{3', '}2', '}5', '}0', 'q', 's', 'b', 'o'], 'MapOf': ['+String', '*String', '*R', '{0', '{3', '}2', '}5', '}0', 'o', 'q'], 'Boolean': ['{0', '}2', '/x']}


def own_matrix(k):
    """Each core type with every set of 3..k options from its own pool; the same as the type of a field, with a cardinality."""
    for b in CORE:
        for n in range(3, k + 1):
            for c in itertools.combinations(OWN[b], n):
                f = [[1, 'x', 'String', [], '']] if b in ('Choice', 'Array', 'Map', 'Record') else []
                yield {'types': [['T', b, list(c), '', f], R]}
        if b not in ('Choice', 'Array', 'Map', 'Record'):
            for n in range(2, k):
                for c in itertools.combinations(OWN[b], n):
                    for x in ([], ['[0'], [']3'], ['[3', ']2'], ['[0', ']0'], ['K'], ['L']):
                        yield {'types': [['T', 'Record', [], '', [[1, 'x', b, x + list(c), '']]], R]}


def names_matrix():
    """Two and three fields with every combination of ids and of names from small pools that overlap other names of the schema."""
    for b, tn in itertools.product(('Enumerated', 'Choice', 'Array', 'Map', 'Record'), ('T', '$t', 'a')):
        pool = ['a', 'b', '$t', '1', ''] + (['T', 'Enumerated'] if b == 'Enumerated' else [])
        for i, j in itertools.product((0, 1, 2), repeat=2):
            for x, y in itertools.product(pool, repeat=2):
                fs = [[i, x], [j, y]]
                yield names_schema(b, tn, fs)
        for i, j, k in itertools.product((1, 2, 3), repeat=3):
            for x, y, z in itertools.product(pool[0:3:2], repeat=3):
                yield names_schema(b, tn, [[i, x], [j, y], [k, z]])
    for a, b, c in itertools.product(['A', 'B', '$A', 'String', 'a', 'R', 'A-b'], repeat=3):
        yield {'types': [[a, 'String', [], '', []], [b, 'Integer', [], '', []], [c, 'String', [], '', []]]}
    # names that are alike but not equal
    for a, b, c in itertools.product(['Ab', 'AB', 'Abc', 'A-b', 'A-B', 'Ab1'], repeat=3):
        yield {'types': [[a, 'String', [], '', []], [b, 'Record', [], '', [[1, 'x', c, [], '']]], [c, 'String', [], '', []]]}
    for b, (x, y, z) in itertools.product(('Enumerated', 'Choice', 'Array', 'Map', 'Record'), itertools.product(['ab', 'aB', 'abc', 'a_b', 'ab_'], repeat=3)):
        fs = [[1, x], [2, y], [3, z]]
        yield {'types': [['T', b, [], '', [f + ([''] if b == 'Enumerated' else ['String', [], '']) for f in fs]]]}


LETTERS = pats.seq(pats.BOL, pats.rep(pats.cls('[$A-Za-z]', '$' + pats.UP + pats.LOW), 1, 9), pats.EOL)
OWNPATS = {pats.text(LETTERS): pats.ast(LETTERS)}


def names_schema(b, tn, fs):
    fs = [f + ([''] if b == 'Enumerated' else ['String', [], '']) for f in fs]
    return {'types': [[tn, b, [], '', fs], R], 'info': {'package': 'urn:a:b', 'config': {'$TypeName': pats.text(LETTERS)}}}


def field_matrix(k, bases=('Record', 'Choice', 'Map', 'Array'), rng=None):
    """Each field type with every set of at most k options, in fields of structured types."""
    for t in list(CORE) + ['R', 'Other', 'ns:Other']:
        for n in range(k + 1):
            for c in itertools.combinations(OPTS, n):
                for b in (bases if rng is None else [rng.choice(bases)]):
                    yield {'types': [['T', b, [], '', [[1, 'x', t, list(c), ''], [2, 'y', 'R', [], '']]], R]}


def sizes_matrix():
    """Every countable part of a schema in many sizes, alone and under limits of the schema's own."""
    up = [chr(65 + i % 26) + 'bc%d' % i for i in range(101)]
    row = ['T', 'String', [], '', []]

    def s(info=None, types=None):
        return {**({'info': {'package': 'urn:a:b', **info}} if info is not None else {}), 'types': types or [row]}
    ns = [0, 1, 2, 3, 8, 9, 10, 11, 12, 16, 20, 32, 50, 64, 99, 100, 101]
    lens = [0, 1, 2, 8, 9, 31, 32, 62, 63, 64, 65, 100, 126, 127, 128, 200, 254, 255, 256]
    for n in ns:
        pre = [chr(97 + i % 26) + str(i) for i in range(n)]
        yield s({'namespaces': [[p, 'urn:x:' + p] for p in pre]})
        yield s({'namespaces': {p: 'urn:x:' + p for p in pre}})
        yield s({'namespaces': [[p, 'urn:x:' + p][:n] + ['z'] * (n - 2) for p in 'ab']})
        for k in ('exports', 'roots'):
            yield s({k: up[:n]})
        yield s(types=[['T', 'Enumerated', [], '', [[i, u, ''] for i, u in enumerate(up[:n])]]])
        for b in ('Choice', 'Array', 'Map', 'Record'):
            yield s(types=[['T', b, [], '', [[i + 1, u.lower(), 'String', [], ''] for i, u in enumerate(up[:n])]]])
        for o in (['q'], ['*String'], ['=']):
            yield s(types=[['T', {'q': 'ArrayOf', '*': 'ArrayOf', '=': 'Map'}[o[0][0]], o * n + ['*String'] * (o == ['q']), '', []]])
        yield s(types=[['T', 'Record', [], '', [[1, 'a', 'String', ['[0'] * n, '']]]])
    for n in lens:
        x = 'x' * n
        for k in ('version', 'title', 'description', 'comment', 'copyright', 'license'):
            yield s({k: x})
        yield s({'package': 'urn:' + x})
        yield s({'namespaces': [['a', 'urn:' + x]]})
        for k in ('$TypeName', '$FieldName', '$NSID'):
            yield s({'config': {k: own_rule(n)}, 'namespaces': {'T': 'urn:x'}}, [['T', 'Record', [], '', [[1, 'T' if k == '$FieldName' else 'a', 'T:T', [], '']]]])
        for k in ('$MaxBinary', '$MaxString', '$MaxElements'):
            yield s({'config': {k: n}})
        yield s({'config': {'$Sys': x}})
        for b in ('String', 'Record'):
            f = [[1, 'a', 'String', ['%' + x] if n else [], x]]
            yield s(types=[['T', b, ['%' + x] if b == 'String' and n else [], x, f if b == 'Record' else []]])
        yield s(types=[['T', 'Enumerated', [], '', [[n, x, x]]]])
        yield s(types=[['T' + x, 'String', [], '', []]])
        yield s(types=[['T', 'Record', [], '', [[1, 'a' + x, 'String', [], ''], [2, 'b', 'T' + x, ['[0'], ''], [3, 'c', 'n:T' + x, ['[0'], '']]]])
    for n in (999, 1000, 1001):
        yield s(types=[['T%d' % i, 'String', [], '', []] for i in range(n)])
    for n in (2047, 2048, 2049):
        yield s(types=[['T', 'Record', [], 'd' * n, [[1, 'a', 'String', [], '']]]])
        yield s(types=[['T', 'Record', [], '', [[1, 'a', 'String', [], 'd' * n]]]])
        yield s(types=[['T', 'Enumerated', [], '', [[1, 'a', 'd' * n]]]])
    for n in range(1, 14):      # the limits of the schema itself apply to the schema
        for k in ('$MaxElements', '$MaxString'):
            for m in range(max(0, n - 2), n + 3):
                yield s({'config': {k: n}, 'exports': up[:m]})
                yield s({'config': {k: n}, 'title': 'x' * m})
                yield s({'config': {k: n}}, [['T', 'Enumerated', [], '', [[i, u, ''] for i, u in enumerate(up[:m])]]])
                yield s({'config': {k: n}}, [['T', 'Record', ['X'] * m, '', [[i + 1, u.lower(), 'String', [], 'd' * 20] for i, u in enumerate(up[:m])]]])


def own_rule(n):
    """A name rule of n characters, that a single T satisfies when n allows."""
    if n < 3:
        return ['', '.', '..'][n]
    p = pats.seq(pats.BOL, pats.cls('[T%s]' % ('U' * (n - 5)), 'TU') if n >= 5 else ['chr', 'T'], pats.EOL)
    OWNPATS[pats.text(p)] = pats.ast(p)
    return pats.text(p)


STR = ['', 'a', 'A', 'T-1', 'T_1', '1a', 'é', 'a' * 64, 'A' * 64, 'a' * 65, 'A' * 65, '$a', '$A', 'a b', 'A$', 'a$', 'a-b', 'a_b', 'String', 'Record', 'ns:Tt', 'toolongns:Tt', ':Tt', 'n1:Tt', '1n:Tt', 'ns:tt', 'a.b', 'A\n', 'x:y:Z']
JUNK = [None, True, 0, -1, 1.5, 'x', [], {}, ['x'], {'a': 1}]
LONG = ['d' * 255, 'd' * 256, 'd' * 2048, 'd' * 2049]


class Rich:
    """Valid schemas with information, and their defective variants."""

    def __init__(self, rng):
        self.r = rng

    def valid(self):
        r = self.r
        g = gen.Schemas(rng=r, desc=True, link=r.random() < .5, loose=r.random() < .5)
        s = g.schema(r.randint(1, 7))
        self.pats = dict(g.pats)
        # limits below what the metaschema's own rows need are about the limit itself
        cf = s.get('info', {}).get('config', {})
        for k in list(cf):
            cf[k] = r.choice([cf[k] + 60, 64, 100, 1000]) if k != '$MaxElements' else r.choice([12, 20, 50])
        if r.random() < .6:
            info = s.setdefault('info', {})
            info['package'] = r.choice(['http://example.com/p', 'urn:a:b', 'https://x.y/z/v1.0#f'])
            for k, v in (('version', '1.0'), ('title', 'A title'), ('description', 'About "it"'), ('comment', 'c'), ('copyright', '(c)'), ('license', 'CC0-1.0')):
                if r.random() < .25:
                    info[k] = v
            if r.random() < .3:
                info['namespaces'] = {'ns': 'http://example.com/q', 'n2': 'urn:x:y'} if r.random() < .5 else [['ns', 'http://example.com/q'], ['', 'urn:x:y']]
            if r.random() < .4:
                info[r.choice(['exports', 'roots'])] = [t[0] for t in r.sample(s['types'], r.randint(1, len(s['types'])))]
            if r.random() < .3:
                self.names(info.setdefault('config', {}), s)
            info2 = list(info.items())
            r.shuffle(info2)
            s['info'] = dict(info2)
        for t in s['types']:
            if r.random() < .1 and not t[4]:
                del t[r.choice([3, 4]):]
                if len(t) == 3 and not t[2]:
                    del t[2:]
        if r.random() < .5:
            s = dict(reversed(list(s.items())))
        return s

    def names(self, cf, s):
        """Own name rules that the names of this schema satisfy, mostly."""
        r = self.r
        up, lo = pats.UP, pats.LOW
        if r.random() < .6:
            p = pats.seq(pats.BOL, pats.cls('[A-Z]', up), pats.rep(pats.cls('[-$A-Za-z0-9]', '-$' + up + lo + pats.DIG), 0, r.choice([11, 15, 20])), pats.EOL)
            cf['$TypeName'] = self.pat(p)
        if r.random() < .6:
            p = pats.seq(pats.BOL, pats.rep(pats.cls('[$a-zA-Z0-9_]', '$_' + up + lo + pats.DIG), 1, r.choice([1, 3, 8])), pats.EOL)
            cf['$FieldName'] = self.pat(p)
        if r.random() < .3:
            cf['$NSID'] = self.pat(pats.seq(pats.BOL, pats.rep(pats.cls('[a-z]', lo), 0, 3), pats.EOL))
        if r.random() < .3:
            cf['$Sys'] = r.choice('$.')
        if not cf:
            cf['$Sys'] = '$'

    def pat(self, p):
        self.pats[pats.text(p)] = pats.ast(p)
        return pats.text(p)

    def defect(self, s):
        """One local change."""
        r = self.r
        s = copy.deepcopy(s)
        ts = s['types']
        t = r.choice(ts)
        k = r.choice(['opt', 'opt', 'opt', 'fopt', 'fopt', 'fopt', 'id', 'fname', 'ftype', 'tname', 'base', 'cols', 'junk', 'fjunk', 'dup', 'fdup', 'info', 'info', 'top', 'desc', 'addfield', 'conf', 'many', 'delopt', 'swap'])
        fl = t[4] if len(t) > 4 and isinstance(t[4], list) else []
        f = r.choice(fl) if fl else None
        if k == 'opt':
            while len(t) < 3:
                t.append([])
            t[2].insert(r.randint(0, len(t[2])), r.choice(OPTS))
        elif k == 'delopt':
            lists = [x[2] for x in ts if len(x) > 2 and x[2]] + [g[3] for x in ts if len(x) > 4 for g in x[4] if len(g) > 3 and g[3]]
            if lists:
                l = r.choice(lists)
                del l[r.randrange(len(l))]
        elif k == 'fopt' and f and len(f) == 5:
            f[3].insert(r.randint(0, len(f[3])), r.choice(OPTS + ['&%d' % g[0] for g in fl]))
        elif k == 'id' and f:
            f[0] = r.choice([f[0] + 1, -1, 0, '1', 1.5, None, True, fl[0][0], 2**40])
        elif k == 'fname' and f:
            f[1] = r.choice(STR + [fl[0][1], f[1].upper() if isinstance(f[1], str) else '', None, 1, t[0]] + LONG[:2])
        elif k == 'ftype' and f and len(f) == 5:
            f[2] = r.choice(STR + CORE + [None, 3, ts[0][0], 'ns:' + ts[0][0]])
        elif k == 'tname':
            t[0] = r.choice(STR + CORE + [None, 1, ts[0][0], ts[0][0].lower()])
        elif k == 'base':
            t[1] = r.choice(CORE + ['Thing', '', None, 'string', 'Any', 1])
        elif k == 'cols':
            x = r.choice([t] + ([f] if f else []))
            if r.random() < .5:
                x.append(r.choice(['', [], None]))
            elif x:
                x.pop()
        elif k == 'junk':
            t[r.randrange(len(t))] = r.choice(JUNK)
        elif k == 'fjunk' and f:
            f[r.randrange(len(f))] = r.choice(JUNK)
        elif k == 'dup':
            u = copy.deepcopy(t)
            if r.random() < .5 and len(u) > 3:
                u[3] = 'other'
            ts.insert(r.randint(0, len(ts)), u)
        elif k == 'fdup' and f:
            g = copy.deepcopy(f)
            x = r.random()
            if x < .4:
                g[0] = max(h[0] for h in fl) + 1
                if r.random() < .5:     # the same name twice, under a name of special form
                    f[1] = g[1] = r.choice([t[0], t[1], str(f[0]), '', 'id', '$x', 'x', 'String', '\u00e9', fl[0][1], str(f[1]).lower()])
            elif x < .8:
                g[1] = 'other'
                if r.random() < .5:
                    f[0] = g[0] = r.choice([0, 1, 255, 2**31, 2**40, len(fl)])
            fl.insert(r.randint(0, len(fl)), g)
        elif k == 'info':
            i = s.get('info')
            if not isinstance(i, dict):
                i = s['info'] = {'package': 'http://a/b'}
            x = r.choice(['package', 'version', 'title', 'description', 'comment', 'comments', 'copyright', 'license', 'namespaces', 'exports', 'roots', 'config', 'zzz', 'del', 'not'])
            if x == 'del' and i:
                del i[r.choice(list(i))]
            elif x == 'not':
                s['info'] = r.choice(JUNK)
            elif x == 'package':
                i[x] = r.choice(['', 'a b', 'http://a b', 'x', '//a', 'urn:x:y', 'http://x/' + 'y' * 250, 5, None])
            elif x == 'namespaces':
                i[x] = r.choice([{}, [], {'ns': 'x y'}, {'toolongns': 'http://a/b'}, {'1': 'http://a/b'}, [['ns']], [['ns', 'http://a/b', 'c']], [['ns', 'q']], {'': 'http://a/b'}, [['a', 'urn:x:y'], ['a', 'urn:x:z']], 'x', {'ns': 5}])
            elif x in ('exports', 'roots'):
                i[x] = r.choice([[], ['lower'], ['Type', 'Type'], 'Type', [5], ['ns:Type'], ['A' * 65], [None], ['Nowhere']])
            elif x == 'config':
                i[x] = r.choice([{}, [], {'$MaxString': 0}, {'$MaxString': '5'}, {'$MaxElements': -1}, {'$MaxBinary': 1}, {'$Sys': 'ab'}, {'$Sys': ''}, {'$TypeName': ''}, {'$TypeName': 'x' * 128}, {'MaxString': 3}, {'$MaxElements': 3}, {'$MaxString': 5}, {'$MaxString': 1.5}, {'$MaxBinary': True}])
            else:
                i[x] = r.choice(['', 'x', 'x' * 255, 'x' * 256, 5, None, ['x'], {'en': 'x'}])
        elif k == 'conf':
            cf = s.setdefault('info', {'package': 'http://a/b'}) if isinstance(s.get('info', {}), dict) else {}
            cf = cf.setdefault('config', {})
            if isinstance(cf, dict):
                x = r.choice(['$MaxString', '$MaxElements', 'names', 'names'])
                if x == 'names':
                    self.names(cf, s)
                else:
                    cf[x] = r.randint(1, 12)
        elif k == 'top':
            x = r.choice(['extra', 'types', 'del', 'row'])
            if x == 'extra':
                s[r.choice(['Types', 'meta', 'x'])] = r.choice(JUNK)
            elif x == 'types':
                s['types'] = r.choice([[], {}, 'x', [[]], [['T']], [5], [{}]])
            elif x == 'del':
                del s[r.choice(list(s))]
            else:
                ts[r.randrange(len(ts))] = r.choice(JUNK)
        elif k == 'desc':
            x = r.choice([t] + ([f] if f else []))
            if len(x) > 2:
                x[3 if x is t and len(x) > 3 else -1] = r.choice(LONG)
        elif k == 'addfield':
            while len(t) < 5:
                t.append('' if len(t) == 3 else [])
            if isinstance(t[4], list):
                t[4].append(r.choice([[len(fl) + 1, 'n%d' % len(fl), 'String', [], ''], [len(fl) + 1, 'n%d' % len(fl), ''], [len(fl) + 1, 'n%d' % len(fl), 'String'], [len(fl) + 1]]))
        elif k == 'many':
            x = r.choice(['opts', 'types', 'fields'])
            if x == 'opts':
                while len(t) < 3:
                    t.append([])
                t[2].extend(['X'] * r.choice([5, 9, 10, 11]))
            elif x == 'fields' and f and len(f) == 5:
                m = r.choice([90, 99, 100, 101])
                t[4] = [[i, 'n%d' % i, 'String', [], ''] for i in range(1, m + 1)]
            elif x == 'types' and r.random() < .2:
                s['types'] = [['T%d' % i, 'String', [], ''] for i in range(r.choice([999, 1000, 1001]))]
        elif k == 'swap' and len(fl) > 1:
            i = r.randrange(len(fl) - 1)
            fl[i], fl[i + 1] = fl[i + 1], fl[i]
        return s
