"""C16: semantic formats.  Dense texts and values for every format, in types, fields, elements and keys."""
import itertools
import json
import random

import codec_traces as ct
import gen
from common import TIER
from props_codec import gather

THOROUGH = TIER == 'thorough'
STR = ['hostname', 'email', 'idn-email', 'date', 'ipv4', 'ipv6', 'uri', 'uri-reference', 'iri', 'iri-reference', 'regex',
       'date-time', 'time', 'duration', 'idn-hostname', 'uri-template', 'json-pointer', 'relative-json-pointer']
BIN = ['b', 'x', 'X', 'eui', 'uuid', 'ipv4-addr', 'ipv6-addr']
INT = ['datetime-ms', 'i8', 'i16', 'i32', 'i64']
ARR = ['ipv4-net', 'ipv6-net', 'tag-uuid']
NUM = ['f16', 'f32', 'f64']
ALPHA = {'hostname': 'aZ0-._ é\n', 'email': 'aB1.@-"[] \n_+é', 'date': '0123456789-T ', 'ipv4': '0125.9/ ', 'ipv6': '0af:1.G%/', 'uri': 'a1:/?#[]@%2 é"<.+-',
         'regex': 'ab1()[]{}*+?|^$\\-,2', 'time': '0123456789:-+TZz. ', 'pointer': 'a0/~#-1', 'hex': '0aF9gG ', 'b64': 'AZaz09-_=+/ ', 'net': '012/.3 +-', 'net6': '0:/1a28+'}


def label(r):
    k = r.random()
    if k < .05:
        return 'a' * r.choice([62, 63, 64])
    return r.choice(['a', 'b1', 'x-y', 'Q', '0', 'a--b', '9z', 'Xn', 'com'])


def hostname(r):
    if r.random() < .03:        # around the limit of the total length
        n = r.choice([251, 252, 253, 254, 255])
        s = ('a' * 61 + '.') * 6
        return s[:n - 1] + 'a' + r.choice(['', '.'])
    return '.'.join(label(r) for _ in range(r.randint(1, 4))) + ('.' if r.random() < .1 else '')


def email(r):
    a = lambda: r.choice(['joe', 'A', 'x_y', "o'b", 'a+b', '1', '#', 'J-d', '{x}', 'a=b', '/', 'Q?', '~'])
    k = r.random()
    loc = '.'.join(a() for _ in range(r.randint(1, 3))) if k < .85 else r.choice(['"a b"', '"x"', '"a@b"', '"', '""', 'a"b"', '"a.b"'])
    k = r.random()
    dom = '.'.join(label(r) for _ in range(r.randint(1, 4))) if k < .9 else r.choice(['[1.2.3.4]', '[IPv6:::1]', '[1.2.3]', '[256.1.1.1]', '[a]', 'a.b]'])
    return loc + r.choice(['@'] * 12 + ['', '@@', ' @', ' at ']) + dom


def num(r, w):
    return ''.join(r.choice('0123456789') for _ in range(w))


def date(r):
    y = r.choice(['2000', '1900', '2024', '2023', '0001', '9999', '0000', '0400', '2100', num(r, 4)])
    return '%s-%s-%s' % (y, r.choice(['%02d' % r.randint(0, 13), '02', '02', '1']), r.choice(['%02d' % r.randint(26, 32), '%02d' % r.randint(0, 33), '29', '1']))


def time(r):
    t = '%s:%s:%s' % (r.choice(['%02d' % r.randint(0, 23), '23', '24', '00']), r.choice(['%02d' % r.randint(0, 59), '59', '60']), r.choice(['%02d' % r.randint(0, 59), '59', '60']))
    t += r.choice(['', '', '.' + num(r, 3), '.' + num(r, 3), '.' + num(r, r.randint(1, 2)), '.' + num(r, 3) + '000', '.', '.' + num(r, 7)])
    return t + r.choice(['Z', 'Z', '+00:00', '-00:00', 'z', '+05:30', '-11:00', '+23:59', '-23:59', '+24:00', '', '+0100', '+01'])


def datetime(r):
    return date(r) + r.choice('TTTt  _') + time(r)


def ipv4(r):
    return '.'.join(r.choice(['0', '1', '255', '256', '9', '99', '100', '01', '', '300', '199', '249']) if r.random() < .3 else str(r.randrange(256)) for _ in range(r.choice([4] * 8 + [3, 5])))


def ipv6(r):
    g = lambda: r.choice(['0', '0', '1', 'ffff', 'FFFF', 'a', '0001', '00', 'DB8', 'g', '12345', '']) if r.random() < .35 else '%x' % r.randrange(65536)
    k = r.random()
    n = r.choice([8] * 6 + [7, 9])
    gs = [g() for _ in range(n)]
    if k < .55:
        i = r.randrange(n)
        j = min(n, i + r.randint(0, 5))
        s = ':'.join(gs[:i]) + '::' + ':'.join(gs[j:])
    else:
        s = ':'.join(gs)
    if r.random() < .12:
        c = s.split(':')
        c[-2 if len(c) > 2 and r.random() < .8 else -1:] = [ipv4(r)]
        s = ':'.join(c)
    return s + r.choice([''] * 20 + ['%eth0', '%', '%1', '/64'])


def uri(r):
    seg = lambda: ''.join(r.choice(['a', 'b1', '%20', '%zz', '-', '~', '@', ':', '!', "'", ';', '+', 'é', ' ', '%', '<', '.', '..', '*', '$', '|', '^']) if r.random() < .4 else r.choice('abc') for _ in range(r.randint(0, 3)))
    host = r.choice([hostname, ipv4, lambda r: '[' + ipv6(r) + ']', lambda r: r.choice(['', 'a_b', '[v1.a]', '[v.a]', '[vG.a]', '[', 'a]', '[::1]x', 'a%41', 'x:y', '[v1F.:]'])])(r)[:40]
    auth = r.choice(['', '', 'u@', 'u:p@', 'a@b@', '%41@', '@', ':@']) + host + r.choice(['', '', ':80', ':', ':8a', ':0:1'])
    path = ''.join('/' + seg() for _ in range(r.randint(0, 3)))
    s = r.choice(['http:', 'a:', 'h2+x.y-z:', 'urn:', '', '', '1a:', 'a_b:', ':', 'HTTP:', 'é:', '+a:'])
    s += r.choice(['//' + auth + path, path, seg() + path, '', '//' + path])
    s += r.choice(['', '', '?' + seg(), '?', '?a/b?c', '?[']) + r.choice(['', '', '#' + seg(), '#', '#a#b', '#/?'])
    return s[:200]


def regex(r, d=0):
    out = ''
    for _ in range(r.randint(0, 3)):
        k = r.random()
        out += (r.choice(['a', 'b', '1', '.', r'\d', r'\.', r'\\', '^', '$', '-', '_', ',', ' ']) if k < .55 else
                '[' + r.choice(['', '^']) + r.choice(['a', 'a-z', '0-9', 'z-a', 'A-Za', '', 'ab-', '9-0', 'a-b-c', ']a', '^a', '-a', 'a_b']) + r.choice([']'] * 6 + ['']) if k < .75 else
                '(' + (regex(r, d + 1) if d < 3 else 'a') + r.choice([')'] * 8 + ['', '))']))
        if r.random() < .35:
            out += r.choice(['*', '+', '?', '{2}', '{1,3}', '{3,1}', '{2,}', '{0,0}', '**', '*?', '+?', '??', '+*', '{2}*', '{a', '{,2}', '*+'])
        if r.random() < .1:
            out += '|'
    return out


def pointer(r):
    return ''.join('/' + r.choice(['a', '0', 'b_c', '', '~0', 'x-y']) for _ in range(r.randint(0, 3)))


def uuid_text(r):
    h = '%032x' % r.getrandbits(128)
    if r.random() < .8:
        h = h[:12] + r.choice('12345') + h[13:16] + r.choice('89abAB') + h[17:]
    u = '-'.join([h[:8], h[8:12], h[12:16], h[16:20], h[20:]])
    return r.choice([u, u, u, u.upper(), u.replace('-', ''), '{' + u + '}', u + '\n', 'urn:uuid:' + u, u[:-1], u + '0'])


def uuid_bytes(r):
    b = bytearray(r.randbytes(16))
    if r.random() < .8:
        b[6] = b[6] & 15 | r.choice([0x10, 0x20, 0x30, 0x40, 0x50])
        b[8] = b[8] & 0x3f | 0x80
    return bytes(b)


TAGS = ['action', 'a-b', '', '-', 'x y', 'course-of-action', 'a', '--', 'é']
TEXT = {'hostname': hostname, 'idn-hostname': hostname, 'email': email, 'idn-email': email, 'date': date, 'time': time, 'date-time': datetime, 'ipv4': ipv4, 'ipv6': ipv6,
        'uri': uri, 'uri-reference': uri, 'iri': uri, 'iri-reference': uri, 'regex': regex, 'json-pointer': pointer, 'uri-template': uri,
        'relative-json-pointer': lambda r: r.choice(['0', '1', '12', '01', 'a', '']) + pointer(r),
        'duration': lambda r: r.choice(['P1D', 'PT1H', 'P3W', 'P', '1D', 'P12M', 'P1Y2M']),
        'datetime-ms': datetime, 'uuid': uuid_text, 'ipv4-addr': ipv4, 'ipv6-addr': ipv6, 'eui': lambda r: '%0*X' % (r.choice([12, 16]), r.getrandbits(48)),
        'x': lambda r: r.randbytes(r.randint(0, 4)).hex(), 'X': lambda r: r.randbytes(r.randint(0, 4)).hex().upper(),
        'b': lambda r: ''.join(r.choice('ABZaz09-_') for _ in range(r.randint(0, 7))),
        'ipv4-net': lambda r: ipv4(r) + r.choice(['', '/%d' % r.randint(0, 33), '/', '/-1', '/8 ', '/+8', '/08', '/a', '/8/8', '/32', '/0', '/1_0', '/٣']),
        'ipv6-net': lambda r: ipv6(r) + r.choice(['', '/%d' % r.randint(0, 130), '/', '/-1', '/64', '/128', '/0', '/+9', '/1_1']),
        'tag-uuid': lambda r: r.choice(TAGS) + r.choice(['-'] * 6 + ['', '_']) + uuid_text(r)}
ALPH = {'idn-hostname': 'hostname', 'idn-email': 'email', 'date-time': 'time', 'datetime-ms': 'time', 'duration': 'time', 'uri-reference': 'uri', 'iri': 'uri', 'iri-reference': 'uri',
        'uri-template': 'uri', 'json-pointer': 'pointer', 'relative-json-pointer': 'pointer', 'uuid': 'hex', 'x': 'hex', 'X': 'hex', 'eui': 'hex', 'b': 'b64',
        'ipv4-addr': 'ipv4', 'ipv6-addr': 'ipv6', 'ipv4-net': 'net', 'ipv6-net': 'net6', 'tag-uuid': 'hex'}


def alphabet(f):
    return ALPHA[ALPH.get(f, f)]


def text(r, f):
    k = r.random()
    if k < .12:         # anything over the alphabet of the format
        return ''.join(r.choice(alphabet(f)) for _ in range(r.randint(0, 6)))
    if k < .14:
        return r.choice(['', ' ', '\n', 'é', '中', '٣٣٣', 'null'])
    s = TEXT[f](r)
    for _ in range(r.choice([0, 0, 0, 0, 1, 1, 2])):
        i = r.randint(0, len(s))
        c = r.choice(alphabet(f))
        m = r.random()
        s = s[:i] + c + s[i:] if m < .4 else s[:i] + s[i + 1:] if m < .7 else s[:i] + c + s[i + 1:]
    if r.random() < .04:
        s = r.choice([s + '\n', ' ' + s, s + ' ', s.upper(), s.lower(), s + s])
    return s


LIM = [0, 1, 2**7, 2**8, 2**15, 2**16, 2**31, 2**32, 2**63, 2**64]


# addresses that embed others, and other assigned ranges
PREFIX6 = [bytes(10) + b'\xff\xff', bytes(12), bytes(8) + b'\xff\xff\0\0', b'\0\x64\xff\x9b' + bytes(8), b' \2' + bytes(10), b' \1' + bytes(10), b' \1\r\xb8' + bytes(8),
           b'\xfe\x80' + bytes(10), b'\xfc' + bytes(11), b'\xff\2' + bytes(10)]


def api(r, f):
    """A value of the Python side."""
    if f in STR:
        return text(r, f)
    if f == 'datetime-ms':
        return r.choice(gen.DATES + gen.BADDATES) if r.random() < .3 else r.randrange(-62135596800000 - 10**10, 253402300799999 + 10**10)
    if f in INT:
        return r.choice([-1, 1]) * r.choice(LIM) + r.randint(-2, 2) if r.random() < .9 else r.choice([True, 1.0, '1', None, 2.5])
    if f in NUM:
        return r.choice([0.5, -1.25, 3, 0, 100000.5, -2])
    ip6 = lambda: r.choice([bytes(16), r.randbytes(16), r.choice(PREFIX6) + r.choice([r.randbytes(4), bytes(4), b'\x7f\0\0\1', b'\0\0\0\1']), b''.join(r.choice([b'\0\0', b'\0\1', b'\xff\xff', r.randbytes(2), b'\0\0']) for _ in range(8))])
    if f in ARR:
        if f == 'tag-uuid':
            return [r.choice(TAGS), uuid_bytes(r)] if r.random() < .9 else r.choice([['a'], ['a', 'b'], [b'a', uuid_bytes(r)], 'x', ['a', b'abc'], None])
        six = f == 'ipv6-net'
        return [ip6() if six else r.randbytes(4), r.choice([0, 1, 8, 31, 32, 33, 64, 127, 128, 129, -1, True, None, '8', 1.0])] if r.random() < .9 else \
            r.choice([[b'abcd'], [b'abc', 8], ['1.2.3.4', 8], None, [b'abcd', 8, 1]])
    if r.random() < .06:
        return r.choice([None, 'abcd', 1, b'', [1]])
    if f == 'uuid':
        return uuid_bytes(r) if r.random() < .9 else r.randbytes(r.choice([15, 17]))
    if f == 'ipv6-addr':
        return ip6() if r.random() < .9 else r.randbytes(r.choice([4, 15, 17]))
    if f == 'ipv4-addr':
        return bytes(r.choice([0, 1, 9, 10, 99, 100, 255, r.randrange(256)]) for _ in range(4)) if r.random() < .9 else r.randbytes(r.choice([3, 5, 16]))
    if f == 'eui':
        return r.randbytes(r.choice([6, 8, 6, 8, 6, 8, 5, 7, 9, 0]))
    return r.randbytes(r.randint(0, 9))


def base(f):
    return 'String' if f in STR else 'Binary' if f in BIN else 'Integer' if f in INT else 'Array' if f in ARR else 'Number'


def fields(r, f):
    if f == 'tag-uuid':
        return [[1, 'tag', 'String', [], ''], [2, 'u', 'Binary', r.choice([[], ['/uuid']]), '']]
    if f in ARR:
        six = f == 'ipv6-net'
        return [[1, 'addr', 'Binary', r.choice([[], ['/ipv6-addr' if six else '/ipv4-addr']]), ''], [2, 'len', 'Integer', [], '']]
    return []


def schema(r, fs):
    types = []
    for i, f in enumerate(fs):
        b = base(f)
        o = ['/' + f]
        if b in ('String', 'Binary') and r.random() < .15:
            o.append(r.choice(['{2', '}20', '{1']))
        types.append(['T%d' % i, b, o, '', fields(r, f)])
        inl = ['T%d' % i, []] if b == 'Array' else [b, o]
        types.append(['F%d' % i, 'Record', [], '', [[1, 'a', inl[0], list(inl[1]), ''], [2, 'b', inl[0], list(inl[1]) + ['[0'], '']]])
        types.append(['A%d' % i, 'Array', [], '', [[1, 'a', inl[0], list(inl[1]), '']]])
        types.append(['L%d' % i, 'ArrayOf', ['*T%d' % i], ''])
        types.append(['U%d' % i, 'Choice', ['CO'], '', [[1, 'n', 'Boolean', [], ''], [2, 'a', 'T%d' % i, [], ''], [3, 's', 'String', ['}3'], '']]])
        if b not in ('Array', 'Number'):
            types.append(['M%d' % i, 'MapOf', ['+T%d' % i, '*T%d' % i], ''])
    return {'info': {'package': 'http://f', 'exports': []}, 'types': [t if len(t) > 4 else t + [[]] for t in types]}


def zeros(f):
    """Addresses with every pattern of zero words and every assigned prefix."""
    for m in range(256):
        for w in (b'\0\1', b'\xab\xcd', b'\xff\xff'):
            yield b''.join(w if m >> i & 1 else b'\0\0' for i in range(8))
    for p in PREFIX6:
        for e in (bytes(4), b'\0\0\0\1', b'\1\2\3\4', b'\xff\xff\xff\xff'):
            yield p + e


def session(jadn, r, n=60, fs=None, texts=None):
    fs = fs or r.sample(STR + BIN + INT + ARR + NUM, 2)
    ss = ct.Session(jadn, r)
    s = schema(r, fs)
    si = ss.schema(s, {})
    ss.new('c', si, *r.choice(ct.MODES))
    if texts is not None:
        for t in texts:
            if type(t) is not str:
                ss.rt('c', 'T0', t)
                continue
            ss.dec('c', 'T0', t)
            if fs[0] in STR:
                ss.rt('c', 'T0', t)
        return ss.trace()
    for _ in range(n):
        i = r.randrange(len(fs))
        f = fs[i]
        hash_ok = base(f) not in ('Array', 'Number')
        v = r.choice('TTTTTFALU' + 'M' * hash_ok)
        name = v + str(i)
        if r.random() < .5 and f not in NUM and f not in INT[1:]:
            w = text(r, f) if r.random() < .97 else r.choice([None, 1, True, 1.5, [], {}])
            wire = {'T': w, 'F': [w], 'A': [w], 'L': [w] if r.random() < .7 else [w, text(r, f)], 'U': w}
            if v == 'M':
                wire['M'] = {w if isinstance(w, str) else 'x': text(r, f)}
            if v == 'F' and not jadn_concise(ss):
                continue
            ss.dec('c', name, wire[v])
        else:
            a = api(r, f)
            val = {'T': a, 'F': {'a': a} if r.random() < .6 else {'a': a, 'b': api(r, f)}, 'A': [a], 'L': [a] if r.random() < .7 else [a, api(r, f)], 'U': a}
            if v == 'M':
                if isinstance(a, list):
                    continue
                val['M'] = {a: api(r, f)}
            ss.rt('c', name, val[v])
            ss.enc('c', name, val[v])
            if f in INT[1:] + NUM and v in 'TALU':
                ss.dec('c', name, val[v])
    return ss.trace()


def jadn_concise(ss):
    return not ss.state['c'][2]


def words(alpha, n):
    for k in range(n + 1):
        for w in itertools.product(alpha, repeat=k):
            yield ''.join(w)


EXHAUST = {'hostname': ('a0-.', 5), 'email': ('aB.@-', 5), 'ipv4': None, 'uri': ('a:/?#%[', 4), 'uri-reference': ('a:/@?#', 4), 'iri': ('é:a/', 4), 'regex': ('a(|)*[]', 4),
           'b': ('AQ=-', 5), 'x': ('aA0g', 4), 'X': ('aA0', 4), 'ipv6': ('1:.', 6), 'iri-reference': ('é:/', 4)}
BIGGER = {'hostname': ('aZ0-._', 5), 'email': ('aB.@-"', 6), 'uri': ('a1:/?#%[]@', 4), 'uri-reference': ('a:/@?#%', 5), 'iri': ('é:a/#', 5), 'regex': ('a(|)*[]^-', 5),
          'b': ('AQg=-', 6), 'x': ('aA0g', 6), 'X': ('aA0', 6), 'ipv6': ('1:.f', 8), 'iri-reference': ('é:/?', 5)}


def exhaustive(f):
    """Every text up to a length over a small alphabet; every date of some years; every prefix length."""
    if f == 'date':
        return ['%s-%02d-%02d' % (y, m, d) for y in ('1900', '2000', '2023', '2024', '0000', '0001', '9999') for m in range(0, 14) for d in (0, 1, 27, 28, 29, 30, 31, 32)]
    if f == 'ipv4-net':
        return ['10.1.2.3/%s' % n for n in list(range(0, 35)) + ['', '032', '00']] + ['1.2.3.4/8/8']
    if f == 'ipv6-addr':
        return list(zeros(f))
    if f == 'ipv6-net':
        return [[a, n] for a in zeros(f) for n in (0, 64, 128)][:: 1 if THOROUGH else 5] + ['1::2/%s' % n for n in list(range(0, 131)) + ['', '064']]
    if f == 'datetime-ms':
        return ['%s-%02d-%02dT%02d:%02d:%02d%s' % (y, m, d, h, mi, s, z) for y in (1900, 2000, 2023, 2024) for m in (1, 2, 3, 12, 13) for d in (1, 28, 29, 31) for h, mi, s in ((0, 0, 0), (23, 59, 59), (24, 0, 0), (12, 60, 0))
                for z in ('Z', '.500Z', '+14:00', '-23:59', '')]
    if f == 'ipv4':
        return ['%d.0.0.%d' % (a, b) for a in (0, 255, 256) for b in range(0, 260, 3)] + list(words('1.', 7)) + list(words('02.', 5))
    a, n = (BIGGER if THOROUGH else EXHAUST)[f]
    return list(words(a, n))


def C16(run, jadn):
    r = random.Random(run.prop)
    jobs = []
    for f in list(EXHAUST) + ['date', 'ipv4-net', 'ipv6-net', 'ipv6-addr', 'datetime-ms']:
        t = exhaustive(f)
        run.count('exhaustive_' + f, len(t))
        jobs += [(f, t[i:i + 150]) for i in range(0, len(t), 150)]
    traces = [session(jadn, r, fs=[f], texts=t) for f, t in jobs]
    clauses = ['enc-accept', 'enc-reject', 'enc-value', 'dec-accept', 'dec-reject', 'dec-value', 'rt-encode', 'rt-decode', 'rt-json', 'new-accept', 'mutated']
    run.traces('TraceCodec', traces, clauses, timeout=3000 if THOROUGH else 700)
    run.count('calls', sum(len(t['ev']) for t in traces))
    for _ in range(1 if not THOROUGH else 8):
        traces = gather(run, jadn, lambda rng: session(jadn, rng), 700 if not THOROUGH else 2500)
        run.count('calls', sum(len(t['ev']) for t in traces))
        for t in traces[:3]:
            run.sample({'types': t['s'][0]['types'][0], 'events': t['ev'][1:4]})
        run.traces('TraceCodec', traces, clauses, timeout=3000 if THOROUGH else 700)
        if run.viol:
            break
