"""Regular expressions as syntax trees (the form the specification reads), their text, and matching strings."""
LOW = 'abcdefghijklmnopqrstuvwxyz'
UP = LOW.upper()
DIG = '0123456789'


def cls(text, chars):
    return ['cls', chars, text]


def text(r):
    k = r[0]
    if k == 'chr':
        return ('\\' + r[1]) if r[1] in '.[](){}*+?^$|\\/' and r[1] != '/' else r[1]
    if k in ('cls', 'ncls'):
        return r[2]
    if k == 'any':
        return '.'
    if k == 'bol':
        return '^'
    if k == 'eol':
        return '$'
    if k == 'seq':
        return ''.join(text(x) for x in r[1])
    if k == 'alt':
        return '(' + '|'.join(text(x) for x in r[1]) + ')'
    if k == 'rep':
        inner = text(r[1])
        if r[1][0] == 'seq':
            inner = '(' + inner + ')'
        lo, hi = r[2], r[3]
        q = {(0, -1): '*', (1, -1): '+', (0, 1): '?'}.get((lo, hi))
        if q is None:
            q = '{%d}' % lo if lo == hi else ('{%d,}' % lo if hi < 0 else '{%d,%d}' % (lo, hi))
        return inner + q
    raise ValueError(r)


def ast(r):
    """Tree without the display text of character classes."""
    k = r[0]
    if k in ('cls', 'ncls'):
        return [k, r[1]]
    if k in ('seq', 'alt'):
        return [k, [ast(x) for x in r[1]]]
    if k == 'rep':
        return [k, ast(r[1]), r[2], r[3]]
    return list(r)


def sample(r, rng):
    k = r[0]
    if k == 'chr':
        return r[1]
    if k == 'cls':
        return rng.choice(r[1])
    if k == 'ncls':
        return rng.choice([c for c in 'abcXYZ019 _-/' if c not in r[1]])
    if k == 'any':
        return rng.choice('aZ0 _')
    if k in ('bol', 'eol'):
        return ''
    if k == 'seq':
        return ''.join(sample(x, rng) for x in r[1])
    if k == 'alt':
        return sample(rng.choice(r[1]), rng)
    if k == 'rep':
        hi = r[3] if r[3] >= 0 else r[2] + 3
        return ''.join(sample(r[1], rng) for _ in range(rng.randint(r[2], hi)))


def seq(*x):
    return ['seq', list(x)]


def c(x):
    return ['chr', x]


def lit(s):
    return seq(*[c(x) for x in s])


BOL, EOL = ['bol'], ['eol']
lo = cls('[a-z]', LOW)
up = cls('[A-Z]', UP)
dg = cls('[0-9]', DIG)
dd = cls('\\d', DIG)


def rep(r, a, b=-1):
    return ['rep', r, a, b]


ANCHORED = [
    seq(BOL, rep(lo, 1), EOL),
    seq(BOL, up, rep(cls('[a-z0-9]', LOW + DIG), 0, 4), EOL),
    seq(BOL, rep(dg, 2, 3), EOL),
    seq(BOL, rep(dd, 3, 3), c('-'), rep(dd, 2, 2), EOL),
    seq(BOL, ['alt', [lit('red'), lit('green'), lit('b')]], EOL),
    seq(BOL, rep(seq(lo, c('.')), 1, 2), dg, EOL),
    seq(BOL, c('x'), rep(['any'], 0), EOL),
    seq(BOL, rep(['ncls', '/ ', '[^/ ]'], 1), c('/'), rep(dg, 1), EOL),
    seq(BOL, rep(up, 2, 2)),
    seq(BOL, rep(c('a'), 0, 1), lit('bc')),
]
LOOSE = [
    lit('ab'),
    rep(dg, 1),
    seq(rep(lo, 2, 4), EOL),
    seq(c('v'), dg, c('.'), dg),
]

TYPENAME = seq(BOL, cls('[$A-Z]', '$' + UP), rep(cls('[-$A-Za-z0-9]', '-$' + UP + LOW + DIG), 0, 63), EOL)
FIELDNAME = seq(BOL, cls('[$a-z]', '$' + LOW), rep(cls('[_$A-Za-z0-9]', '_$' + UP + LOW + DIG), 0, 63), EOL)
NSID = seq(BOL, rep(['rep', seq(cls('[A-Za-z]', UP + LOW), rep(cls('[A-Za-z0-9]', UP + LOW + DIG), 0, 7)), 1, 1], 0, 1), EOL)
# texts used by the library for the built-in patterns
NAMED = {'$TypeName': ('^[$A-Z][-$A-Za-z0-9]{0,63}$', TYPENAME),
         '$FieldName': ('^[$a-z][_$A-Za-z0-9]{0,63}$', FIELDNAME),
         '$NSID': ('^([A-Za-z][A-Za-z0-9]{0,7})?$', NSID)}
CONFIGURED = [
    seq(BOL, up, rep(lo, 0, 3), EOL),
    seq(BOL, rep(cls('[A-Za-z_]', UP + LOW + '_'), 1, 4), EOL),
    seq(BOL, lo, rep(dg, 0, 1), EOL),
    seq(BOL, ['alt', [lit('red'), lit('G')]], EOL),
    seq(BOL, rep(cls('[a-z]', LOW), 0, 3), EOL),
]
