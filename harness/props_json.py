"""C13: translation to JSON Schema.  The harness translates and records; JJson evaluates the document and the codec."""
import copy
import json
import random
import re
import warnings

import family
import gen
import pats
from codec_traces import spec_schema
from common import TIER, call, parallel, tag
from props_form import DESCS, rows, schema as rich_schema
from props_transform import many

with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    from re import _parser as sre

THOROUGH = TIER == 'thorough'
CATEGORY = {'CATEGORY_DIGIT': pats.DIG, 'CATEGORY_WORD': pats.LOW + pats.UP + pats.DIG + '_', 'CATEGORY_SPACE': ' \t\n\r\f\v'}


def tree(text):
    """A regular expression as the specification reads it, or None."""
    def item(op, av):
        op = str(op)
        if op == 'LITERAL':
            return ['chr', chr(av)]
        if op == 'NOT_LITERAL':
            return ['ncls', chr(av)]
        if op == 'ANY':
            return ['any']
        if op == 'AT':
            return {'AT_BEGINNING': ['bol'], 'AT_END': ['eol']}[str(av)]
        if op == 'IN':
            neg, out = False, ''
            for k, x in av:
                k = str(k)
                if k == 'NEGATE':
                    neg = True
                elif k == 'LITERAL':
                    out += chr(x)
                elif k == 'RANGE':
                    if x[1] - x[0] > 600:
                        raise ValueError(text)
                    out += ''.join(map(chr, range(x[0], x[1] + 1)))
                else:
                    out += CATEGORY[str(x)]
            return ['ncls' if neg else 'cls', out]
        if op in ('MAX_REPEAT', 'MIN_REPEAT'):
            lo, hi, sub = av
            return ['rep', seq(sub), lo, -1 if hi == sre.MAXREPEAT else hi]
        if op == 'SUBPATTERN':
            return seq(av[3])
        if op == 'BRANCH':
            return ['alt', [seq(x) for x in av[1]]]
        raise KeyError(op)

    def seq(p):
        return ['seq', [item(*x) for x in p]]
    try:
        return seq(sre.parse(text))
    except (KeyError, ValueError, re.error):
        return None


def texts(doc):
    """Texts used as patterns."""
    if isinstance(doc, dict):
        for k, v in doc.items():
            if k == 'pattern' and isinstance(v, str):
                yield v
            if k == 'patternProperties' and isinstance(v, dict):
                yield from v
            yield from texts(v)
    elif isinstance(doc, list):
        for v in doc:
            yield from texts(v)


def untagged(d):
    """A document tagged for the specification; numbers keep their kind."""
    return tag(d)


def translate(jadn, s, rec, style, imports):
    from jadn.translate import json_schema_dumps
    before = copy.deepcopy(s)
    r = call(lambda: json.loads(json_schema_dumps(s, verbose=rec, enum_style=style, import_style=imports)))
    if r[0] != 'ok':
        return {'r': 'err', 'why': r[1], 'rec': rec, 'doc': ['dict', []], 'pats': []}, s != before
    ps = {x: tree(x) for x in texts(r[1])}
    return {'r': 'ok', 'rec': rec, 'style': style, 'doc': untagged(r[1]), 'pats': [[k, v] for k, v in ps.items() if v is not None]}, s != before


def describe(rng, s):
    for t in s['types']:
        if rng.random() < .4:
            t[3] = rng.choice(DESCS)
        for f in t[4]:
            if rng.random() < .4:
                f[-1] = rng.choice(DESCS)
    i = s.setdefault('info', {'package': 'http://example.com/p'})
    for k in ('title', 'version', 'description', 'copyright', 'license'):
        if rng.random() < .3:
            i[k] = rng.choice(DESCS)
    i['exports'] = rng.sample([t[0] for t in s['types']], min(len(s['types']), rng.choice([0, 1, 1, 1, 2, 3])))
    if rng.random() < .1:
        i['exports'].append('Elsewhere')


def trace(jadn, s, pt, variants):
    """The translations of s; the trace still without messages."""
    i = s.get('info', {})
    tr = {'s': spec_schema(s, pt), 'rows': rows(s), 'info': tag(i), 'exports': list(i.get('exports', [])),
          'maxstr': i.get('config', {}).get('$MaxString', 255), 'docs': [], 'ev': []}
    for n, (rec, style, imports) in enumerate(variants, 1):
        d, mut = translate(jadn, s, rec, style, imports)
        tr['docs'].append(d)
        tr['ev'].append({'e': 'translate', 'd': n, 'mut': mut})
    return tr


FEATS = [dict(), dict(array=False, binary=False, formats=False, loose=False, tagid=False), dict(tagid=False, array=False, binary=False, loose=False)]


def as_json(v):
    try:
        return json.loads(json.dumps(v))
    except (TypeError, ValueError):
        return None


def messages(jadn, rng, s, pt, tr, n):
    trees = {pats.text(p): p for p in pats.ANCHORED + pats.LOOSE if pats.text(p) in pt}
    vals = gen.Values(rng, copy.deepcopy(s), trees)
    co = {rec: call(lambda: jadn.codec.Codec(copy.deepcopy(s), verbose_rec=rec, verbose_str=True)) for rec in (True, False)}
    names = [t[0] for t in s['types']]
    byname = {t[0]: t for t in s['types']}
    ex = [x for x in tr['exports'] if x in names]

    def one(name, rec):
        v = vals.value(name, faulty=rng.random() < .4)
        w = call(co[rec][1].encode, name, v)
        w = as_json(w[1] if w[0] == 'ok' else v)
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2]) if rec else rng.choice([0, 0, 1])):
            w = as_json(gen.mutate(rng, w))
        return w
    if any(c[0] != 'ok' for c in co.values()):
        return
    for _ in range(n):
        d = rng.randint(1, len(tr['docs']))
        if tr['docs'][d - 1]['r'] != 'ok':
            continue
        rec = tr['docs'][d - 1]['rec']
        try:
            if rng.random() < .2:
                ty = ''
                if len(ex) == 1:
                    w = one(ex[0], rec)
                else:
                    w = {x.lower().replace('-', '_'): one(x, rec) for x in rng.sample(ex, rng.randint(0, len(ex)))}
                    if rng.random() < .2:
                        w = as_json(gen.mutate(rng, w))
            else:
                ty = rng.choice(names)
                if byname[ty][1] in ('Boolean',) and rng.random() < .6:
                    ty = rng.choice(names)
                w = one(ty, rec)
        except RecursionError:
            continue
        tr['ev'].append({'e': 'message', 'd': d, 'ty': ty, 'v': tag(w)})


def complete(jadn, s, k):
    """The translations of a schema of the family, to be compared on every value of the universe."""
    styles = ('enum', 'const', 'regex')
    tr = trace(jadn, s, {}, [(True, styles[k % 3], 'any'), (False, styles[k // 3 % 3], 'any')])
    tr['ev'] += [{'e': 'universe', 'd': d, 'ty': 'T'} for d in (1, 2)]
    if k == 0:
        tr['ev'] += [{'e': 'universe', 'd': d, 'ty': t[0]} for d in (1, 2) for t in s['types'][:-1]]
    return tr


def C13(run, jadn):
    fam = family.schemas(THOROUGH)
    traces = parallel(lambda k: complete(jadn, fam[k], k), range(len(fam)))
    run.count('family_schemas', len(fam))
    run.traces('TraceJson', traces, timeout=3000 if THOROUGH else 700)
    if run.viol:
        return

    def make(rng):
        if rng.random() < .15:
            _, s = rich_schema(rng)
            return trace(jadn, s, {}, [(rng.random() < .7, st, rng.choice(['any', 'ref'])) for st in ('enum', 'const', 'regex')])
        g = gen.Schemas(rng, **rng.choice(FEATS))
        s = g.schema()
        for t in s['types']:
            t += [[], '', []][len(t) - 2:]
        describe(rng, s)
        vs = [(True, st, 'any') for st in ('enum', 'const', 'regex')] + [(False, 'enum', 'any')]
        tr = trace(jadn, s, g.pats, rng.sample(vs, 2))
        messages(jadn, rng, s, g.pats, tr, 40)
        return tr
    for _ in range(1 if not THOROUGH else 6):
        traces = many(run, make, 1600 if not THOROUGH else 5000)
        run.count('translations', sum(len(t['docs']) for t in traces))
        run.count('messages', sum(e['e'] == 'message' for t in traces for e in t['ev']))
        run.sample({'types': traces[0]['s']['types'][:4], 'events': traces[0]['ev'][-2:]})
        run.traces('TraceJson', traces, timeout=2400 if THOROUGH else 700)
        if run.viol:
            break
