"""C07, C12, C14, C15: transformations of schemas."""
import copy
import random

import codec_traces as ct
import family
import gen
import pats
from common import SEED, TIER, answer, call, parallel, tag

THOROUGH = TIER == 'thorough'
EXT = ['AnonymousType', 'Multiplicity', 'DerivedEnum', 'MapOfEnum', 'Link']


def many(run, make, n, workers=7):
    """n traces made in parallel."""
    def job(k):
        rng = random.Random('%s/%s/%s/%d' % (run.prop, SEED, TIER, k))
        return [make(rng) for _ in range(n // 28 + 1)]
    return [t for p in parallel(job, range(28), workers) for t in p]


def rows(s):
    return [[t[0], t[1], t[2], t[3], [list(f) for f in (t[4] if len(t) > 4 else [])]] for t in s['types']]


def rest(s):
    return tag({k: v for k, v in s.items() if k != 'types'})


def linked_many(s):
    """A link with multiplicity can only be unfolded together with Link."""
    return any('L' in f[3] and any(o[0] == ']' and o != ']1' for o in f[3]) for t in s['types'] if t[1] in ('Record', 'Map', 'Array', 'Choice') for f in t[4])


def shaped(u):
    """Is this a schema in list form at all?"""
    try:
        return all(isinstance(t[0], str) and isinstance(t[1], str) and all(isinstance(o, str) and o for o in t[2]) and isinstance(t[3], str) and
                   all(len(f) in (3, 5) and isinstance(f[0], int) and isinstance(f[1], str) and (len(f) == 3 or isinstance(f[2], str) and all(isinstance(o, str) and o for o in f[3])) for f in t[4])
                   for t in u['types'])
    except (TypeError, IndexError, KeyError):
        return False


def imported(rng, g, s):
    """A structure with fields of imported types, and enumerations derived from it; names of the types without values."""
    n, p = g.newname(), g.newname()
    fs = []
    for i, f in enumerate(rng.sample(gen.FNAMES, rng.randint(1, 4))):
        t = rng.choice(['ns:Type', 'x9:T$a', rng.choice(s['types'])[0], 'String'])
        o = rng.choice([[], ['[0'], ['<'] if t not in gen.PRIMS else [], ['<', '[0'] if t not in gen.PRIMS else [], [']3'], ['[0', ']0']])
        fs.append([i + 1, f, t, list(o), g.desc()])
    new = [[n, rng.choice(['Record', 'Map', 'Array'] + (['Choice'] if not any(f[3] for f in fs) else [])), [], g.desc(), fs],
           [p, 'Enumerated', [rng.choice('>>#') + n], g.desc(), []]]
    if rng.random() < .4:
        new.append([g.newname(), 'ArrayOf', ['*' + rng.choice('>>#') + n], g.desc(), []])
    out = {n}
    if rng.random() < .3:
        new.append([g.newname(), 'MapOf', ['+' + rng.choice([p, '#' + n]), '*' + rng.choice(['ns:Type', 'String'])], g.desc(), []])
        out.add(new[-1][0])
    for t in new:
        s['types'].insert(rng.randint(0, len(s['types'])), t)
    return out


def unfolded(unfold, s, x, patterns):
    """The event of unfolding the extensions x in s, and what s has become (None: nothing to go on with)."""
    before = copy.deepcopy(s)
    r = call(unfold, s, *([set(x)] if x is not None else []))
    e = {'e': 'unfold', 's': ct.spec_schema(before, patterns), 'x': x if x is not None else EXT, 'r': [r[0]], 'mut': s != before}
    if r[0] != 'ok':
        return e, None
    u = r[1]
    if not shaped(u):
        e['r'] = ['err']
        return e, None
    a = call(unfold, copy.deepcopy(u), *([set(x)] if x is not None else []))
    e.update(u=rows(u), rest=[rest(before), rest(u)], again=a[0] == 'ok' and a[1] == u, ts=tag(before), tu=tag(u))
    return e, u


def C07_family(run, unfold):
    """Every schema of the family, unfolded and compared on every value of the universe."""
    fam = family.schemas(THOROUGH)

    def one(k):
        s = fam[k]
        ev = [{'e': 'orig', 's': ct.spec_schema(s, {})}]
        for x in [None] + ([['AnonymousType', 'Multiplicity', 'Link'], ['DerivedEnum'], ['MapOfEnum', 'DerivedEnum']] if THOROUGH else []):
            e, u = unfolded(unfold, s, x, {})
            ev.append(e)
            if u is not None and u['types'] != s['types']:
                ev += [{'e': 'sameall', 'ty': 'T', 'm': dict(zip(('rec', 'str'), m))} for m in (ct.MODES if THOROUGH or k % 4 == 0 else [ct.MODES[k % 4]])]
        return {'ev': ev}
    traces = parallel(one, range(len(fam)))
    run.count('family_schemas', len(fam))
    run.count('family_unfolded', sum(e['e'] == 'sameall' for t in traces for e in t['ev']))
    run.traces('TraceUnfold', traces, timeout=2400 if THOROUGH else 700)


def C07(run, jadn):
    unfold = jadn.transform.unfold_extensions
    C07_family(run, unfold)
    if run.viol:
        return

    def make(rng):
        g = gen.Schemas(rng, desc=rng.random() < .5)
        s0 = g.schema(rng.randint(3, 8))
        cf = s0.get('info', {}).get('config', {})
        if '$MaxElements' in cf and rng.random() < .7:      # limits that leave the schema itself well-formed
            cf['$MaxElements'] += 10
        if '$MaxString' in cf and rng.random() < .7:
            cf['$MaxString'] += 60
        foreign = set()
        if rng.random() < .25 and len(g.names) > 3:
            foreign = imported(rng, g, s0)
        trees = {pats.text(p): p for p in pats.ANCHORED + pats.LOOSE if pats.text(p) in g.pats}
        base = ct.spec_schema(s0, g.pats)
        vals = gen.Values(rng, copy.deepcopy(s0), trees)
        ev = [{'e': 'orig', 's': base}]
        s = s0
        for step in range(rng.choice([1, 1, 2, 3])):
            x = rng.choice([EXT, EXT, None, rng.sample(EXT, rng.randint(1, 4))]) if step == 0 else rng.sample(EXT, rng.randint(1, 5))
            if x is not None and linked_many(s) and 'Link' not in x and ('Multiplicity' in x or 'AnonymousType' in x):
                x = x + ['Link']
            e, u = unfolded(unfold, s, x, g.pats)
            ev.append(e)
            if u is None:
                break
            s = u
            for _ in range(24):
                n = rng.choice([t[0] for t in s0['types'] if t[0] not in foreign])
                m = dict(zip(('rec', 'str'), rng.choice(ct.MODES)))
                try:
                    v = vals.value(n, faulty=rng.random() < .5)
                except RecursionError:
                    continue
                d = 'enc'
                if rng.random() < .4:
                    w = call(jadn.codec.Codec(s0, m['rec'], m['str']).encode, n, v) if rng.random() < .3 else ['err']
                    if w[0] == 'ok':
                        v, d = w[1], 'dec'
                        if rng.random() < .6:
                            v = gen.mutate(rng, v)
                ev.append({'e': 'same', 'ty': n, 'd': d, 'm': m, 'v': tag(v)})
        return {'ev': ev}
    for _ in range(1 if not THOROUGH else 6):
        traces = many(run, make, 700 if not THOROUGH else 2500)
        run.count('unfoldings', sum(e['e'] == 'unfold' for t in traces for e in t['ev']))
        run.count('values_compared', sum(e['e'] == 'same' for t in traces for e in t['ev']))
        run.sample({'unfold': traces[0]['ev'][1]['x'], 'types': traces[0]['ev'][0]['s']['types'][:3]})
        run.traces('TraceUnfold', traces, timeout=2400 if THOROUGH else 700)
        if run.viol:
            break
