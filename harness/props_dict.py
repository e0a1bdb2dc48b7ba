"""C20: dictionary helpers and definition objects.  The harness only calls and records; JDict decides."""
import copy
import random

from common import SEED, answer, call, tag
from props_form import THOROUGH, report, rounds, rows, schema
from props_transform import rest

COLON = ['x:a', 'ls:b', 'oc:name', ':c', 'a:b:c', 'x::y', 'u:0', 'x:']
LEAVES = [0, 1, -5, True, False, None, 'x', '', 'a.b', 1.5, 'é', '0', b'\x01']
SEPS = ['.', '.', '.', '/', '_', '|', ' ', '%', '..', '--', '. ', '->', '0', 'ab']
KEYS = ['a', 'b', 'c', 'name', '0', '1', '2', '10', '01', 'x-y', 'é', ' ', 'A', '-1', 'a/b', 'a.b', 'k_1', '*', '%s', '.b', 'b.', '-', 'x-', '>', 'ba', 'b0']


def tree(rng, depth, sep, more=()):
    x = rng.random()
    if depth == 0 or x < .2:
        return rng.choice(LEAVES)
    n = rng.choice([1, 1, 2, 2, 3, 4, 11 if rng.random() < .1 else 2])
    if x < .5:
        return [tree(rng, depth - 1, sep, more) for _ in range(n)]
    if rng.random() < .15:
        return {str(i): tree(rng, depth - 1, sep, more) for i in range(n + rng.choice([0, 0, 1]))}
    ks = [k for k in [*KEYS, *more] if sep not in k]
    return {k: tree(rng, depth - 1, sep, more) for k in rng.sample(ks, min(n, len(ks)))}


def flat(rng, sep):
    """A flat dictionary; whether its paths fit together is decided by the specification."""
    ks = [k for k in [*KEYS[:9], *KEYS[-8:]] if sep not in k]
    d = {}
    for _ in range(rng.randint(0, 7)):
        p = sep.join('' if rng.random() < .03 else rng.choice(ks) for _ in range(rng.choice([1, 2, 2, 3, 3, 4])))
        if rng.random() < .7 and any((p + sep).startswith(q + sep) or (q + sep).startswith(p + sep) for q in d):
            continue
        d[p] = rng.choice(LEAVES[:-1]) if rng.random() < .85 else [1, {'a': 2}]
    return d


def dicts(rng, ut):
    sep = rng.choice(SEPS)
    kw = {} if sep == '.' and rng.random() < .7 else {'sep': sep}
    x = rng.random()
    if x < .3:
        v = tree(rng, rng.randint(1, 5), sep, rng.choice([(), COLON, 3 * COLON[:5]]))
        path = rng.choice(['', '', '', 'p', 'p' + sep + 'q'])
        fc = rng.choice([None, None, None, {}, {'a': 1}, {'zz': 'x', 'p': 2}])
        args, k2 = [v], dict(kw)
        if path or fc is not None:
            args.append(path)
        if fc is not None:
            if rng.random() < .5:
                args.append(fc)
            else:
                k2['fc'] = fc
        before = copy.deepcopy((v, fc))
        r = call(ut.flatten, *args, **k2)
        return {'e': 'flatten', 'v': tag(before[0]), 'path': path, 'fc': tag(fc or {}), 'sep': sep, 'r': answer(r), 'mut': (v, fc) != before}
    if x < .5:
        v = flat(rng, sep)
        before = copy.deepcopy(v)
        r = call(ut.fluff, v, **kw)
        a = answer(r)
        return {'e': 'fluff', 'v': tag(before), 'sep': sep, 'r': a, 'mut': v != before}
    if x < .6:
        v = tree(rng, rng.randint(1, 4), sep)
        t = tag(v)
        return {'e': 'dlist', 'v': t, 'r': answer(call(ut.dlist, v))}
    if x < .9:
        v = tree(rng, rng.randint(1, 5), sep)
        return {'e': 'round', 'v': tag(v), 'sep': sep, 'r': answer(call(lambda: ut.dlist(ut.fluff(ut.flatten(v, **kw), **kw))))}
    vs = [flat(rng, sep) for _ in range(rng.randint(0, 4))]
    before = copy.deepcopy(vs)
    r = call(ut.dmerge, *vs)
    return {'e': 'merge', 'vs': [tag(v) for v in before], 'r': answer(r), 'mut': vs != before}


CLASSES = {'type': ('TypeDefinition', ['TypeName', 'BaseType', 'TypeOptions', 'TypeDesc', 'Fields'], 'sslsl'), 'field': ('GenFieldDefinition', ['FieldID', 'FieldName', 'FieldType', 'FieldOptions', 'FieldDesc'], 'issls'),
           'item': ('EnumFieldDefinition', ['ItemID', 'ItemValue', 'ItemDesc'], 'iss')}


def column(rng, kind):
    return rng.choice([0, 1, 77, -1]) if kind == 'i' else rng.choice(['', 'A', 'some text']) if kind == 's' else rng.choice([[], ['[0'], ['=', 'X']])


def history(rng, df):
    """Several definition objects and what happens to them."""
    objs, ev = [], []

    def columns(o, cls):
        return [tag(getattr(o, n)) for n in CLASSES[cls][1]]
    for step in range(rng.randint(3, 14)):
        if not objs or rng.random() < .25:
            cls = rng.choice(list(CLASSES))
            name, cols, kinds = CLASSES[cls]
            args = [column(rng, k) for k in kinds[:rng.randint(0, len(kinds))]]
            e = {'e': 'new', 'cls': cls, 'args': [tag(a) for a in args]}
            use = copy.deepcopy(args)
            o = getattr(df, name)(*use) if rng.random() < .6 else getattr(df, name)(**dict(zip(cols, use)))
            objs.append((o, cls))
            e['len'] = len(o)
        else:
            i = rng.randrange(len(objs))
            o, cls = objs[i]
            _, cols, kinds = CLASSES[cls]
            c = rng.randrange(len(cols))
            k = rng.choice([['i', c], ['i', c], ['i', c - len(cols)], ['n', cols[c]]])
            op = rng.choice(['get', 'get', 'set', 'del', 'add', 'attr'])
            e = {'e': op, 'o': i + 1, 'k': k}
            if op == 'get':
                x = rng.random()
                if x < .3:
                    a, b = (rng.choice(['', '0', '1', '2', '3', '5', '9', '-1', '-2', '-9']) for _ in 'ab')
                    e['k'] = ['s', a, b]
                    key = slice(int(a) if a else None, int(b) if b else None)
                else:
                    if x < .4:
                        e['k'] = rng.choice([['i', len(cols)], ['i', -len(cols) - 1], ['n', 'Nothing'], ['n', '']])
                    key = e['k'][1]
                e['r'] = answer(call(lambda: copy.deepcopy(o[key])))
            elif op == 'attr':
                e.update(e='get', k=['n', cols[c]], r=answer(call(getattr, o, cols[c])))
            elif op == 'set':
                v = column(rng, kinds[c])
                e['v'] = tag(v)
                call(o.__setitem__, k[1], v)
            elif op == 'del':
                call(o.__delitem__, k[1])
            else:
                lists = [j for j, x in enumerate(kinds) if x == 'l' and type(o[j]) is list]
                if not lists:
                    continue
                c = rng.choice(lists)
                e['k'] = ['n', cols[c]]
                e['v'] = tag('added')
                o[c].append('added')
        e['all'] = [columns(o, c) for o, c in objs]
        ev.append(e)
    return ev


def objects(rng, ut):
    _, s = schema(rng)
    before = copy.deepcopy(s)

    def work():
        o = ut.object_type_schema(s)
        cols = [[t.TypeName, t.BaseType, list(t.TypeOptions), t.TypeDesc,
                 [[f.ItemID, f.ItemValue, f.ItemDesc] if t.BaseType == 'Enumerated' else [f.FieldID, f.FieldName, f.FieldType, list(f.FieldOptions), f.FieldDesc] for f in t.Fields]] for t in o['types']]
        back = ut.list_type_schema(o)
        if rng.random() < .5:       # the answers are the caller's own
            o['types'][0].TypeOptions.append('=')
            for t in o['types']:
                for f in t.Fields:
                    f[1] = 'changed'
        return cols, back
    r = call(work)
    e = {'e': 'objects', 's': rows(before), 'r': r[0], 'mut': s != before}
    if r[0] == 'ok':
        e.update(cols=rows({'types': r[1][0]}) or [], back=rows(r[1][1]) or [], rest=[rest(before), rest(r[1][1])])
    return e


def C20(run, jadn):
    ut, df = jadn.utils, jadn.definitions

    def make(rng):
        return {'ev': [dicts(rng, ut) for _ in range(12)] + [objects(rng, ut)]}
    rounds(run, make, 900, 6000, 'TraceDict')
    if not run.viol:
        # in this process one history after another, so that what one leaves behind is seen by the next
        r = random.Random('%s/%s' % (run.prop, SEED))
        report(run, [{'ev': history(r, df)} for _ in range(1500 if not THOROUGH else 10000)], 'TraceDict')
