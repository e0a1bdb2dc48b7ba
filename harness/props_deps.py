"""C11, C12: references between definitions and packages.  JDeps decides."""
import contextlib
import copy
import io
import itertools
import json
import os
import random

from common import TIER, call, tag
from props_form import rows, scratchfile, schema as rich_schema
from props_transform import many

THOROUGH = TIER == 'thorough'
PRIM = ['String', 'Integer', 'Binary', 'Boolean', 'Number']


def listing(r):
    return ['ok', [str(x) for x in r[1]]] if r[0] == 'ok' else ['err']


def loosen(rng, s):
    """References to definitions that do not exist, or live elsewhere."""
    s = copy.deepcopy(s)
    names = [t[0] for t in s['types']] + ['Nowhere', 'Gone', 'ns:T', 'n2:T', 'ns:Nowhere']
    for t in s['types']:
        for ol in [t[2]] + ([f[3] for f in t[4]] if t[1] != 'Enumerated' else []):
            for i, o in enumerate(ol):
                if o[0] in '*+#>' and rng.random() < .2:
                    ol[i] = o[0] + rng.choice(['', '', '#', '>'] if o[0] in '*+' else ['']) + rng.choice(names)
        if t[1] != 'Enumerated':
            for f in t[4]:
                if f[2] not in ('Enumerated', 'ArrayOf', 'MapOf') and rng.random() < .15:
                    f[2] = rng.choice(names)
    if rng.random() < .3 and len(s['types']) > 1:
        del s['types'][rng.randrange(len(s['types']))]
    i = s.get('info')
    if rng.random() < .6:
        i = i if i is not None else s.setdefault('info', {'package': 'urn:a'})
        for k in ('exports', 'roots'):
            i.pop(k, None)
            if rng.random() < .6:
                i[k] = rng.sample(names[:-3], rng.randint(0, min(3, len(names) - 3)))
    return s


def deps_event(jadn, s):
    before = copy.deepcopy(s)
    d = call(jadn.build_deps, s)
    a = call(jadn.analyze, s)
    i = before.get('info', {})
    return {'e': 'deps', 's': rows(before), 'roots': list(i.get('roots', i.get('exports', []))), 'mut': s != before,
            'd': ['ok', [[k, list(v)] for k, v in d[1].items()]] if d[0] == 'ok' else ['err'],
            'und': listing(['ok', a[1]['undefined']]) if a[0] == 'ok' else ['err'],
            'unr': listing(['ok', a[1]['unreferenced']]) if a[0] == 'ok' else ['err']}


def topo_event(jadn, deps, roots):
    before = copy.deepcopy(deps)
    r = listing(call(jadn.topo_sort, deps, list(roots)))
    return {'e': 'topo', 'deps': [[k, list(v)] for k, v in before.items()], 'roots': list(roots), 'out': r, 'mut': deps != before or list(deps) != list(before)}


def C11(run, jadn):
    def make(rng):
        ev = []
        for _ in range(4):
            _, s = rich_schema(rng)
            ev.append(deps_event(jadn, s))
            for _ in range(2):
                s = loosen(rng, s)
                ev.append(deps_event(jadn, s))
            names = [t[0] for t in s['types']] + ['Nowhere', 'ns:T']
            d = call(jadn.build_deps, s)
            if d[0] == 'ok':
                ev.append(topo_event(jadn, d[1], rng.sample(names, rng.randint(0, 3))))
        n = rng.randint(1, 9)
        nodes = rng.sample('ABCDEFGHIJKL', n + rng.randint(0, 2))
        for _ in range(4):
            deps = {x: [rng.choice(nodes) for _ in range(rng.choice([0, 1, 1, 2, 3]))] for x in nodes[:n]}
            ev.append(topo_event(jadn, deps, [rng.choice(nodes) for _ in range(rng.randint(0, 3))]))
        return {'ev': ev}

    # every graph of three definitions (with one more that is not defined), every list of roots
    lists = [list(p) for k in range(4) for p in itertools.permutations('ABC', k)]
    pick = random.Random('topo/%s' % run.prop)
    graphs = list(itertools.product(lists, repeat=3))
    small = []
    for g in graphs:
        deps = dict(zip('ABC', g))
        roots = [p for k in range(4) for p in itertools.permutations('ABCX'[:3 + (k == 1)], k)]
        small.append({'ev': [topo_event(jadn, deps, r) for r in (roots if THOROUGH else pick.sample(roots, 5))]})
    run.count('graphs', len(small))
    run.traces('TraceDeps', small, timeout=2400 if THOROUGH else 600)
    for _ in range(1 if not THOROUGH else 6):
        traces = many(run, make, 700 if not THOROUGH else 3000)
        run.count('analyses', sum(e['e'] == 'deps' for t in traces for e in t['ev']))
        run.count('orders', sum(e['e'] == 'topo' for t in traces for e in t['ev']))
        run.sample(traces[0]['ev'][0])
        run.traces('TraceDeps', traces, timeout=2400 if THOROUGH else 600)
        if run.viol:
            break


def short(rng, types):
    """The same definitions with some of the empty columns at their ends left out."""
    def cut(x, n):
        x = list(x)
        while len(x) > n and x[-1] in ('', []) and rng.random() < .8:
            x.pop()
        return x
    return [cut(t, 2) for t in types]


def same(a, b):
    """Equal but for empty columns at the end of definitions."""
    def rest(s):
        return {k: v for k, v in s.items() if k != 'types'}

    def full(t):
        t = t + [[], '', []][len(t) - 2:]
        return t[:4] + [[f if t[1] == 'Enumerated' else f + [[], ''][len(f) - 3:] for f in t[4]]]
    return rest(a) == rest(b) and [full(t) for t in a['types']] == [full(t) for t in b['types']]


class Packages:
    """A few packages that refer to each other."""
    def __init__(self, rng):
        self.r = r = rng
        self.n = r.choice([1, 2, 2, 3, 3, 4, 5])
        self.uri = ['http://p%d.example/v1' % i for i in range(self.n)] + ['urn:missing']
        ids = r.sample(['a', 'b', 'nsx', 'q1', 'Z', 'long1234', 'c'], self.n + 1)
        alt = r.sample(['d', 'e', 'x9', 'two', 'W', 'v'], self.n + 1)
        self.pkgs = []
        names = ['T', 'U', 'V', 'Long-Name', 'A$b', 'En', 'Rec']
        own = [r.sample(names, r.randint(1, 6)) for _ in range(self.n)] + [['T', 'U']]
        for i in range(self.n):
            known = [j for j in range(self.n + 1) if j != i and r.random() < .6 and (j < self.n or r.random() < .3)]
            ns = []
            for j in known:
                ns.append([ids[j] if r.random() < .8 else alt[j], self.uri[j]])
                if r.random() < .15:
                    ns.append([(alt if ns[-1][0] == ids[j] else ids)[j], self.uri[j]])
            r.shuffle(ns)
            self.pkgs.append((i, ns, own))
        self.files = [self.package(*p) for p in self.pkgs]

    def package(self, i, ns, own):
        r = self.r
        here = own[i]
        structured, kinds = [], {}
        for n in here:
            kinds[n] = r.choice(['Record', 'Map', 'Array', 'Choice', 'Enumerated', 'ArrayOf', 'MapOf', 'String', 'Record', 'Enum'])

        def ref():
            x = r.random()
            if ns and x < .45:
                k, u = r.choice(ns)
                j = self.uri.index(u)
                return k + ':' + r.choice(own[j] if r.random() < .985 else ['Nope'])
            if x < .9:
                return r.choice(here)
            return r.choice(PRIM) if r.random() < .96 else r.choice(['Gone', 'zz:T'])

        def opts():
            return r.choice(['', '', '', '#', '>']) + ref()

        def vt():
            x = opts()
            return x if x[1:] not in PRIM else x[1:]

        def dref():
            for _ in range(9):
                x = ref()
                if x not in PRIM:
                    return x
            return here[0]
        types = []
        for n in here:
            b, o, fs = kinds[n], [], []
            if b == 'Enum':
                b, o = 'Enumerated', [r.choice('#>') + dref()]
            elif b == 'Enumerated':
                fs = [[k + 1, 'i%d' % k, r.choice(['', 'an item'])] for k in range(r.randint(1, 3))]
            elif b in ('ArrayOf', 'MapOf'):
                o = ['*' + vt()] + (['+' + vt()] if b == 'MapOf' else []) + r.choice([[], ['{1'], ['}4']])
                r.shuffle(o)
            elif b != 'String':
                for k in range(r.randint(1, 3)):
                    x = r.random()
                    t, fo = ref(), []
                    if x < .15:
                        t, fo = 'ArrayOf', ['*' + vt()]
                    elif x < .3:
                        t, fo = 'MapOf', ['+' + vt(), '*' + vt()]
                    elif x < .4:
                        t, fo = 'Enumerated', [r.choice('#>') + dref()]
                    if b != 'Choice' and r.random() < .3:
                        fo.append('[0')
                    fs.append([k + 1, 'f%d' % k, t, fo, r.choice(['', 'a field'])])
            types.append([n, b, o, r.choice(['', 'a type']), fs])
        s = {'info': {'package': self.uri[i]}, 'types': types}
        if ns:
            s['info']['namespaces'] = dict(ns) if len(dict(ns)) == len(ns) and r.random() < .6 else ns
        if r.random() < .4:
            s['info']['title'] = 'Package %d' % i
        if r.random() < .3:
            s['info']['config'] = {'$MaxString': 100}
        k = r.choice(['exports', 'exports', 'exports', 'roots', 'both', 'none'])
        ex = r.sample(here, r.randint(1, len(here))) + (['Nope'] if r.random() < .03 else [])
        if k != 'none':
            s['info']['exports' if k == 'both' else k] = ex
        if k == 'both':
            s['info']['roots'] = r.sample(here, r.randint(1, len(here)))
        return s


def C12(run, jadn):
    resolve = jadn.transform.resolve_imports

    def make(rng):
        p = Packages(rng)
        ev = []
        for root in range(min(2, p.n)):
            plain = tuple({i for f in p.files for i in dict(f['info'].get('namespaces', {})) if rng.random() < .1}) if rng.random() < .3 else ()
            s = copy.deepcopy(p.files[root])
            before = copy.deepcopy(s)
            if rng.random() < .3:       # empty columns at the end left out
                s['types'] = short(rng, s['types'])
            given = copy.deepcopy(s)
            order = [f for k, f in enumerate(p.files) if k != root or rng.random() < .5]
            rng.shuffle(order)

            def work(d):
                for k, f in enumerate(order):
                    if rng.random() < .2 and all(ord(c) < 128 for c in json.dumps(f)):
                        jadn.convert.jidl_dump(f, os.path.join(d, 'p%d.jidl' % k))
                    else:
                        with open(os.path.join(d, '%s%d.jadn' % (rng.choice('xyzab'), k)), 'w') as fp:
                            fp.write(jadn.dumps(f) if rng.random() < .5 else json.dumps(f))
                if rng.random() < .3:
                    with open(os.path.join(d, 'README.txt'), 'w') as fp:
                        fp.write('no schema')
                with contextlib.redirect_stdout(io.StringIO()):
                    return resolve(s, d, *([plain] if plain else []))
            r = call(scratchfile, work)
            u = rows(r[1]) if r[0] == 'ok' else None
            files = [before] + [f for k, f in enumerate(p.files) if k != root]
            i = before['info']
            e = {'e': 'merge', 'ps': [{'pkg': f['info']['package'], 'ns': [list(x) for x in dict(f['info'].get('namespaces', {})).items()], 'rows': rows(f)} for f in files],
                 'exports': list(i.get('roots', i.get('exports', []))), 'plain': list(plain), 'r': 'ok' if u is not None else 'err', 'mut': not same(s, given),
                 'i': tag({k: v for k, v in i.items() if k != 'namespaces'})}
            if u is not None:
                e.update(u=u, ui=tag(r[1].get('info')))
            else:
                e['why'] = str(r[1])[:100]
            ev.append(e)
        return {'ev': ev}
    for _ in range(1 if not THOROUGH else 6):
        traces = many(run, make, 1400 if not THOROUGH else 9000)
        run.count('merges', sum(len(t['ev']) for t in traces))
        run.count('packages', sum(len(e['ps']) for t in traces for e in t['ev']))
        run.count('refused', sum(e['r'] == 'err' for t in traces for e in t['ev']))
        run.sample(traces[0]['ev'][0])
        run.traces('TraceDeps', traces, timeout=2400 if THOROUGH else 600)
        if run.viol:
            break
