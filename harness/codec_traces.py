"""Recording of codec sessions: random schemas, codecs in random modes, calls with random values."""
import copy
import json

import gen
import pats
from common import tag, call, answer

MODES = [(False, False), (True, False), (False, True), (True, True)]


def spec_schema(s, pt):
    """Schema in the form the specification reads."""
    s = copy.deepcopy(s)
    out = {'types': [[t[0], t[1], t[2], t[3], [list(f) for f in (t[4] if len(t) > 4 else [])]] for t in s['types']],
           'pats': [[k, v] for k, v in pt.items()]}
    if 'info' in s:
        out['info'] = s['info']
    for text, ast in pats.NAMED.values():
        out['pats'].append([text, pats.ast(ast)])
    return out


class Session:
    """One recorded trace."""

    def __init__(self, jadn, rng):
        self.j, self.r = jadn, rng
        self.s, self.ev, self.codecs = [], [], {}
        self.zygote, self.memo, self.state = None, {}, {}
        self.raw, self.kept = [], []

    def schema(self, s, pt):
        self.s.append(spec_schema(s, pt))
        self.raw.append(s)
        self.kept.append(copy.deepcopy(s))
        return len(self.s)

    def new(self, c, si, rec, string, cfg=None):
        s = self.raw[si - 1]
        before = copy.deepcopy(s)
        conf = self.raw[cfg - 1] if cfg else None
        r = call(lambda: self.j.codec.Codec(s, verbose_rec=rec, verbose_str=string, **({'config': conf} if cfg else {})))
        self.ev.append({'e': 'new', 'c': c, 's': si, 'cfg': cfg or si, 'rec': rec, 'str': string, 'r': [r[0]], 'mut': s != before})
        if r[0] == 'ok':
            self.codecs[c] = r[1]
            self.state[c] = [si, cfg, rec, string]
        return r[0] == 'ok'

    def mode(self, c, rec, string):
        r = call(self.codecs[c].set_mode, rec, string)
        self.ev.append({'e': 'mode', 'c': c, 'rec': rec, 'str': string, 'r': [r[0]]})
        self.state[c][2:] = [rec, string]

    def coded(self, op, c, ty, v):
        before = tag(v)
        extra = {}
        if self.zygote:
            si, cfg, rec, string = self.state[c]
            key = json.dumps([si, cfg, rec, string, op, ty, before])
            if key not in self.memo:
                self.memo[key] = self.zygote.ask(self.kept[si - 1], self.kept[cfg - 1] if cfg else None, rec, string, op, ty, v)
            extra = {'f': self.memo[key], 'fm': {'rec': rec, 'str': string}}
        r = call(getattr(self.codecs[c], 'encode' if op == 'enc' else 'decode'), ty, v)
        self.ev.append({'e': op, 'c': c, 'ty': ty, 'v': before, 'r': answer(r), 'mut': tag(v) != before, **extra})
        return r

    def enc(self, c, ty, v):
        return self.coded('enc', c, ty, v)

    def dec(self, c, ty, v):
        return self.coded('dec', c, ty, v)

    def rt(self, c, ty, v):
        co = self.codecs[c]
        t = tag(v)
        w = call(co.encode, ty, v)
        d = j = ['err']
        if w[0] == 'ok':
            d = call(co.decode, ty, copy.deepcopy(w[1]))
            j = call(lambda: co.decode(ty, json.loads(json.dumps(w[1]))))
        self.ev.append({'e': 'rt', 'c': c, 'ty': ty, 'v': t, 'w': answer(w), 'd': answer(d), 'j': answer(j)})
        return w

    def look(self):
        self.ev.append({'e': 'look', 'mut': any(a != b for a, b in zip(self.raw, self.kept))})

    def scribble(self, *objs):
        for o in objs:
            scribble(o)
        self.ev.append({'e': 'scribble'})

    def trace(self):
        return {'s': self.s, 'ev': self.ev}


def scribble(o):
    if isinstance(o, list):
        for x in o:
            scribble(x)
        o.append('scribble')
        if len(o) > 2:
            o[0] = None
    elif isinstance(o, dict):
        for x in o.values():
            scribble(x)
        o['scribble'] = 1


def other_config(ss, rng):
    """Limits from elsewhere, which replace the schema's own."""
    given = {k: rng.randint(*x) for k, x in (('$MaxString', (2, 8)), ('$MaxElements', (3, 6)), ('$MaxBinary', (2, 8))) if rng.random() < .6}
    return ss.schema(rng.choice([{'info': {'package': 'http://x', 'config': given}, 'types': []}, {'info': {'package': 'http://x', 'config': given}, 'types': []},
                                 {'info': {'package': 'http://x'}, 'types': []}, {'types': []}]), {})


def history_session(jadn, rng, n=40, zygote=None):
    """Several codecs over several schemas, calls repeated after other calls, failures and mode changes; the client also
    overwrites the answers and the schema objects it holds."""
    ss = Session(jadn, rng)
    ss.zygote = zygote
    infos = []
    for _ in range(rng.choice([1, 2, 2])):
        g = gen.Schemas(rng, cfgpat=True)
        s = g.schema(rng.randint(3, 7))
        si = ss.schema(s, g.pats)
        trees = g.trees
        infos.append((si, s, gen.Values(rng, copy.deepcopy(s), trees)))
    live, calls = [], []
    c = 0
    confs = [None, None, other_config(ss, rng)] if rng.random() < .3 else [None]

    def newcodec():
        nonlocal c
        c += 1
        si, s, vals = rng.choice(infos)
        if ss.new(c, si, *rng.choice(MODES), rng.choice(confs)):
            live.append((c, ss.kept[si - 1], vals))
    for _ in range(rng.choice([2, 3])):
        newcodec()
    scribbled = False
    for k in range(n):
        if not live:
            break
        x = rng.random()
        try:
            if x < .12:
                ss.mode(rng.choice(live)[0], *rng.choice(MODES))
            elif x < .15 and not scribbled and len(live) < 5:
                newcodec()
            elif x < .55 and calls:
                op, cc, n_, v = rng.choice(calls)
                r = ss.coded(op, cc, n_, copy.deepcopy(v))
                if r[0] == 'ok' and rng.random() < .2:
                    ss.scribble(r[1])
            elif x < .57 and k > n // 2 and not scribbled:
                ss.look()
                ss.scribble(*ss.raw)
                scribbled = True
            else:
                cc, s, vals = rng.choice(live)
                nm = rng.choice([t[0] for t in s['types']])
                v = vals.value(nm, faulty=rng.random() < .4)
                op = rng.choice(['enc', 'enc', 'dec'])
                if op == 'dec':
                    w = call(ss.codecs[cc].encode, nm, v)
                    v = w[1] if w[0] == 'ok' else v
                    if rng.random() < .3:
                        v = gen.mutate(rng, v)
                calls.append((op, cc, nm, copy.deepcopy(v)))
                ss.coded(op, cc, nm, v)
        except RecursionError:
            continue
    if not scribbled:
        ss.look()
    return ss.trace()


def random_session(jadn, rng, ops, nvals=30, feat=None, types=None):
    """A trace over one random schema: codecs in every mode, `ops` = weights of enc/dec/rt/mode."""
    g = gen.Schemas(rng, cfgpat=True, **(feat or {}))
    s = g.schema(types)
    ss = Session(jadn, rng)
    pt = g.pats
    si = ss.schema(s, pt)
    trees = g.trees
    cfg = None
    if rng.random() < .12:
        cfg = other_config(ss, rng)
    modes = rng.sample(MODES, 4)
    live = []
    for c, (a, b) in enumerate(modes[:rng.choice([2, 3, 4])], 1):
        if ss.new(c, si, a, b, cfg):
            live.append(c)
    if not live:
        return ss.trace()
    vals = gen.Values(rng, s, trees, ss.raw[cfg - 1] if cfg else None)
    names = [t[0] for t in s['types']]
    # composite types more often
    weight = [3 if t[1] in ('Record', 'Map', 'Choice', 'Array', 'ArrayOf', 'MapOf') else 1 for t in s['types']]
    for _ in range(nvals):
        op = rng.choices(list(ops), list(ops.values()))[0]
        c = rng.choice(live)
        n = rng.choices(names, weight)[0]
        if rng.random() < .03:
            n = rng.choice(['String', 'Integer', 'Boolean', 'Number', 'Binary'])
        try:
            if op == 'mode':
                ss.mode(c, *rng.choice(MODES))
                continue
            if op == 'enc':
                v = vals.value(n, faulty=rng.random() < .55)
                if rng.random() < .01:
                    n = rng.choice(['Nope', 'Record', 'ArrayOf', ''])
                ss.enc(c, n, v)
            elif op == 'rt':
                ss.rt(c, n, vals.value(n))
            elif op == 'dec':
                v = vals.value(n)
                w = call(ss.codecs[c].encode, n, v)
                if w[0] != 'ok':
                    w = ['ok', v]
                w = w[1]
                if rng.random() < .6:
                    for _ in range(rng.choice([1, 1, 2])):
                        w = gen.mutate(rng, w)
                elif rng.random() < .3:
                    w = json.loads(json.dumps(w, default=repr))
                ss.dec(c, n, w)
        except RecursionError:
            continue
    return ss.trace()
