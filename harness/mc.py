"""Replay into the library of the complete answer tables that TLC prints while checking MC_Codec."""
import json

from common import call, tag, tlc_start, tlc_wait, counts, TlcError

CFG = 'SPECIFICATION Spec\nVIEW View\nINVARIANT EmitUniverse Holds\n'


def untag(v):
    k = v[0]
    if k == 'null':
        return None
    if k in ('bool', 'str'):
        return v[1]
    if k == 'int':
        return int(v[1])
    if k == 'flt':
        return float(v[1])
    if k == 'bin':
        return bytes(v[1])
    if k == 'list':
        return [untag(x) for x in v[1]]
    return {untag(a): untag(b) for a, b in v[1]}


def canon(v):
    """A comparable form of a tagged value (dictionaries unordered)."""
    if v[0] == 'list':
        return ('list', tuple(canon(x) for x in v[1]))
    if v[0] == 'dict':
        return ('dict', tuple(sorted(((canon(a), canon(b)) for a, b in v[1]), key=repr)))
    if v[0] == 'bin':
        return ('bin', tuple(v[1]))
    return tuple(v)


def start(big=False, parts=7, heap='3g'):
    return [tlc_start('MC_Codec', CFG, env={'BIG': '1' if big else '0', 'PART': str(i), 'PARTS': str(parts)}, heap=heap) for i in range(parts)]


def collect(procs, timeout=800):
    """(universe, cases, states, transitions); raises if the model itself fails."""
    uni, cases, st, tr = None, [], 0, 0
    for p in procs:
        rc, txt = tlc_wait(p, timeout)
        if rc != 0:
            raise TlcError('MC_Codec: ' + '\n'.join(x for x in txt.split('\n') if 'CASE|' not in x and 'UNIVERSE|' not in x)[-3000:])
        g, d = counts(txt)
        st, tr = st + d, tr + g
        for ln in txt.split('\n'):
            if ln.startswith('"'):
                ln = json.loads(ln)
            if ln.startswith('CASE|'):
                cases.append(json.loads(ln[5:]))
            elif ln.startswith('UNIVERSE|'):
                uni = json.loads(ln[9:])
    return uni, cases, st, tr


def replay(jadn, uni, cases, ops, seed=0):
    """Differences between the tables and the library. ops: subset of enc, dec, rt."""
    out, n = [], 0
    for case in cases:
        s, m = case['s'], case['m']
        s = {'info': s['info'], 'types': [[list(x) if isinstance(x, list) else x for x in t] for t in s['types']]}
        r = call(jadn.codec.Codec, s, verbose_rec=m['rec'], verbose_str=m['str'])
        if r[0] != 'ok':
            out.append(('new-accept', s, m, None, 'created', r))
            continue
        c = r[1]

        def diff(op, tab, f):
            nonlocal n
            ok = {i: w for i, w in tab['ok']}
            skip = set(tab['any'])
            for i, v in enumerate(uni, 1):
                if i in skip:
                    continue
                n += 1
                r = call(f, 'T', untag(v))
                if i not in ok:
                    if r[0] == 'ok':
                        out.append((op + '-reject', s, m, v, 'refused', tag(r[1])))
                elif r[0] != 'ok':
                    out.append((op + '-accept', s, m, v, ok[i], r))
                elif canon(tag(r[1])) != canon(ok[i]):
                    out.append((op + '-value', s, m, v, ok[i], tag(r[1])))
        if 'enc' in ops:
            diff('enc', case['enc'], c.encode)
        if 'dec' in ops:
            diff('dec', case['dec'], c.decode)
        if 'rt' in ops and not any(o[0] == 'C' for o in s['types'][-1][2]):
            for i, w in case['enc']['ok']:
                n += 1
                v = untag(uni[i - 1])
                e = call(c.encode, 'T', v)
                if e[0] != 'ok':
                    out.append(('rt-encode', s, m, uni[i - 1], w, e))
                    continue
                want = canon(strip(uni[i - 1]))
                d = call(c.decode, 'T', e[1])
                if d[0] != 'ok' or canon(tag(d[1])) != want:
                    out.append(('rt-decode', s, m, uni[i - 1], w, d))
                j = call(lambda: c.decode('T', json.loads(json.dumps(e[1]))))
                if j[0] != 'ok' or canon(tag(j[1])) != want:
                    out.append(('rt-json', s, m, uni[i - 1], w, j))
        if len(out) > 50:
            break
    return out, n


def strip(v):
    if v[0] == 'list':
        l = [strip(x) for x in v[1]]
        while l and l[-1] == ['null']:
            l.pop()
        return ['list', l]
    if v[0] == 'dict':
        return ['dict', [[a, strip(b)] for a, b in v[1]]]
    return v
