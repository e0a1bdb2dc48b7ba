"""The finite family of schemas that TLC writes out from MC_Family."""
import json

from common import TlcError, tlc_start, tlc_wait


def emitted(module, view='', big=False):
    rc, txt = tlc_wait(tlc_start(module, 'SPECIFICATION Spec\nINVARIANT Emit\n' + view, env={'BIG': '1' if big else '0'}), 600)
    if rc != 0:
        raise TlcError(module + ': ' + txt[-2000:])
    out = {}
    for ln in txt.split('\n'):
        if ln.startswith('"'):
            k, _, x = json.loads(ln).partition('|')
            out.setdefault(k, []).append(json.loads(x))
    if not out:
        raise TlcError(module + ': nothing')
    return out


def schemas(big=False):
    """Every schema of the family; columns as lists."""
    return [{'info': s['info'], 'types': [[list(x) if isinstance(x, (list, tuple)) else x for x in t] for t in s['types']]} for s in emitted('MC_Family', '', big)['SCHEMA']]


def syntax(rng, descs, containers=1):
    """Schemas that together hold every type and field definition of MC_Syntax, each field in so many kinds of structures."""
    d = emitted('MC_Syntax', 'VIEW View\n')
    leaves = [['R', 'Record', [], '', [[1, 'a', 'String', ['K'], ''], [2, 'b', 'Integer', ['[0'], '']]], ['S', 'String', ['{1', '}8'], '', []], ['$S', 'Integer', [], '', []],
              ['E', 'Enumerated', [], '', [[1, 'x', ''], [2, 'y', 'why']]], ['C', 'Choice', [], '', [[1, 'x', 'R', [], ''], [2, 'y', 'S', [], '']]]]
    n = 0

    def desc():
        nonlocal n
        n += 1
        return descs[n % len(descs)] if n % 3 else ''

    def opts(o):
        o = list(o)
        if rng.random() < .3:
            rng.shuffle(o)
        return o
    types, rows = [], sorted(d['TYPE'], key=str)
    for i, (b, o) in enumerate(rows):
        der = any(x[0] in '#>' for x in o)
        fs = []
        if b == 'Enumerated' and not der:
            fs = [[5, 'red', desc()], [1, 'green', desc()]]
        elif b in ('Record', 'Array', 'Map', 'Choice'):
            j = [(1, 2), (7, 3)][b in ('Map', 'Choice')]
            fs = [[j[0], 'a', 'String', opts(['[0']) if b != 'Choice' else [], desc()], [j[1], 'b', 'S', [], desc()]]
        types.append([f'T{i}', b, opts(o), desc(), fs])
    kinds = [('Record', []), ('Map', []), ('Map', ['=']), ('Array', []), ('Choice', []), ('Choice', ['=']), ('Choice', ['CO'])]
    fields = sorted(d['FIELD'], key=str)
    for c in range(containers):
        rng.shuffle(fields)
        for i in range(0, len(fields), 40):
            b, o = kinds[(i // 40 + c) % len(kinds)]
            fs = [[1, 'kind', 'E', [], desc()]] + [[k + 2, f'f{k}', t, opts(x), desc()] for k, (t, x) in enumerate(fields[i:i + 40])]
            if b in ('Map', 'Choice') and rng.random() < .5:
                rng.shuffle(fs)
            types.append([f'{b}{c}x{i}', b, list(o), desc(), fs])
    out = [[]]
    for t in types:
        if len(out[-1]) > 70 or sum(len(x[4]) for x in out[-1]) > 250:
            out.append([])
        out[-1].append(t)
    return [{'info': {'package': 'http://example.com/s', 'title': 'Syntax'}, 'types': leaves + ts} for ts in out]
