"""C08-C10, C14, C15, C19: forms of schemas.  The harness only runs the library and records; JForm decides."""
import copy
import io
import json
import os
import random
import re
import shutil
import tempfile

import check_gen as cg
import family
import gen
import pats
from common import SEED, TIER, answer, call, tag
from props_transform import many
from resolve import CORE

THOROUGH = TIER == 'thorough'
DESCS = ['A thing', 'One, two: three', 'see [x](y)', 'Uses {a} and "b"', 'x // y', "it's", 'v1.2 (beta)', 'naïve', 'a; b', 'w', 'a  b', 'says "hi" // there "you"',
         'key: value', 'a::b', 'x:: y', '= 5', '{', '}', '[1..*]', 'optional', '<b>bold</b> & more', '&amp;', '1..2', '"', '"unbalanced', '#', '| a | b |', '// twice'[3:], 'http://x.y/z',
         'unique', '/x', '* star', 'Ünï çödé 中', 'ends with backslash \\', "'quoted'", '%s {0}', '$x', 'a\\b', '~', '<!-- c -->', 'é', '-', '0', 'pattern="x"', '.', 'x\u00a0y', 'Record', '[0', '...',
         '/* comment */', 'has /* inside', 'a */ b', 'a /* b = c', '= a /* b', 'trailing /', '/x/*', '`code` *em*', '[3]', '[3] x', 'x optional', 'K = Record', '1 a String', 'T = String // x', ':: x', 'package: "x"', '\\n', 'ends..', '!', '::', 'several words ' * 20 + 'end', 'x' * 255, 'y' * 256 + ' z', 'long ' * 408 + 'tail']
WILD = ['abcdef      ', '   ', ' x', 'x' * 9 + ' y', 'tab\t\t\tx', 'two\nlines', 'a..', '..........', '\n\n\n\n', 'e\u0301' * 4, 'ends here.', 'abcdefghijkl', 'x ' * 8, '\u00a0' * 6, '12345', '1234 ']
LABELS = ['two words', 'x-1', 'UP', '10', 'on/off', 'é', '"q"', 'a "b', 'x=y', '1..2', 'a,b', 'é中', '<i>', '&lt;', "o'k", 'a [1]', 'optional', '(x)', '{y}', '#', 'x  y', '/', 'a|b', '-', 'end // of'[:3], 'pattern="a"', 'Enum[x]', '%', '\\', 'A = B', 'x.', '.x']
PATS = ['^a{2,3}$', '^[^ ]+ /x$', 'a // b', '^(unique| set)$', '.*', '{}', '\\{x\\}', '^\\d+\\.\\d*$', '(a|b)', '[a-z]{1,}', 'x unordered', ' /b', '}', '{', '= x', '1..2', 'a\\\\', '^<a>&amp;$', "it's", '[/]', '\\S+ extend', '}x{', 'é+', ' ', '^[$#@]$', '%', '[0]', ']', ' = ', '^a = b$', ' [0..1]', ' optional', 'Key(', 'Link(x)', ', ', '::', '1..*', ' unique', '::\\.', '()', ')', '(', '={', ' /a/ ', '<br>', '|', 'a|b', '^\\|$', '[*]', '#', '/f', 'TagId[x]']
LIMITS = ['-1.5', '0.0', '0.25', '-100.0', '1', '3.50', '-0.125', '12345.678', '100', '-7', '0.001']


def decorate(rng, s):
    """Unusual but legal texts: descriptions, enumeration labels, patterns, limits, spellings of default options."""
    s = copy.deepcopy(s)
    for t in s['types']:
        if rng.random() < .5:
            t[3] = rng.choice(DESCS)
        for f in t[4]:
            if rng.random() < .5:
                f[-1] = rng.choice(DESCS)
        if t[1] == 'Enumerated' and rng.random() < .4 and not any(t[0] in o for u in s['types'] for o in u[2]):
            lab = [x for x in rng.sample(LABELS, len(t[4]))]
            if all(f[1] not in [g[1] for u in s['types'] if u[1] == 'Choice' for g in u[4]] for f in t[4]):
                for f, x in zip(t[4], lab):
                    f[1] = x
        if t[1] == 'String' and not t[2] and rng.random() < .5:
            t[2].append('%' + rng.choice(PATS))
        if t[1] == 'Number' and rng.random() < .4:
            a, b = sorted(rng.sample(LIMITS, 2), key=float)
            t[2][:] = [o for o in t[2] if o[0] not in 'yz'] + ['y' + a, 'z' + b][:rng.randint(1, 2)]
        if t[1] not in ('Integer', 'Number', 'Boolean', 'Enumerated', 'Choice') and rng.random() < .1 and not any(o[0] in '{%' for o in t[2]):
            t[2].append('{0')
        if t[1] in ('Record', 'Map', 'MapOf') and 'o' not in t[2] and rng.random() < .15:
            t[2].append('o')
        if t[1] in ('Record', 'Map', 'Array', 'Choice'):
            for f in t[4]:
                if t[1] != 'Choice' and not any(o[0] in '[]' for o in f[3]) and rng.random() < .08:
                    f[3].append(rng.choice(['[1', ']1']))
                if f[2] == 'String' and not f[3] and rng.random() < .3:
                    f[3].append('%' + rng.choice(PATS))
                if f[2] == 'Number' and rng.random() < .3 and not any(o[0] in 'yz' for o in f[3]):
                    f[3].append(rng.choice('yz') + rng.choice(LIMITS))
                rng.shuffle(f[3])
        rng.shuffle(t[2])
    return s


def schema(rng):
    rich = cg.Rich(rng)
    s = rich.valid()
    for t in s['types']:        # as check() completes them
        t += [[], '', []][len(t) - 2:]
    if rng.random() < .8:
        s = decorate(rng, s)
    i = s.get('info')
    if i is not None and rng.random() < .5:
        for k in ('title', 'description', 'comment', 'copyright', 'license', 'version'):
            if rng.random() < .4:
                i[k] = rng.choice(DESCS + ['two\nlines', ' padded ', 'tab\there', '\u2028', 'a\x85b'])
    return rich, s


def rows(s):
    """Rows with ids as text, or None if this is no schema in list form."""
    try:
        out = []
        for t in s['types']:
            t = list(t) + [[], '', []][len(t) - 2:]
            n, b, o, d, fs = t
            if not all(type(x) is str for x in (n, b, d, *o)):
                return None
            g = []
            for f in fs:
                f = list(f)
                if type(f[0]) is not int or not all(type(x) is str for x in f[1:3]) or len(f) not in (3, 5):
                    return None
                if len(f) == 5 and not (type(f[4]) is str and all(type(x) is str and x for x in f[3])):
                    return None
                g.append([str(f[0]), *f[1:3]] + ([list(f[3]), f[4]] if len(f) == 5 else []))
            out.append([n, b, list(o), d, g])
        return out
    except (TypeError, KeyError, ValueError, IndexError):
        return None


def info(s):
    return tag(s.get('info')) if isinstance(s, dict) else ['odd', 'x', 'y']


def cycle(op, s, work, exact=False, **extra):
    """work(schema) -> the schema read back.  The specification looks only at well-formed schemas: see whole()."""
    before = copy.deepcopy(s)
    r = call(work, s)
    u = rows(r[1]) if r[0] == 'ok' else None
    e = {'e': 'cycle', 'op': op, 'k': extra.pop('k', 1), 's': rows(before), 'i': info(before), 'r': 'ok' if u is not None else 'err', 'x': exact, 'mut': s != before}
    if u is not None:
        e.update(u=u, ui=info(r[1]))
    else:
        e['why'] = str(r[1])[:100]
    return {**e, **extra}


def relay(rng, text):
    """The same JIDL text in another layout."""
    out, enum = [], False
    for ln in text.split('\n'):
        if m := re.match(r'\S+ = (\w+)', ln):
            enum = m[1] == 'Enumerated'
        elif not enum and rng.random() < .7:       # other ways to write a multiplicity
            cell, sep, desc = ln.partition(' //')
            if '"' not in ln:
                cell = re.sub(r' \[(\d+)\.\.\1\]$', r' [\1]', cell.rstrip())
                if re.match(r'\s*\d+ ', cell):
                    cell = re.sub(r' optional$', ' [0..1]', cell)
                ln = cell + '   ' + sep + desc if sep else cell
        x = rng.random()
        if x < .1:
            out.append(rng.choice(['', '   ', '// a comment', '   // another: comment', '/* old style */']))
        if re.match(r'\s*\d+ ', ln) and rng.random() < .5:
            ln = rng.choice(['', ' ', '        ']) + ln.lstrip()
        if rng.random() < .2:
            ln += rng.choice([' ', '   '])
        out.append(ln)
    return '\n'.join(out)


FIELDNAME = pats.seq(pats.BOL, pats.cls('[a-z]', pats.LOW), pats.rep(pats.cls('[a-z0-9]', pats.LOW + pats.DIG), 0, 63), pats.EOL)


def texts():
    """Every label, pattern and limit with every description."""
    n, types = 0, []
    for i, lab in enumerate(LABELS):
        for o in ([], ['=']):
            types.append([f'E{i}{"I" * len(o)}', 'Enumerated', o, DESCS[i], [[k, f'{lab} {k}' if k else lab, d] for k, d in enumerate(DESCS)]])
        types.append([f'H{i}', 'Enumerated', [], '', [[k, f'{k} {lab}' if k else lab, d] for k, d in enumerate(DESCS)]])
    for i, p in enumerate(PATS):
        for b, o in (('Record', []), ('Map', ['=']), ('Array', [])):
            fs = [[k + 1, f'f{k}', 'String', ['%' + p] + ['[0', ']0'][:k % 3], d] for k, d in enumerate(DESCS)]
            types.append([f'{b}{i}', b, o, '', fs])
        types += [[f'P{i}x{k}', 'String', ['%' + p], d, []] for k, d in enumerate(DESCS)]
    for b, o in (('Record', []), ('Map', ['=']), ('Array', [])):
        fs = [[k + 1, f'f{k}', 'Number', [[c + x for c, x in zip('yz', (a, z)) if x]][0], DESCS[k % len(DESCS)]]
              for k, (a, z) in enumerate((a, z) for a in LIMITS + [''] for z in LIMITS + [''] if not a or not z or float(a) <= float(z))]
        types.append([f'N{b}', b, o, '', fs])
        types.append([f'D{b}', b, o, '', [[k + 1, f'f{k}', 'R', ['<'] + ['[0'] * (k % 2), d] for k, d in enumerate(DESCS)]])
    types.append(['R', 'Record', [], '', [[1, 'a', 'String', [], '']]])
    return [{'info': {'package': 'urn:a', 'config': {'$FieldName': pats.text(FIELDNAME)}}, 'types': types[i:i + 30] + types[-1:] * (i + 30 < len(types))} for i in range(0, len(types), 30)]


def alltexts(run, ev):
    report(run, [fixed([ev(s, i)], s) for i, s in enumerate(texts() + alldefs(run))])


def alldefs(run):
    """Every type and field definition that MC_Syntax enumerates."""
    out = family.syntax(random.Random('%s/%s' % (run.prop, SEED)), DESCS, 7 if THOROUGH else 1)
    run.count('enumerated_definitions', sum(1 + len(t[4]) for s in out for t in s['types']))
    return out


def fixed(ev, s):
    """A trace about a schema that has to be well-formed."""
    return {'ev': ev, 'whole': [tag(s)], 'pats': [[pats.text(FIELDNAME), pats.ast(FIELDNAME)]], 'must': True}


def whole(ev, rich, *schemas):
    return {'ev': ev, 'whole': [tag(s) for s in schemas], 'pats': [[k, v] for k, v in rich.pats.items()]}


STYLES = [None, {}, {'id': 0, 'name': 0, 'type': 0}, {'id': 2, 'name': 5, 'type': 10}, {'id': 8, 'name': 40, 'type': 60}, {'desc': 30}, {'desc': 100}, {'info': 0}, {'info': 30, 'desc': 1}, {'name': 1}, {'type': 1, 'id': 1}]


def report(run, traces, module='TraceForm'):
    run.count('conversions', sum(len(t['ev']) for t in traces))
    for t in traces[:1]:
        run.sample(t['ev'][0])
    run.traces(module, traces, timeout=2400 if THOROUGH else 700)


def rounds(run, make, n, nthorough, module='TraceForm'):
    for _ in range(1 if not THOROUGH else 5):
        report(run, many(run, make, n if not THOROUGH else nthorough), module)
        if run.viol:
            break


def scratchfile(work):
    d = tempfile.mkdtemp(prefix='jadnform-')
    try:
        return work(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def C08(run, jadn):
    cv = jadn.convert

    def make(rng):
        ev = []
        rich, s = schema(rng)
        for st in rng.sample(STYLES, 3):
            ev.append(cycle('jidl', s, lambda x: cv.jidl_loads(cv.jidl_dumps(x, st) if st is not None else cv.jidl_dumps(x)), style=json.dumps(st)))
        text = call(cv.jidl_dumps, s)
        if text[0] == 'ok':
            text = relay(rng, text[1])
            ev.append(cycle('jidl-layout', s, lambda x: cv.jidl_loads(text), text=text))

            def files(d, x, source):
                p = os.path.join(d, 'x.jidl')
                cv.jidl_dump(x, p, source=source)
                with open(p, encoding='utf8') as f:
                    return cv.jidl_load(f)
            if rng.random() < .3:
                src = rng.choice(['', 'some.jadn'])
                ev.append(cycle('jidl-file', s, lambda x: scratchfile(lambda d: files(d, x, src))))
        return whole(ev, rich, s)
    alltexts(run, lambda s, i: cycle('jidl', s, lambda x: cv.jidl_loads(cv.jidl_dumps(x, STYLES[1:][i % (len(STYLES) - 1)]))))
    rounds(run, make, 900, 4000)


def C09(run, jadn):
    cv = jadn.convert

    def make(rng):
        rich, s = schema(rng)
        ev = [cycle('html', s, lambda x: cv.html_loads(cv.html_dumps(x)))]
        if rng.random() < .3:
            def files(d, x):
                p = os.path.join(d, 'x.html')
                cv.html_dump(x, p, source='some.jadn')
                return cv.html_load(p)
            ev.append(cycle('html-file', s, lambda x: scratchfile(lambda d: files(d, x))))
        return whole(ev, rich, s)
    alltexts(run, lambda s, i: cycle('html', s, lambda x: cv.html_loads(cv.html_dumps(x))))
    rounds(run, make, 1600, 6000)


def C10(run, jadn):
    cv = jadn.convert

    def make(rng):
        ev = []
        rich, s = schema(rng)
        ev.append(cycle('jadn', s, lambda x: jadn.loads(jadn.dumps(x)), exact=True))
        ev.append(cycle('jadn-strip', s, lambda x: jadn.loads(jadn.dumps(x, strip=True)), exact=True))
        ev.append(cycle('json', s, lambda x: jadn.loads(json.dumps(x, indent=rng.choice([None, 1, 4]))), exact=True))

        def files(d, x):
            p = os.path.join(d, 'x.jadn')
            jadn.dump(x, p, strip=rng.random() < .5)
            with open(p, encoding='utf8') as f:
                return jadn.load(f) if rng.random() < .5 else jadn.load_any(f)
        ev.append(cycle('jadn-file', s, lambda x: scratchfile(lambda d: files(d, x)), exact=True))

        def anyfile(d, x, ext):
            p = os.path.join(d, 'some.name' + ext)
            (cv.jidl_dump if ext == '.jidl' else cv.html_dump)(x, p)
            with open(p, encoding='utf8') as f:
                return jadn.load_any(f)
        ext = rng.choice(['.jidl', '.html'])
        ev.append(cycle('any' + ext, s, lambda x: scratchfile(lambda d: anyfile(d, x, ext))))

        # files with other contents and names
        for _ in range(4):
            x = rng.random()
            content = s if x < .3 else call(rich.defect, s)[1] if x < .9 else rng.choice([[], 5, 'x', None, {}])
            if isinstance(content, Exception):
                content = s
            text = json.dumps(content)
            good = True
            if rng.random() < .2:
                k = rng.choice([len(text) // 2, len(text) - 1, 0])
                text, good = text[:k] + rng.choice(['', '@', ',']) + text[k + 1:], False
                good = call(json.loads, text)[0] == 'ok'
                if good:
                    continue
            ext = rng.choice(['.jadn', '.jadn', '.jadn', '.json', '.txt', '', '.JADN', '.jadn.bak', '.xml'])

            def read(d):
                p = os.path.join(d, 'f' + ext)
                with open(p, 'w', encoding='utf8') as f:
                    f.write(text)
                with open(p, encoding='utf8') as f:
                    return jadn.load_any(f)
            how = rng.choice(['any', 'any', 'str', 'fp'])
            if how != 'any':
                ext = '.jadn'
            r = call(scratchfile, read) if how == 'any' else call(jadn.loads, text) if how == 'str' else call(jadn.load, io.StringIO(text))
            ev.append({'e': 'file', 'how': how, 'known': ext == '.jadn', 'json': good, 'c': tag(content), 'r': answer(r)})
        return whole(ev, rich, s)
    alltexts(run, lambda s, i: cycle('jadn', s, lambda x: jadn.loads(jadn.dumps(x, strip=i % 2 == 1)), exact=True))
    rounds(run, make, 600, 3000)


def variant(rng, s):
    """Reordered options and spelled-out defaults (whether the meaning is the same is decided by the specification)."""
    s = copy.deepcopy(s)
    for t in s['types']:
        rng.shuffle(t[2])
        if t[1] in ('Binary', 'String', 'ArrayOf', 'MapOf', 'Record', 'Map', 'Array') and not any(o[0] == '{' for o in t[2]) and rng.random() < .4:
            t[2].insert(rng.randint(0, len(t[2])), '{0')
        spell(rng, t[1], t[2])
        if t[1] != 'Enumerated':
            for f in t[4]:
                rng.shuffle(f[3])
                for c in '[]':
                    if not any(o[0] == c for o in f[3]) and rng.random() < .3:
                        f[3].insert(rng.randint(0, len(f[3])), c + '1')
                if f[2] in ('Binary', 'String', 'ArrayOf', 'MapOf') and not any(o[0] == '{' for o in f[3]) and rng.random() < .3:
                    f[3].append('{0')
                spell(rng, f[2], f[3])
    return s


def spell(rng, b, ol):
    if b == 'Number':
        for i, o in enumerate(ol):
            if o[0] in 'yz' and rng.random() < .5:
                if o.endswith('.0') and rng.random() < .5:
                    ol[i] = o[:-2]
                elif '.' in o:
                    ol[i] = o + '0'
                elif o[1:].isdigit():
                    ol[i] = o + '.0'


def C14(run, jadn):
    can = jadn.canonicalize

    def event(rng, s):
        before = copy.deepcopy(s)
        r = call(can, s)
        u = rows(r[1]) if r[0] == 'ok' else None
        e = {'e': 'canon', 's': rows(before), 'i': info(before), 'r': 'ok' if u is not None else 'err', 'mut': s != before}
        if u is not None:
            a = call(can, r[1])
            vs = []
            for _ in range(3):
                v = variant(rng, s)
                w = call(can, v)
                vs.append([rows(v), (rows(w[1]) if w[0] == 'ok' else None) or []])
            e.update(u=u, ui=info(r[1]), again=(rows(a[1]) if a[0] == 'ok' else None) or [], variants=vs)
        return e

    def make(rng):
        ev = []
        for _ in range(4):
            _, s = schema(rng)
            if rng.random() < .3:
                s = variant(rng, s)
            ev.append(event(rng, s))
        return {'ev': ev}
    rng = random.Random(SEED)
    report(run, [{'ev': [event(rng, s)]} for s in alldefs(run)])
    rounds(run, make, 600, 3000)


def C15(run, jadn):
    strip = jadn.transform.strip_comments

    def make(rng):
        ev = []
        for _ in range(8):
            _, s = schema(rng)
            for t in s['types']:
                if rng.random() < .3:
                    t[3] = rng.choice(WILD)
                for f in t[4]:
                    if rng.random() < .3:
                        f[-1] = rng.choice(WILD)
            n = rng.choice([0, 0, 1, 2, 3, 4, 5, 8, 10, 11, 12, 20, 255])
            before = copy.deepcopy(s)
            r = call(strip, s) if n == 0 and rng.random() < .5 else call(strip, s, n) if rng.random() < .5 else call(strip, s, width=n)
            u = rows(r[1]) if r[0] == 'ok' else None
            e = {'e': 'strip', 'n': n, 's': rows(before), 'i': info(before), 'r': 'ok' if u is not None else 'err', 'mut': s != before}
            if u is not None:
                e.update(u=u, ui=info(r[1]))
                if rng.random() < .2:       # the result is the caller's own
                    r[1]['types'][0][3] = 'changed'
                    e['mut'] = e['mut'] or s != before
            ev.append(e)
        return {'ev': ev}
    rounds(run, make, 600, 3000)


def typestr_event(ut, b, o):
    txt = call(ut.jadn2typestr, b, list(o))
    back = call(ut.typestr2jadn, txt[1]) if txt[0] == 'ok' else ['err']
    if back[0] == 'ok':
        back = ['ok', back[1][0], list(back[1][1]), list(back[1][2])] if all(type(x) is str and x for x in back[1][1]) else ['err']
    return {'e': 'typestr', 'b': b, 'o': list(o), 'txt': [txt[0], str(txt[1])] if txt[0] == 'ok' else ['err'], 'back': back[:1] if back[0] != 'ok' else back}


def opts_event(ut, o):
    r = call(ut.ftopts_s2d, list(o))
    f, t = (answer(['ok', r[1][0]]), answer(['ok', r[1][1]])) if r[0] == 'ok' else (['err'], ['err'])
    if r[0] == 'ok' and not r[1][0]:
        t2 = call(ut.topts_s2d, list(o))
        if answer(t2) != t:
            t = answer(t2)
    back = call(lambda: ut.opts_d2s({**r[1][0], **r[1][1]}))
    srt = list(o)
    s = call(ut.opts_sort, srt)
    return {'e': 'opts', 'o': list(o), 'f': f, 't': t, 'back': ['ok', back[1]] if back[0] == 'ok' and all(type(x) is str and x for x in back[1]) else ['err'], 'sorted': ['ok', srt] if s[0] == 'ok' else ['err']}


def C19(run, jadn):
    ut = jadn.utils
    # every base type with every small set of options
    combos = [(s['types'][0][1], s['types'][0][2]) for s in cg.type_matrix(2)] + [(x, []) for x in ('R', 'ns:Other', 'A-b$C', '$Sys')]
    mults = [(a, b) for a in ('0', '1', '2', '3', '12') for b in ('0', '1', '2', '3', '15')]
    # combinations of three and more legal options
    legal = {'String': ['/date', '%^a$', '{1', '}5'], 'Integer': ['/i8', '{-5', '}7'], 'Number': ['/f32', 'y-1.5', 'z2'], 'Binary': ['/x', '{1', '}3'], 'Enumerated': ['=', '#R', 'X'],
             'Choice': ['=', 'CA', 'X'], 'Array': ['X', '/ipv4-net', '{1', '}2'], 'ArrayOf': ['*#R', '{1', '}4', 'q', 's', 'b'], 'Map': ['=', 'X', '{1', '}2', 'o'],
             'MapOf': ['+>R', '*ns:T', '{1', '}2', 'o'], 'Record': ['X', '{0', '}3', 'o']}
    for b, ol in legal.items():
        for m in range(2 ** len(ol)):
            c = [o for i, o in enumerate(ol) if m >> i & 1]
            combos += [(b, c), (b, c[::-1])]
    ev = [typestr_event(ut, b, o) for b, o in combos] + [opts_event(ut, o) for _, o in combos]
    ev += [{'e': 'mult', 'lo': a, 'hi': b, 'r': list(call(ut.multiplicity_str, {k: int(v) for k, v in (('minc', a), ('maxc', b)) if v != '1' or a == b}))} for a, b in mults]
    for m in ['', '1', '0', '3', '25', '0..1', '1..1', '0..*', '1..*', '3..*', '2..4', '0..3', '3..3', '7..12', '10..*', '0..0', '1..0']:
        for fname, fstr in (('a', 'String'), ('b/', 'Other'), ('', 'ArrayOf(String){1..3} unique'), ('k', 'Key(Integer)'), ('l', 'Link(Other)')):
            r = call(ut.fielddef2jadn, 4, fname, fstr, m, '' if fname else 'lab:: x')
            ok = r[0] == 'ok' and len(r[1]) == 5
            ev.append({'e': 'multread', 'm': m, 'r': ['ok', [o for o in r[1][3] if o[0] in '[]']] if ok else ['err', []]})
    for e in ev:
        if e['e'] == 'mult':
            e['r'] = [e['r'][0], str(e['r'][1])]
    run.count('option_combinations', len(combos))
    report(run, [{'ev': ev[i:i + 200]} for i in range(0, len(ev), 200)])

    def make(rng):
        ev = []
        _, s = schema(rng)
        for t in rows(s):
            raw = [t[0], t[1], t[2], t[3], [[int(f[0]), *f[1:]] for f in t[4]]]
            ev.append(typestr_event(ut, t[1], t[2]))
            ev.append(opts_event(ut, t[2]))
            for k, f in enumerate(raw[4]):
                if len(f) == 5:
                    ev.append(opts_event(ut, f[3]))
                c = call(ut.jadn2fielddef, copy.deepcopy(f), copy.deepcopy(raw))
                cells = ['ok', [str(x) for x in c[1]]] if c[0] == 'ok' else ['err']

                def back():
                    b = ut.fielddef2jadn(f[0], *c[1])
                    fs = copy.deepcopy(raw[4])
                    fs[k] = b
                    b = ut.cleanup_tagid(fs)[k]
                    return rows({'types': [['X', 'X', [], '', [b]]]})[0][4][0]
                b = call(back)
                ev.append({'e': 'field', 'row': t, 'k': k + 1, 'cells': cells, 'back': list(b) if b[0] == 'ok' else ['err']})
        return {'ev': ev}
    rounds(run, make, 800, 4000)
