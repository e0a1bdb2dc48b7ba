"""C17, C18: diagrams and Markdown documents.  The harness renders and reads; JDocs decides what must be there."""
import copy
import json
import os
import re
from xml.etree import ElementTree

from common import call, tag
from props_form import THOROUGH, alldefs, fixed, report, rows, rounds, schema, scratchfile, texts, whole

FORMATS, DETAILS = ['plantuml', 'graphviz'], ['conceptual', 'logical', 'information']
KEYWORDS = {'node', 'edge', 'graph', 'digraph', 'subgraph', 'strict'}


# ---------------------------------------------------------------- PlantUML
def read_plantuml(text):
    nodes, edges, bad, state = {}, [], [], 0
    for ln in text.split('\n'):
        s = ln.strip()
        if not s or s[0] == "'":
            continue
        if state != 1:
            if s == '@startuml' and state == 0:
                state = 1
            else:
                bad.append(s)
        elif s == '@enduml':
            state = 2
        elif m := re.fullmatch(r'class "([^"]*)" as (\w+)', s):
            if m[2] in nodes:
                bad.append(s)
            nodes[m[2]] = [m[1].replace('<U+0022>', '"'), []]
        elif m := re.fullmatch(r'(\w+)(?: "([^"]*)")? (--|\.\.?)>(?: "([^"]*)")? (\w+)(?: : (.*))?', s):
            if (m[2] is None) != (m[4] is None) or m[2] not in (None, '1'):
                bad.append(s)
            edges.append([m[1], m[5], m[6] or '', m[4] or '', '' if m[3] == '--' else m[3]])
        elif m := re.match(r'(\w+) : ?(.*)', s):
            if m[1] in nodes:
                nodes[m[1]][1].append(m[2])
            else:
                bad.append(s)
        elif not re.match(r'(hide|show|skinparam|left to right|top to bottom)\b', s):
            bad.append(s)
    return nodes, edges, bad + ([] if state == 2 else ['unfinished'])


# ---------------------------------------------------------------- GraphViz
def tokens(text):
    out, i = [], 0
    text = re.sub(r'(?m)^#.*$', '', text)
    pat = re.compile(r'(?P<s>\s+)|"(?P<q>(?:[^"\\]|\\.)*)"|(?P<e>->)|(?P<i>[A-Za-z_\x80-\uffff][A-Za-z0-9_\x80-\uffff]*|-?(?:\.\d+|\d+(?:\.\d*)?))|(?P<p>[{}\[\]=,;])', re.S)
    while i < len(text):
        if text[i] == '<':
            d, k = 0, i
            while True:
                d += {'<': 1, '>': -1}.get(text[k], 0)
                k += 1
                if d == 0:
                    break
            out.append(('h', text[i + 1:k - 1]))
            i = k
            continue
        m = pat.match(text, i)
        if not m:
            raise ValueError(text[i:i + 40])
        if m.lastgroup != 's':
            out.append((m.lastgroup, m[m.lastgroup]))
        i = m.end()
    return out


def quoted(s):
    return re.sub(r'\\(.)', r'\1', s)


def label(t):
    """Title and rows of a label."""
    if t[0] != 'h':
        return [quoted(t[1]), []]
    x = ElementTree.fromstring('<x>' + t[1] + '</x>')
    rws = [''.join(r.itertext()) for r in x.iter('tr')]
    if not rws:
        return [''.join(x.itertext()), []]
    if any(len(r.findall('td')) != 1 for r in x.iter('tr')) or ''.join(x.itertext()).split() != ' '.join(rws).split():
        raise ValueError(t[1])
    return [rws[0].strip(), [r.strip() for r in rws[1:]]]


def read_graphviz(text):
    nodes, edges, bad = {}, [], []
    try:
        tk = tokens(text)
        i = 0

        def take(*kinds):
            nonlocal i
            t = tk[i]
            if t[0] not in kinds and t[1] not in kinds:
                raise ValueError(str(t))
            i += 1
            return t

        def ident():
            t = take('i', 'q', 'h')
            if t[0] == 'i' and t[1].lower() in KEYWORDS:
                raise ValueError(str(t))
            return t

        def attrs():
            nonlocal i
            a = {}
            if tk[i] == ('p', '['):
                i += 1
                while tk[i] != ('p', ']'):
                    k = ident()[1]
                    take('=')
                    a[k] = ident()
                    if tk[i][1] in ',;':
                        i += 1
                i += 1
            return a
        take('digraph'), take('G'), take('{')
        while tk[i] != ('p', '}'):
            t = tk[i]
            if t == ('p', ';'):
                i += 1
            elif t[0] == 'i' and t[1] in ('graph', 'node', 'edge'):
                i += 1
                attrs()
            else:
                a = ident()[1]
                if tk[i] == ('p', '='):
                    i += 1
                    ident()
                elif tk[i][0] == 'e':
                    i += 1
                    b = ident()[1]
                    o = attrs()
                    tail = o.get('taillabel')
                    if (tail is None) != ('headlabel' not in o) or tail is not None and tail[1] != '1':
                        bad.append(str(o))
                    edges.append([a, b, quoted(o['label'][1]) if 'label' in o else '', quoted(o['headlabel'][1]) if 'headlabel' in o else '', o['style'][1] if 'style' in o else ''])
                else:
                    if a in nodes:
                        bad.append(a)
                    nodes[a] = label(attrs()['label'])
        if i != len(tk) - 1:
            bad.append(str(tk[i:]))
    except (ValueError, IndexError, KeyError, ElementTree.ParseError) as e:
        bad.append(repr(e)[:100])
    return nodes, edges, bad


def style(rng):
    st = {'format': rng.choice(FORMATS), 'detail': rng.choice(DETAILS)}
    for k in ('links', 'link_horizontal', 'edge_label', 'edge_mult', 'attributes'):
        if rng.random() < .6:
            st[k] = rng.random() < .5
    if rng.random() < .1:
        st['attr_color'] = 'red'
    for k in ('format', 'detail'):
        if rng.random() < .15:
            del st[k]
    return st


def diagram(dg, s, st, k=1, file=None):
    before, given = copy.deepcopy(s), copy.deepcopy(st)
    if file is None:
        r = call(dg.diagram_dumps, s, st) if st is not None else call(dg.diagram_dumps, s)
    else:
        def work(d):
            p = os.path.join(d, 'x.txt')
            dg.diagram_dump(s, p, **{a: b for a, b in (('source', file), ('style', st)) if b})
            with open(p, encoding='utf8') as f:
                return f.read()
        r = call(scratchfile, work)
    full = {'format': 'plantuml', 'detail': 'conceptual', 'links': True, 'link_horizontal': True, 'edge_label': True, 'edge_mult': True, 'attributes': False, **(given or {})}
    e = {'e': 'diagram', 'k': k, 's': rows(before), 'r': r[0], 'mut': s != before or st != given, 'style': {a: full[a] for a in ('format', 'detail', 'links', 'link_horizontal', 'edge_label', 'edge_mult', 'attributes')}}
    if r[0] == 'ok':
        nodes, edges, bad = (read_plantuml if full['format'] == 'plantuml' else read_graphviz)(r[1])
        e.update(nodes=[[i, *n] for i, n in nodes.items()], edges=edges, bad=bad[:3])
    else:
        e['why'] = r[1]
    return e


# ---------------------------------------------------------------- Markdown
def table(lines, bad):
    out = []
    for ln in lines:
        c = re.split(r'(?<!\\)\|', ln)
        if len(c) < 3 or c[0].strip() or c[-1].strip():
            bad.append(ln)
        out.append([x.strip(' ').replace('\\|', '|') for x in c[1:-1]])
    if len(out) < 2 or len(out[1]) != len(out[0]) or any(not re.fullmatch(':?-+:?', x) for x in out[1]):
        bad.append('no table')
        return [], []
    return out[0], out[2:]


def read_markdown(text):
    bad, inf, blocks = [], [], []
    lines = text.split('\n')
    i = 0
    if lines[0].startswith('<!--'):
        i = 2
    while i < len(lines) and lines[i]:      # a type begins with an empty line
        m = re.fullmatch(r'\s*([^:]+): (.*)', lines[i])
        v = call(json.loads, m[2]) if m else ['err']
        if v[0] == 'ok':
            inf.append([m[1], tag(v[1])])
        else:
            bad.append(lines[i])
        i += 1
    chunk = []
    for ln in lines[i:]:
        if ln != '**********':
            chunk.append(ln)
            continue
        ls = [x for x in chunk if x.strip()]
        chunk = []
        b = {'d': '', 'h': ''}
        t = [k for k, x in enumerate(ls) if re.fullmatch(r'\*\*Type: .*\*\*', x)]
        if t:
            if t[0] > 1:
                bad += ls[:t[0]]
            b['d'] = ls[0] if t[0] else ''
            b['h'] = ls[t[0]][8:-2]
            ls = ls[t[0] + 1:]
        b['head'], b['rows'] = table(ls, bad)
        blocks.append(b)
    return inf, blocks, bad + [x for x in chunk if x.strip()]


def markdown(cv, s, st, k=1, file=None):
    before = copy.deepcopy(s)
    if file is None:
        r = call(cv.markdown_dumps, s, *([st] if st is not None else []))
    else:
        def work(d):
            p = os.path.join(d, 'x.md')
            cv.markdown_dump(s, p, **{a: b for a, b in (('source', file), ('style', st)) if b})
            with open(p, encoding='utf8') as f:
                return f.read()
        r = call(scratchfile, work)
    e = {'e': 'markdown', 'k': k, 's': rows(before), 'i': tag(before.get('info') or {}), 'r': r[0], 'mut': s != before}
    if r[0] == 'ok':
        inf, blocks, bad = read_markdown(r[1])
        e.update(info=inf, blocks=blocks, bad=bad[:3])
    else:
        e['why'] = r[1]
    return e


def C17(run, jadn):
    dg = jadn.convert
    extremes = [{'format': f, 'detail': d, 'attributes': a, 'links': x, 'edge_label': y, 'edge_mult': z} for f in FORMATS for d in DETAILS for a, x, y, z in ((True, True, True, True), (False, False, False, False))]
    report(run, [fixed([diagram(dg, s, st) for st in extremes], s) for s in texts()] + [fixed([diagram(dg, s, extremes[(i + j) % len(extremes)]) for j in (0, 5)], s) for i, s in enumerate(alldefs(run))], 'TraceDocs')

    def make(rng):
        rich, s = schema(rng)
        ev = [diagram(dg, s, style(rng)) for _ in range(4)]
        if rng.random() < .3:
            ev.append(diagram(dg, s, rng.choice([style(rng), {}]), file=rng.choice(['', 'some.jadn'])))
        if rng.random() < .1:
            ev.append(diagram(dg, s, rng.choice([None, {}])))
        return whole(ev, rich, s)
    rounds(run, make, 700, 4000, 'TraceDocs')


def C18(run, jadn):
    cv = jadn.convert
    report(run, [fixed([markdown(cv, s, None)], s) for s in texts() + alldefs(run)], 'TraceDocs')

    def make(rng):
        rich, s = schema(rng)
        ev = [markdown(cv, s, rng.choice([None, {}, {'pad': False}, {'links': False}]))]
        if rng.random() < .3:
            ev.append(markdown(cv, s, None, file=rng.choice(['', 'some.jadn'])))
        return whole(ev, rich, s)
    rounds(run, make, 1400, 8000, 'TraceDocs')
