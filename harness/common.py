"""Shared machinery: loading the library from /repo, recording values, running TLC, evidence and verdicts."""
import atexit
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from decimal import Decimal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('JADN_REPO', '/repo')
SRC = os.path.join(REPO, 'distribution', 'src')
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
sys.dont_write_bytecode = True
sys.path.insert(0, SRC)


def load_jadn():
    """The library from /repo's working tree, or the exception that prevents it."""
    import warnings
    warnings.simplefilter('ignore')
    import jadn
    assert os.path.abspath(jadn.__file__).startswith(os.path.abspath(SRC)), jadn.__file__
    return jadn


# ---------------------------------------------------------------- values
def bmp(s):
    return all(ord(c) < 0xd800 or 0xe000 <= ord(c) <= 0xffff for c in s)


def num(x):
    if x != x or x in (float('inf'), float('-inf')):
        return str(x)
    s = format(Decimal(repr(x)), 'f')
    if '.' in s:
        s = s.rstrip('0')
        s = s + '0' if s.endswith('.') else s
    else:
        s += '.0'
    return s


def tag(v):
    """A Python value in the tagged form of the specification; anything else is marked odd."""
    if v is None:
        return ['null']
    if v is True or v is False:
        return ['bool', v]
    t = type(v)
    if t is int:
        return ['int', str(v)]
    if t is float:
        return ['flt', num(v)]
    if t is str:
        return ['str', v] if bmp(v) else ['odd', 'str', ascii(v)]
    if t in (bytes, bytearray):
        return ['bin', list(v)]
    if t is list:
        return ['list', [tag(x) for x in v]]
    if t is dict:
        return ['dict', [[tag(k), tag(x)] for k, x in v.items()]]
    return ['odd', t.__name__, ascii(v)[:80]]


def call(f, *a, **k):
    """('ok', value) or ('err', text); only exceptions derived from Exception are answers."""
    try:
        return ['ok', f(*a, **k)]
    except RecursionError:
        return ['err', 'RecursionError']
    except Exception as e:
        return ['err', type(e).__name__]


def answer(r):
    return ['ok', tag(r[1])] if r[0] == 'ok' else ['err']


# ---------------------------------------------------------------- TLC
class TlcError(Exception):
    pass


def scratch():
    return tempfile.mkdtemp(prefix='jadnverif-')


def tlc_start(module, cfg, env=None, workers=1, heap='2g', cwd=None, extra=()):
    """Start TLC on /verif/spec/<module>.tla with the given configuration text."""
    d = cwd or scratch()
    with open(os.path.join(d, module + '.cfg'), 'w') as f:
        f.write(cfg)
    e = dict(os.environ, **(env or {}))
    e.pop('JAVA_TOOL_OPTIONS', None)
    out = open(os.path.join(d, 'out.txt'), 'wb')
    cmd = ['java', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=%s' % ('4'), '-Xss64m', '-Xmx' + heap, '-Dfile.encoding=UTF-8', '-Djava.io.tmpdir=' + d, '-DTLA-Library=' + SPEC,
           '-cp', JARS, 'tlc2.TLC', '-lncheck', 'final', '-deadlock', '-noGenerateSpecTE', '-metadir', os.path.join(d, 'meta'),
           '-config', os.path.join(d, module + '.cfg'), '-workers', str(workers), *extra, os.path.join(SPEC, module + '.tla')]
    p = subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, cwd=d, env=e)
    p.jv = (d, time.time())
    LIVE.append((os.getpid(), p))
    return p


LIVE = []       # (process that started it, TLC)


def end_all():
    for pid, p in LIVE:
        if pid == os.getpid():
            if p.poll() is None:
                p.kill()
                p.wait()
            shutil.rmtree(p.jv[0], ignore_errors=True)


atexit.register(end_all)


def failed(path):
    with open(path, 'rb') as f:
        f.seek(0, 2)
        f.seek(max(0, f.tell() - 2000000))
        return b'Error: TLC threw an unexpected exception' in f.read()


def tlc_wait(p, timeout=800):
    d, t_end, stuck = p.jv[0], time.time() + timeout, 0
    while (rc := p.poll()) is None:
        if time.time() > t_end:
            rc = -9
        elif failed(os.path.join(d, 'out.txt')):     # TLC may spend hours on an account of its own failure
            stuck += 1
            rc = 75 if stuck > 15 else None
        if rc is not None:
            p.kill()
            p.wait()
            break
        try:
            p.wait(1)
        except subprocess.TimeoutExpired:
            pass
    txt = open(os.path.join(d, 'out.txt'), encoding='utf-8', errors='replace').read()
    shutil.rmtree(d, ignore_errors=True)
    return rc, txt


def counts(txt):
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', txt)
    return tuple(int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)


TRACECFG = 'SPECIFICATION TraceSpec\nVIEW TraceView\nCHECK_DEADLOCK FALSE\n'


def check_traces(module, traces, shards=7, timeout=700):
    """Validate traces (dicts with 's' and 'ev') against a trace module.
    Returns dict(mismatches=[(trace, event, clause, expected)], states, transitions, rejected=[trace index])."""
    res = dict(mismatches=[], states=0, transitions=0, rejected=[], open={})
    if not traces:
        return res
    todo = [list(range(k, len(traces), shards)) for k in range(min(shards, len(traces)))]
    # balance by size: longest first, round robin
    order = sorted(range(len(traces)), key=lambda i: -len(traces[i]['ev']))
    todo = [order[k::min(shards, len(traces))] for k in range(min(shards, len(traces)))]
    running = [(idx, start_shard(module, traces, idx)) for idx in todo]
    t_end = time.time() + timeout
    while running:
        idx, p = running.pop(0)
        rc, txt = tlc_wait(p, max(5, t_end - time.time()))
        gen, dist = counts(txt)
        need = sum(len(traces[i]['ev']) + 1 for i in idx)
        if rc == 0 and dist == need:
            res['states'] += dist
            res['transitions'] += gen - len(idx)
            collect(res, txt, idx)
            continue
        if rc == -9:
            raise TlcError('TLC timed out')
        if 'Parsing or semantic analysis failed' in txt or 'java.lang.OutOfMemoryError' in txt:
            raise TlcError(txt[-3000:])
        if len(res['rejected']) >= 2:
            continue                    # enough evidence: the rest of this shard is left unexplored
        if len(idx) == 1:
            # the specification has no step for this recorded event
            collect(res, txt, idx)
            res['rejected'].append((idx[0], last_event(txt), txt[-1500:]))
            continue
        h = (len(idx) + 1) // 2
        for part in (idx[:h], idx[h:]):
            running.append((part, start_shard(module, traces, part)))
    return res


def lint(x):
    """TLC reads no null and only 32-bit integers: values must be tagged."""
    if isinstance(x, dict):
        return all(lint(v) for v in x.values())
    if isinstance(x, (list, tuple)):
        return all(lint(v) for v in x)
    return x is not None and not isinstance(x, float) and not (isinstance(x, int) and abs(x) >= 2**31)


def start_shard(module, traces, idx):
    d = scratch()
    path = os.path.join(d, 'traces.ndjson')
    with open(path, 'w', encoding='utf-8') as f:
        for i in idx:
            if not lint(traces[i]):
                raise TlcError('untagged value in trace: ' + json.dumps(traces[i])[:500])
            f.write(json.dumps(traces[i], ensure_ascii=False) + '\n')
    return tlc_start(module, TRACECFG, env={'TRACES': path, 'BIG': '1' if TIER == 'thorough' else '0'}, cwd=d)


def last_event(txt):
    m = re.findall(r'/\\ l = (\d+)', txt)
    return int(m[-1]) - 1 if m else -1


def collect(res, txt, idx):
    lines = txt.split('\n')
    for k in re.findall(r'^"OPEN\|([^"]*)"$', txt, re.M):
        res['open'][k] = res['open'].get(k, 0) + 1
    exps = {}
    for m in re.finditer(r'<<\s*"EXPECTED",\s*(\d+),\s*(\d+),(.*?)\n(?="MISMATCH|MISMATCH|Progress|Model|<<|[A-Z\d])', txt, re.S):
        exps.setdefault((int(m.group(1)), int(m.group(2))), []).append(re.sub(r'\s+', ' ', m.group(3)).strip()[:400])
    for ln in lines:
        m = re.match(r'"?MISMATCH\|(\d+)\|(\d+)\|([^"]*)"?$', ln)
        if m:
            k = (int(m.group(1)), int(m.group(2)))
            e = exps.get(k) or ['']
            res['mismatches'].append((idx[k[0] - 1], k[1] - 1, m.group(3), e.pop(0) if len(e) > 1 else e[0]))


_JOB = []


def _job(i):
    f, args = _JOB[-1]
    return f(args[i])


def parallel(f, args, workers=7):
    """[f(a) for a in args], in forked processes."""
    import multiprocessing as mp
    _JOB.append((f, list(args)))
    try:
        with mp.get_context('fork').Pool(max(1, min(workers, len(args)))) as pool:
            return pool.map(_job, range(len(args)), chunksize=1)
    finally:
        _JOB.pop()


# ---------------------------------------------------------------- findings, verdicts
def known_findings():
    """Lines `finding: property=<id> key=<key> <text>` of KNOWN_FINDINGS.txt."""
    out = []
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for ln in open(path, encoding='utf-8'):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', ln)
            if m:
                out.append((m.group(1), m.group(2), m.group(3).strip()))
    return out


class Run:
    """One run of one check."""

    def __init__(self, prop):
        self.prop, self.t0 = prop, time.time()
        self.thorough = TIER == 'thorough'
        self.rng = random.Random('%s/%s/%s' % (prop, SEED, TIER))
        self.viol = []
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.known = set()

    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def sample(self, s, cap=4):
        if len(self.cov['samples']) < cap:
            self.cov['samples'].append(s if len(json.dumps(s, default=str)) < 1500 else json.dumps(s, default=str)[:1500])

    def violation(self, clause, detail, key=None):
        for p, k, t in known_findings():
            if p == self.prop and key is not None and k == key:
                self.known.add((k, t))
                return
        self.viol.append({'clause': clause, 'detail': detail})

    def traces(self, module, traces, clauses=None, describe=None, shards=7, timeout=700):
        """Validate traces; every mismatch in `clauses` (None: all) is a violation."""
        r = check_traces(module, traces, shards=shards, timeout=timeout)
        self.cov['states'] += r['states']
        self.cov['transitions'] += r['transitions']
        self.cov['traces_validated_against_impl'] += len(traces)
        left = self.cov.setdefault('events_left_open', {})
        for k, n in r['open'].items():
            left[k] = left.get(k, 0) + n
        other = 0
        for ti, ei, clause, exp in r['mismatches']:
            if clauses is None or any(re.fullmatch(c, clause) for c in clauses):
                tr = traces[ti]
                self.violation(clause, {'expected': exp, 'event': tr['ev'][ei], 'context': tr.get('ctx'), 'schemas': tr.get('s'), 'seed': SEED})
            else:
                other += 1
        for ti, ei, txt in r['rejected']:
            tr = traces[ti]
            self.violation('rejected', {'why': 'the specification has no step explaining this recorded event', 'tlc': txt,
                                        'event': tr['ev'][ei] if 0 <= ei < len(tr['ev']) else None, 'schemas': tr.get('s'), 'seed': SEED})
        if other:
            self.cov['differences_belonging_to_other_properties'] = self.cov.get('differences_belonging_to_other_properties', 0) + other
        return r

    def finish(self, level='model_checking'):
        for k, t in sorted(self.known):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, t))
        ev = {'property': self.prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': level,
              'coverage': self.cov, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viol)}
        if not self.cov['samples']:
            self.cov['samples'] = ['none']
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('%s %s: states=%d transitions=%d traces=%d wall=%.1fs violations=%d' % (
            self.prop, TIER, self.cov['states'], self.cov['transitions'], self.cov['traces_validated_against_impl'], time.time() - self.t0, len(self.viol)))
        if not self.viol:
            return 0
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s-%d.json' % (self.prop, TIER, SEED))
        with open(path, 'w') as f:
            json.dump(self.viol[:20], f, indent=1, default=str, ensure_ascii=False)
        for v in self.viol[:5]:
            print('  %s: %s' % (v['clause'], json.dumps(v['detail'], default=str, ensure_ascii=False)[:600]))
        print('VIOLATION property=%s replay=%s' % (self.prop, path))
        return 1
