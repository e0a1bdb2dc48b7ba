"""C01-C05, C16: the codec."""
import json
import random

import codec_traces as ct
import fresh
import mc
from common import SEED, TIER, parallel

THOROUGH = TIER == 'thorough'


def gather(run, jadn, make, n, workers=7):
    """n traces from make(rng), generated in parallel."""
    chunks = 4 * workers

    def job(k):
        rng = random.Random('%s/%s/%s/%d' % (run.prop, SEED, TIER, k))
        out, stuck = [], 0
        while len(out) < n // chunks + 1 and stuck < 50:
            t = make(rng)
            if t['ev']:
                out.append(t)
            else:
                stuck += 1
        return out
    return [t for part in parallel(job, range(chunks), workers) for t in part]


def model(run, jadn, ops, clauses, wait_for=None):
    """Start the bounded model; the returned function finishes it and replays its tables."""
    procs = mc.start(big=THOROUGH)

    def finish():
        uni, cases, st, tr = mc.collect(procs, 3000 if THOROUGH else 700)
        run.cov['states'] += st
        run.cov['transitions'] += tr
        res = parallel(lambda k: mc.replay(jadn, uni, cases[k::28], ops), range(28))
        run.count('model_cases_replayed', len(cases))
        run.count('model_answers_replayed', sum(r[1] for r in res))
        for part, _ in res:
            for clause, s, m, v, exp, got in part:
                if clause in clauses:
                    run.violation(clause, {'schema': s['types'], 'info': s['info'], 'mode': m, 'value': v, 'expected': exp, 'got': got})
        if cases:
            c = cases[len(cases) // 2]
            run.sample({'model case': {'type': c['s']['types'][-1], 'mode': c['m'], 'accepted': len(c['enc']['ok'])}})
    return finish


def sessions(run, jadn, weights, clauses, n, **kw):
    traces = gather(run, jadn, lambda rng: ct.random_session(jadn, rng, weights, **kw), n)
    run.count('calls', sum(len(t['ev']) for t in traces))
    for t in traces[:2]:
        run.sample({'types': t['s'][0]['types'][:4], 'events': t['ev'][:3]})
    run.traces('TraceCodec', traces, clauses, timeout=2400 if THOROUGH else 700)


def codec_check(weights, clauses, ops, n, nthorough):
    def f(run, jadn):
        fin = model(run, jadn, ops, clauses)
        fin()
        for _ in range(1 if not THOROUGH else 6):
            sessions(run, jadn, weights, clauses, n if not THOROUGH else nthorough)
            if run.viol:
                break
    return f


C01 = codec_check({'enc': 9, 'rt': 0, 'dec': 0, 'mode': .5}, ['enc-accept', 'enc-reject', 'new-accept'], {'enc'}, 1000, 3000)
C02 = codec_check({'enc': 0, 'rt': 0, 'dec': 9, 'mode': .5}, ['dec-accept', 'dec-reject', 'dec-value', 'new-accept'], {'dec'}, 1000, 3000)
C03 = codec_check({'enc': 0, 'rt': 9, 'dec': 0, 'mode': .5}, ['rt-encode', 'rt-decode', 'rt-json', 'new-accept'], {'rt'}, 1000, 3000)
C04 = codec_check({'enc': 9, 'rt': 0, 'dec': 0, 'mode': 2}, ['enc-value', 'new-accept'], {'enc'}, 1000, 3000)


def C05(run, jadn):
    z = {}

    def make(rng):
        if 'z' not in z:
            z['z'] = fresh.Zygote(jadn)
        return ct.history_session(jadn, rng, zygote=z['z'])
    for _ in range(1 if not THOROUGH else 8):
        traces = gather(run, jadn, make, 500 if not THOROUGH else 1500)
        run.count('calls', sum(len(t['ev']) for t in traces))
        for t in traces[:2]:
            run.sample({'events': t['ev'][:4]})
        run.traces('TraceCodec', traces, ['history', 'fresh-mode', 'mutated', 'mode-accept', 'new-accept'], timeout=2400)
        if run.viol:
            break
