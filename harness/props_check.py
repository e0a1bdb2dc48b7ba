"""C06: which schemas check() accepts."""
import copy
import random

import check_gen as cg
from common import SEED, TIER, answer, call, parallel, tag

THOROUGH = TIER == 'thorough'


def event(jadn, s):
    """Verdict on s; a refused schema may have been completed in place, so a copy is given."""
    return {'e': 'check', 's': tag(s), 'r': answer(call(jadn.check, copy.deepcopy(s)))}


def events_trace(evs, pats=()):
    return {'ev': evs, 'pats': [[k, v] for k, v in dict(pats).items()]}


def C06(run, jadn):
    per = 60
    mats = list(cg.type_matrix(2)) + list(cg.own_matrix(5 if THOROUGH else 3)) + list(cg.names_matrix()) + list(cg.sizes_matrix()) + list(cg.field_matrix(2, rng=None if THOROUGH else run.rng))
    if THOROUGH:
        mats += random.Random(SEED).sample(list(cg.type_matrix(3)), 40000)
    chunks = [mats[i:i + per] for i in range(0, len(mats), per)]
    run.count('option_matrix_cases', len(mats))
    traces = [events_trace(e, cg.OWNPATS) for e in parallel(lambda c: [event(jadn, s) for s in c], chunks)]
    n = 300 if not THOROUGH else 2500

    def job(k):
        rng = random.Random('%s/%s/%s/%d' % (run.prop, SEED, TIER, k))
        out = []
        for _ in range(n // 28 + 1):
            rich = cg.Rich(rng)
            s = rich.valid()
            evs = [event(jadn, s)]
            for _ in range(30):
                x = rich.defect(s)
                while rng.random() < .1:
                    x2 = call(rich.defect, x)
                    x = x2[1] if x2[0] == 'ok' else x
                evs.append(event(jadn, x))
            out.append(events_trace(evs, rich.pats))
        return out
    rnd = [t for p in parallel(job, range(28)) for t in p]
    run.count('random_schemas', sum(len(t['ev']) for t in rnd))
    run.count('refused', sum(e['r'][0] == 'err' for t in traces + rnd for e in t['ev']))
    run.sample({'schema': mats[len(mats) // 2]})
    run.sample(rnd[0]['ev'][3])
    run.traces('TraceCheck', traces + rnd, timeout=2400 if THOROUGH else 700)
