"""Suite E: the push-back stream (C19)."""
import json, random
from common import *

INV = ['Rest', 'OneHeld', 'Next1', 'OnceEach', 'RefusedNever', 'InOrder', 'NoneLost']


def line(i, src, ops):
    return Unit(['id=%s src=%s ops=%s' % (i, ','.join(map(str, src)), ops)], [str(i)])


def run(rep, units):
    res = run_harness('pushback', units)
    rep.executions += len(res)
    return res


def c19(rep, t):
    rng = random.Random(rep.seed * 1000003 + 19)
    # every history, with what the specification says each operation returns
    n, m = (11, 5) if t else (8, 4)
    r = tlc('PushbackMC', '', cfg_text(spec='MSpec', constants={'N': str(n), 'M': str(m), 'EmitIt': 'TRUE'}, invariants=INV + ['Emit']),
            timeout=3000)
    if r.violated:
        raise ToolError('the push-back model violates %s:\n%s' % (r.violated, r.trace[-3000:]))
    rep.model(r)
    hs = [json.loads(x[0]) for x in r.prints.get('HIST', [])]
    us = [line(i, h['src'], ''.join(e[0][0] for e in h['hist'])) for i, h in enumerate(hs)]
    for h in hs:
        for e in h['hist']:
            if e[1] in ('pend', 'end'):
                e[2] = 0
    seen = set()
    for d in run(rep, us):
        seen.add(d['id'])
        h = hs[int(d['id'])]
        rep.traces += 1
        if d.get('hist') != h['hist']:
            rep.violation('a push-back stream over %s did %s instead of %s' % (h['src'], json.dumps(d.get('hist', d)), json.dumps(h['hist'])),
                          {'suite': 'pushback', 'record': d, 'expected': h})
    if len(seen) != len(hs) and not incomplete:
        raise ToolError('%d histories were not replayed' % (len(hs) - len(seen)))
    rep.count('histories_from_tlc', len(hs))
    rep.sample(hs[len(hs) // 2])
    # long histories
    us = []
    for i in range(2000 if t else 300):
        k, z, q = rng.randrange(0, 40), rng.random() * 0.6, rng.random() * 0.8
        src = [0 if rng.random() < z else j + 1 for j in range(k)]
        us.append(line('r%d' % i, src, ''.join('p' if rng.random() < q else 'r' for _ in range(rng.randrange(1, 120)))))
    recs = []
    for d in run(rep, us):
        if 'hist' in d:
            recs.append(d)
        else:
            rep.violation('a push-back stream hangs or ends the process: %s' % next(u.lines[0] for u in us if u.ids[0] == d['id']),
                          {'suite': 'pushback', 'record': d})
    p = tmpfile('traces.ndjson')
    with open(p, 'w') as f:
        for d in recs:
            f.write(json.dumps({'src': d['src'], 'hist': d['hist']}) + '\n')
    r = tlc('PushbackTrace', '', cfg_text(spec='TSpec'), env={'TRACES': p})
    rep.model(r)
    rep.traces += len(recs)
    for i, l, want, v in r.prints.get('REJECT', []):
        d = recs[i - 1]
        rep.violation('operation %d of %s over %s gave %s, not %s %s' % (
            l, ''.join(e[0][0] for e in d['hist']), d['src'], json.dumps(d['hist'][l - 1]), want, v), {'suite': 'pushback', 'record': d})
    if len(r.prints.get('REJECT', [])) + len(r.prints.get('DONE', [])) != len(recs):
        raise ToolError('%d of %d long histories judged' % (len(r.prints.get('DONE', [])), len(recs)))


CHECKS = {'C19': c19}
