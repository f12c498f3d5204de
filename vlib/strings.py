"""Suite I: texts as values (C31)."""
import json, random
from common import *

SIZES = [0, 1, 2, 15, 16, 29, 30, 31, 32, 33, 61, 62, 63, 64, 65, 90, 127, 128]


def value(n, k):
    return bytes(33 + ((k * 7 + j) % 90) for j in range(1, n + 1))


def unit(i, ops, end=0):
    return Unit(['id=%s end=%d ops=%s' % (i, end, ','.join(ops))], [str(i)])


def rhistory(rng, n):
    """A random history, keeping track of the lengths so that every operation makes sense."""
    ls, ops = [], []
    for k in range(n):
        x = rng.random()
        if not ls or x < 0.25:
            z = rng.choice(SIZES) if rng.random() < 0.7 else rng.randrange(0, 300)
            b = value(z, rng.randrange(3)) if rng.random() < 0.6 else bytes(rng.randrange(256) for _ in range(z))
            ops.append('n:%s:%s' % (rng.choice('vbtsow'), hexs(b)))
            ls.append(z)
        elif x < 0.4:
            i = rng.randrange(len(ls))
            ops.append('d:%d' % (i + 1))
            ls.append(ls[i])
        elif x < 0.65 and len(ls) > 1:
            i, j = rng.sample(range(len(ls)), 2)
            ops.append('j:%d:%d' % (i + 1, j + 1))
            z = ls[i] + ls[j]
            ls = [v for m, v in enumerate(ls) if m not in (i, j)] + [z]
        elif x < 0.85:
            i = rng.randrange(len(ls))
            z = ls[i]
            c = rng.choice([1, 2, 7, 15, 30, 31, 32, 33, 62, 506, 100000, max(1, z), max(1, z - 1), z + 1, max(1, z // 2), max(1, (z + 2) // 3)])
            q = (z + c - 1) // c
            if q > 8:
                continue
            ops.append('c:%d:%d' % (i + 1, c))
            ls += [min(c, z - m * c) for m in range(q)]
        if len(ls) > 8 or ls and x >= 0.85:
            i = rng.randrange(len(ls))
            ops.append('x:%d' % (i + 1))
            del ls[i]
    return ops


def c31(rep, t):
    rng = random.Random(rep.seed * 1000003 + 31)
    us = []
    for sizes, cuts, n, most in ([('{0, 30, 31, 32}', '{1, 16, 31, 64}', 4, 4), ('{1, 31, 33}', '{16, 32}', 5, 4)] if t else
                                 [('{0, 31, 32}', '{16, 31}', 3, 4), ('{1, 31}', '{16}', 4, 4)]):
        r = tlc('StringsMC', '', cfg_text(spec='MSpec', constants={'N': str(n), 'Sizes': '= ' + sizes, 'Cuts': '= ' + cuts, 'MostSlots': str(most), 'EmitIt': 'TRUE'},
                                          invariants=['CutWell', 'Emit']), timeout=3000)
        if r.violated:
            raise ToolError('the text model violates %s:\n%s' % (r.violated, r.trace[-3000:]))
        rep.model(r)
        hs = [json.loads(x[0]) for x in r.prints.get('HIST', [])]
        rep.count('histories_from_tlc', len(hs))
        for h in hs:
            ops = []
            for k, o in enumerate(h):
                ops.append('n:%s:%s' % (o[2], hexs(value(o[1], k))) if o[0] == 'new' else ':'.join([{'dup': 'd', 'join': 'j', 'chop': 'c', 'del': 'x'}[o[0]]] + [str(x) for x in o[1:]]))
            us.append(unit('m%d' % len(us), ops, 1))
    us += [unit('r%d' % i, rhistory(rng, rng.randrange(3, 25)) or ['n:v:']) for i in range(20000 if t else 1500)]
    # every length against every cut
    for z in range(0, 140 if t else 70):
        ops = ['n:%s:%s' % ('vbtsow'[z % 6], hexs(value(z, z)))]
        for c in range(max(1, z // 12), z + 3):
            us.append(unit('c%d' % len(us), ops + ['c:1:%d' % c], 1))
    recs = []
    ins = {i: u.lines[0] for u in us for i in u.ids}
    for d in run_harness('strings', us):
        if 'ev' in d:
            recs.append(d)
        else:
            rep.violation('a history of text operations hangs or ends the process: %s' % ins[d['id']][:300], {'suite': 'strings', 'record': d, 'unit': ins[d['id']]})
    rep.executions += len(recs)
    done = 0
    for j in range(0, len(recs), 5000):
        part = recs[j:j + 5000]
        p = tmpfile('traces.ndjson')
        with open(p, 'w') as f:
            for d in part:
                f.write(json.dumps({'ev': d['ev']}) + '\n')
        r = tlc('StringsTrace', '', cfg_text(spec='TSpec'), env={'TRACES': p})
        rep.model(r)
        rep.traces += len(part)
        done += len(r.prints.get('DONE', [])) + len(r.prints.get('REJECT', []))
        for i, l, why in r.prints.get('REJECT', []):
            d = part[i - 1]
            rep.violation('%s after %s of history %s' % (why, json.dumps(d['ev'][l - 1]['op'])[:200], ins[d['id']][:300]), {'suite': 'strings', 'record': d})
    if done != len(recs) and not incomplete:
        raise ToolError('%d of %d histories judged' % (done, len(recs)))
    for d in recs[::max(1, len(recs) // 5)]:
        rep.sample({'operations': [e['op'] if e['op'][0] != 'new' else ['new', len(e['op'][1])] for e in d['ev']][:8]})


CHECKS = {'C31': c31}
