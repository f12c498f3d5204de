"""Suite K: views of byte strings (C33)."""
import json, random
from common import *

TEXTS = [b'RSET \r\n', b'MAIL FROM:<Foo@Bar.example> SIZE=1\r\n', 'dé→𐍈é'.encode(), b'\xed\xa0\x80\xed\x9f\xbf', b'\xf4\x8f\xbf\xbf\xf4\x90\x80\x80', b'\xc0\xaf\xe0\x9f\xbf\xe0\xa0\x80',
         b'aAaaAaab', b'[@`{Zz', b'', b'\x00\xff', b'abababac']


def rhistory(rng, n, size):
    ls, ops = [size], []
    for _ in range(n):
        i = rng.randrange(len(ls)) if rng.random() < 0.5 else len(ls) - 1
        z = ls[i]
        # mostly inside, sometimes just outside, or inside the string and outside the view
        pick = lambda: rng.randrange(z + 1) if rng.random() < 0.85 else rng.choice([z, z + 1, size, size + 1, rng.randrange(size + 2)])
        a, b = pick(), pick()
        if a > b and rng.random() < 0.9:
            a, b = b, a
        k = rng.choice('rrrtfac')
        ops.append({'r': 'r:%d:%d:%d' % (i + 1, a, b), 't': 't:%d:%d' % (i + 1, b), 'f': 'f:%d:%d' % (i + 1, a)}.get(k, '%s:%d' % (k, i + 1)))
        if k == 'r' and a <= b <= z:
            ls.append(b - a)
        elif k == 't' and b <= z:
            ls.append(b)
        elif k == 'f' and a <= z:
            ls.append(z - a)
        elif k in 'ac':
            ls.append(z)
    return ops


def c33(rep, t):
    rng = random.Random(rep.seed * 1000003 + 33)
    us = []

    def add(kind, base, ops):
        i = '%s%d' % (kind, len(us))
        us.append(Unit(['id=%s base=%s:%s ops=%s probe=%d' % (i, 'vso'[len(us) % 3], hexs(base), ','.join(ops), rng.randrange(1 << 31))], [i]))
    for sizes, n in ([('{0, 1, 2, 3}', 3), ('{4}', 2), ('{2}', 4)] if t else [('{0, 1, 2}', 2), ('{4}', 2), ('{2}', 3)]):
        r = tlc('ViewMC', '', cfg_text(spec='MSpec', constants={'N': str(n), 'Sizes': '= ' + sizes, 'EmitIt': 'TRUE'}, invariants=['Stands', 'Questions', 'Emit']), timeout=3000)
        if r.violated:
            raise ToolError('the model of views violates %s:\n%s' % (r.violated, r.trace[-3000:]))
        rep.model(r)
        hs = [json.loads(x[0]) for x in r.prints.get('HIST', [])]
        rep.count('histories_from_tlc', len(hs))
        most = 60000 if t else 12000
        if len(hs) > most:
            hs = rng.sample(hs, most)
        for base, h in hs:
            add('m', bytes(base), [':'.join([{'range': 'r', 'to': 't', 'from': 'f', 'full': 'a', 'copy': 'c'}[o[0]]] + [str(x) for x in o[1:]]) for o in h])
    # each text cut everywhere, and each cut cut again
    for b in TEXTS:
        for x in range(len(b) + 1):
            for y in range(x, len(b) + 1):
                add('t', b, ['r:1:%d:%d' % (x, y), 'f:1:%d' % x, 't:1:%d' % y, 't:2:%d' % (y - x + 1), 'f:2:%d' % ((y - x + 1) // 2), 'r:2:%d:%d' % ((y - x) // 2, y - x)])
    for i in range(20000 if t else 2500):
        b = rng.choice(TEXTS) if rng.random() < 0.3 else bytes(rng.choice([rng.randrange(256), rng.choice(b'aAzZ@[`{. \r\n'), rng.randrange(128)]) for _ in range(rng.choice([0, 1, 5, 31, 32, 33, 64, 80])))
        if rng.random() < 0.4:
            b = ''.join(rng.choice(['a', 'é', '→', '𐍈', 'Z', '\x7f', '\u0800', '\ud7ff', '\U0010ffff', '\U00010000']) for _ in range(rng.randrange(1, 12))).encode()
            if rng.random() < 0.4:
                k = rng.randrange(len(b))
                b = b[:k] + bytes([b[k] ^ (1 << rng.randrange(8))]) + b[k + 1:]
        add('r', b, rhistory(rng, rng.randrange(1, 12), len(b)))
    recs = []
    ins = {i: u.lines[0] for u in us for i in u.ids}
    for d in run_harness('view', us):
        if 'ev' in d:
            recs.append(d)
        else:
            rep.violation('a history of cuts hangs or ends the process: %s' % ins[d['id']][:300], {'suite': 'view', 'record': d, 'unit': ins[d['id']]})
    rep.executions += len(recs)
    done = 0
    for j in range(0, len(recs), 5000):
        part = recs[j:j + 5000]
        p = tmpfile('traces.ndjson')
        with open(p, 'w') as f:
            for d in part:
                f.write(json.dumps({'base': d['base'], 'ev': d['ev']}) + '\n')
        r = tlc('ViewTrace', '', cfg_text(spec='TSpec'), env={'TRACES': p})
        rep.model(r)
        rep.traces += len(part)
        done += len(r.prints.get('DONE', [])) + len(r.prints.get('REJECT', []))
        for i, l, why in r.prints.get('REJECT', []):
            d = part[i - 1]
            rep.violation('%s at %s of history %s' % (why, json.dumps(d['ev'][l - 1]['op'])[:200], ins[d['id']][:300]), {'suite': 'view', 'record': d})
    if done != len(recs) and not incomplete:
        raise ToolError('%d of %d histories judged' % (done, len(recs)))
    for d in recs[::max(1, len(recs) // 5)]:
        rep.sample({'base': d['base'][:30], 'operations': [e['op'] for e in d['ev']][:8]})


CHECKS = {'C33': c33}
