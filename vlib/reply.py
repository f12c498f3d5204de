"""Suite D: replies (C09) and reply lines (C18)."""
import json, random
from common import *

CRLF = b'\r\n'
OK = bytes([9]) + bytes(range(32, 127))
CODES = [0, 7, 42, 99, 100, 101, 110, 199, 211, 220, 221, 250, 251, 354, 409, 421, 450, 500, 550, 555, 599, 600, 900, 909, 990, 998, 999]
EDGES = [0, 1, 2, 3, 505, 506, 507, 508, 509, 510, 511, 512, 513, 1011, 1012, 1013, 1517, 1518, 1519, 2023, 2024, 2025]


def h(bs):
    return ','.join(hexs(b) for b in bs)


def model(rep, n):
    for spec, k, chars, invs, props, nn in (
            ('SpecR', '3', '{9, 32, 65}', ['LineOk', 'WellFormed', 'Received', 'Once'], ['Done'], n),
            ('SpecR', '1', '{32, 126}', ['LineOk', 'WellFormed', 'Received', 'Once'], ['Done'], n),
            ('LSpec', '3', '{50, 53, 32, 45, 13, 10, 65}', ['Exactly', 'Built'], [], n - 1)):
        r = tlc('Reply', '', cfg_text(spec=spec, constants={'K': k, 'N': str(nn), 'Codes': '= {0, 7, 25, 250, 999}', 'Chars': '= ' + chars},
                                      invariants=invs, properties=props), timeout=3000)
        if r.violated:
            raise ToolError('the reply model violates %s:\n%s' % (r.violated, r.trace[-3000:]))
        rep.model(r)


def run(rep, units):
    ins = {i: u.lines[0] for u in units for i in u.ids}
    recs = []
    for d in run_harness('reply', units):
        if 'crash' in d or d.get('hang'):
            rep.violation('%s on %s' % ('hangs' if d.get('hang') else 'the process died', ins[d['id']][:400]),
                          {'suite': 'reply', 'unit': ins[d['id']]})
        else:
            recs.append(d)
    rep.executions += len(recs)
    return recs


def judge(rep, prop, recs):
    for k in range(0, len(recs), 20000):
        part = recs[k:k + 20000]
        p = tmpfile('recs.ndjson')
        with open(p, 'w') as f:
            for d in part:
                f.write(json.dumps({x: v for x, v in d.items() if x not in ('id', 'via')}) + '\n')
        r = tlc('ReplyTrace', '', cfg_text(init='Init', next_='Next'), env={'RECS': p})
        rep.model(r)
        rep.traces += len(part)
        for i, why in r.prints.get('BAD', []):
            d = part[i - 1]
            what = ('named code %s (%d) with text %s, sent as %s' % (d['name'], d['code'], show(d['text']), show(d['sent'])) if d['t'] == 'n' else
                    'code made from %d' % d['code'] if d['t'] == 'u' else
                    'default reply %s of host %s: %d %s' % (d['name'], show(d['host']), d['code'], show(d['text'])) if d['t'] == 'd' else
                    'reply line %s' % show(d['in']) if d['t'] == 'l' else '%s code %d %stext %s' % (
                'building' if d['t'] == 'b' else 'reply sent as ' + d['via'], d['code'],
                'last %s ' % d['last'] if d['t'] == 'b' else '', show(d['text'])))
            rep.violation('%s: %s gave %s %s' % (why, what, d['k'], show(d.get('w', []))), {'suite': 'reply', 'record': d})
    for d in recs[::max(1, len(recs) // 5)]:
        rep.sample({'given': show(d['in'] if d['t'] == 'l' else d['text'], 60), 'result': d['k'], 'bytes': show(d.get('w', []), 60)})


def rtext(rng, n, alphabet=OK):
    return bytes(rng.choice(alphabet) for _ in range(n))


def build_units(rng, t):
    us = []
    n = 0

    def b(code, last, texts):
        nonlocal n
        n += 1
        us.append(Unit(['b id=b%d code=%d last=%d text=%s' % (n, code, last, h(texts))], ['b%d' % n]))
    for last in (0, 1):
        b(250, last, [bytes([c]) for c in range(256)] + [b'ab' + bytes([c]) for c in range(256)] + [bytes([c]) + b'ab' for c in range(256)])
        b(999, last, [b'x' * k for k in EDGES] + [b'x' * (k - 1) + bytes([c]) for k in (505, 506, 507) for c in (9, 10, 13, 31, 32, 126, 127, 128, 255)])
        for c in range(0, 1000):
            b(c, last, [b'', b'a b\tc'] if c in CODES else [b'A'])
        b(500, last, [rtext(rng, rng.randrange(0, 520), OK if rng.random() < 0.7 else OK + bytes(range(256))) for _ in range(3000 if t else 150)])
    return us


def c09(rep, t):
    rng = random.Random(rep.seed * 1000003 + 9)
    model(rep, 7 if t else 5)
    us = build_units(rng, t)
    n = 0
    for via in ('banner', 'refuse', 'okay'):
        for pend in (0, 1):
            jobs = [(250, [rtext(rng, k) for k in range(0, 24)]), (7, [rtext(rng, k) for k in EDGES]), (554, [b'a' * k for k in EDGES]),
                    (220, [bytes([c]) for c in OK] + [bytes([c]) * 507 for c in OK[::12]])]
            jobs += [(c, [b'', b'x', rtext(rng, rng.choice(EDGES))]) for c in CODES]
            jobs += [(rng.randrange(1000), [rtext(rng, rng.choice([rng.randrange(0, 40), rng.randrange(480, 540), rng.randrange(0, 3000)]))])
                     for _ in range(4000 if t else 120)]
            jobs += [(c, [b'-' * 3, b'250 OK']) for c in range(0, 1000, 1 if t else 13)]
            if t:
                jobs += [(451, [rtext(rng, k) for k in range(a, a + 40)]) for a in range(0, 2100, 40)]
            for c, texts in jobs:
                n += 1
                us.append(Unit(['s id=s%d code=%d via=%s pend=%d text=%s' % (n, c, via, pend, h(texts))], ['s%d' % n]))
    judge(rep, 'C09', run(rep, us))


def c18(rep, t):
    rng = random.Random(rep.seed * 1000003 + 18)
    model(rep, 7 if t else 5)
    us = build_units(rng, t)
    toks = [b'2', b'05', b' ', b'-', b'\r', b'\n', b'a', b'\xff', b'+', b'\r\n']
    for k in range(0, 7 if t else 6):
        for pre in ([b''] if k < 3 else [a + c for a in toks for c in toks]):
            i = 'e%d.%s' % (k, hexs(pre))
            us.append(Unit(['enum id=%s toks=%s len=%d pre=%s suf=%s' % (i, h(toks), max(0, k - 2) if pre else k, hexs(pre), hexs(b''))], [i]))
    us += [Unit(['enum id=f%d toks=%s len=%d pre= suf=0d0a' % (k, h([b'2', b'9', b'0', b' ', b'-', b'x', b'\r']), k)], ['f%d' % k])
           for k in range(0, 6 if t else 5)]
    us += [Unit(['enum id=g%d toks=%s len=%d pre=%s suf=0d0a' % (k, h([b'a', b'\r', b'\n', b'\t', b'\x00', b'\xe9', b'-']), k, hexs(b'354-'))], ['g%d' % k])
           for k in range(0, 6 if t else 5)]
    ins = []
    for b in (b'250 ok\r\n', b'999-a b\r\n', b'007 \r\n'):
        for p in range(len(b) + 1):
            ins.append(b[:p])
            for c in range(256):
                ins += [b[:p] + bytes([c]) + b[p:], b[:p] + bytes([c]) + b[p + 1:]]
    ins += [b'%03d%s%s\r\n' % (c, s, x) for c in range(1000) for s, x in ((b' ', b'Ok'), (b'-', b''))]
    ins += [b'250 ' + rtext(rng, k, OK + bytes(range(128, 256))) + CRLF for k in EDGES + [5000]]
    for _ in range(60000 if t else 5000):
        l = b'%03d' % rng.randrange(1000) + rng.choice([b' ', b'-']) + rtext(rng, rng.randrange(0, 20), OK + b'\r\n\x00\xff') + CRLF
        if rng.random() < 0.5:
            p = rng.randrange(len(l))
            l = l[:p] + rng.choice([b'', b' ', b'-', b'5', b'+', b'\r', b'\n', bytes([rng.randrange(256)])]) + l[p + rng.randrange(2):]
        ins.append(l)
    for k in range(0, len(ins), 500):
        us.append(Unit(['l id=l%d in=%s' % (k, h(ins[k:k + 500]))], ['l%d' % k]))
    judge(rep, 'C18', run(rep, us))


def c29(rep, t):
    rng = random.Random(rep.seed * 1000003 + 29)
    us = [Unit(['names id=n%d text=%s' % (i, h([x]))], ['n%d' % i]) for i, x in enumerate(
        [b'', b'no', b'x' * 507] + [rtext(rng, rng.randrange(1, 700)) for _ in range(60 if t else 6)])]
    us += [Unit(['defaults id=d%d text=%s' % (i, h([x]))], ['d%d' % i]) for i, x in enumerate(
        [b'h', b'mx.example.org', b'[127.0.0.1]', b'', b'a' * 600] + [rtext(rng, rng.randrange(1, 60)) for _ in range(20)])]
    step = 512
    for a in range(0, 65536 if t else 4096, step):
        us.append(Unit(['custom id=u%d from=%d to=%d text=%s' % (a, a, a + step - 1, h([b'ok']))], ['u%d' % a]))
    us.append(Unit(['custom id=v from=65000 to=65535 text=%s' % h([b'ok'])], ['v']))
    judge(rep, 'C29', run(rep, us))


CHECKS = {'C29': c29, 'C09': c09, 'C18': c18}
