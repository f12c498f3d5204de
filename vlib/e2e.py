"""Suite G: a client built on the library against a server built on it (C27)."""
import json, os, random
from common import *
from session import raddr, rbody, LOCALS, HOSTS

NAMES = ['greet', 'mailok', 'rcptok', 'dataok', 'accepted', 'already', 'rcptbm', 'databr', 'databm', 'unimpl', 'unrec']
PLAIN = [(220, b'mx.test Service ready'), (250, b'Okay'), (250, b'Okay'), (354, b'go'), (250, b'Okay'), (503, b'already'),
         (503, b'no sender'), (503, b'no recipient'), (503, b'no sender yet'), (502, b'not implemented'), (500, b'what?')]


def model(rep, msgs, count, live):
    c = {'CfgOf': '<- ModelCfg', 'Script': '<- S', 'Bodies': '= {}', 'FromDecs': '= {}', 'ToDecs': '= {}', 'DataDecs': '= {}',
         'MailDecs': '= {}', 'Pipelined': 'FALSE', 'Emit': 'TRUE', 'Which': '"d"', 'Msgs': '<- Ms', 'Count': str(count),
         'Modes': '= {"l", "p", "x"}'}
    r = tlc('EndToEndMC', 'S == << >>\nMs == %s\n' % msgs,
            cfg_text(spec='ESpec', constants=c, invariants=['Understood', 'NothingInvented'],
                     properties=['ComesToAnEnd'] if live else []), timeout=3000)
    if r.violated:
        raise ToolError('the model of client and server violates %s:\n%s' % (r.violated, r.trace[-3000:]))
    rep.model(r)
    return [json.loads(x) for x in sorted(set(v[0] for v in r.prints.get('CONV', [])))]


def dec(d):
    return 'r%d.%s' % (d[0], hexs(d[1])) if d else 'a'


def msg_text(m, rng):
    b, chunks = bytes(m['b']), []
    while b:
        k = rng.choice([1, 2, 3, 5, 40, len(b)])
        chunks.append(b[:k])
        b = b[k:]
        if rng.random() < 0.05:
            chunks.append(b'')
    return '/'.join([(hexs(m['f']) or '-') + ';' + m.get('ps', b'').hex(), dec(m['df']),
                     ','.join('%s:%s' % (hexs(x['a']), dec(x['d'])) for x in m['t']), dec(m['dd']), dec(m['dm']),
                     ','.join(x.hex() for x in chunks), m.get('xs', '')])


def unit(i, cfg, mode, msgs, rng):
    return Unit(['id=%s seed=%d mode=%s cfg=%s msgs=%s' % (
        i, rng.randrange(1 << 40), mode, ','.join('%d:%s' % (c, t.hex()) for c, t in cfg),
        '|'.join(msg_text(m, rng) for m in msgs))], [i])


def rtext(rng):
    r = rng.random()
    if r < 0.5:
        return rng.choice([b'ok', b'', b'-', b' ', b'a b\tc', b'250 fake', b'.', b'x' * 505, b'y' * 506, b'z' * 507])
    return bytes(rng.choice(b' \tabcXYZ019-.,<>@!~') for _ in range(rng.choice([3, 20, 200, 506, 507, 1012, 1013, 1600])))


def rcfg(rng):
    if rng.random() < 0.3:
        return PLAIN
    return [(rng.choice({2: [200, 220, 250, 299], 3: [354, 300, 399], 5: [400, 421, 500, 503, 599]}[k]), rtext(rng))
            for k in (2, 2, 2, 3, 2, 5, 5, 5, 5, 5, 5)]


def rdecs(rng, p):
    return [rng.choice([400, 450, 550, 554, 599]), list(rtext(rng))] if rng.random() < p else []


def rmsg(rng):
    return {'f': [] if rng.random() < 0.15 else list(raddr(rng)), 'df': rdecs(rng, 0.12),
            't': [{'a': list(raddr(rng)), 'd': rdecs(rng, 0.2)} for _ in range(rng.choice([1, 1, 2, 3, 6]))],
            'dd': rdecs(rng, 0.07), 'dm': rdecs(rng, 0.15),
            'b': list(rng.choice([rbody, rbody, lambda r: b'\r\n'.join(rbody(r) for _ in range(4)),
                                  lambda r: b'line\r\n' * 300])(rng)),
            'ps': rng.choice([b'', b'', b' SIZE=12', b' BODY=8BITMIME X', b' A=b C D=e.f']),
            'xs': ''.join(rng.choice('nvhtxq') for _ in range(rng.choice([0, 0, 0, 1, 2])))}


def big(rng, k):
    """Much of one thing."""
    m = dict(rmsg(rng), df=[], dd=[], dm=[], t=[{'a': list(b'x@y'), 'd': []}])
    if k == 0:
        return [dict(m, b=list(rng.choice([b'.\r\n', b'x' * 60 + b'\r\n', b'..\n']) * rng.choice([700, 3000, 15000])))]
    if k == 1:
        return [dict(m, b=list(b'x' * rng.choice([1000, 4096, 8191, 8192, 8193, 65536]) + rng.choice([b'', b'\r', b'\r\n', b'\r\n.'])))] * 2
    if k == 2:
        return [dict(m, t=[{'a': list(b'r%d@h' % i), 'd': rdecs(rng, 0.1)} for i in range(120)] + m['t'])]
    return [dict(m, b=list(b'm%d' % i), dm=rdecs(rng, 0.2), xs=rng.choice(['', 'q', 'tn'])) for i in range(50)]


def c27(rep, t):
    rng = random.Random(rep.seed * 1000003 + 27)
    convs = model(rep, 'MsgsFew', 2, True)
    if t:
        convs += model(rep, 'MsgsAll', 1, True) + model(rep, 'MsgsTiny', 3, False)
    rep.count('conversations_from_tlc', len(convs))
    us = []
    for c in convs if t else rng.sample(convs, min(len(convs), 700)):
        us.append(unit('k%d' % len(us), PLAIN, c['mode'], c['msgs'], rng))
    for _ in range(12000 if t else 900):
        us.append(unit('r%d' % len(us), rcfg(rng), rng.choice('lpx'), [rmsg(rng) for _ in range(rng.randrange(1, 5))], rng))
    for i in range(400 if t else 24):
        us.append(unit('b%d' % i, rng.choice([PLAIN, rcfg(rng)]), 'lpx'[i // 4 % 3], big(rng, i % 4), rng))
    recs, ins = [], {u.ids[0]: u.lines[0] for u in us}
    for d in run_harness('e2e', us):
        rep.executions += 1
        if 'crash' in d:
            rep.violation('C27: the process died on %s' % ins[d['id']][:1500], {'suite': 'e2e', 'unit': ins[d['id']]})
        else:
            recs.append(d)
    for k in range(0, len(recs), 2000):
        part = recs[k:k + 2000]
        p = tmpfile('recs.ndjson')
        with open(p, 'w') as f:
            for d in part:
                f.write(json.dumps({x: d[x] for x in ('cfg', 'mode', 'msgs', 'k', 'told', 'handed')}) + '\n')
        r = tlc('EndToEndTrace', '', cfg_text(init='Init', next_='Next'), env={'RECS': p})
        os.unlink(p)
        rep.model(r)
        rep.traces += len(part)
        for v in r.prints.get('BAD', []):
            d = part[v[0] - 1]
            rep.violation('C27: %s: told %d replies as expected (then %s), handed %s; scenario %s' % (
                v[1], v[2], json.dumps([[c, show(x, 60)] for c, x in d['told'][v[2]:v[2] + 2]]),
                [(show(h['f']), [show(x) for x in h['t']], show(h['b'], 80), h['ok']) for h in d['handed']][:3],
                ins[d['id']][:1500]), {'suite': 'e2e', 'unit': ins[d['id']], 'record': d, 'why': v[1]})
    if recs:
        d = recs[len(recs) // 2]
        rep.sample({'mode': d['mode'], 'handed': [(show(h['f']), [show(x) for x in h['t']], show(h['b'], 80)) for h in d['handed']][:2],
                    'told': [c for c, _ in d['told']]})
    rep.count('messages_handed_over', sum(len(d['handed']) for d in recs))


CHECKS = {'C27': c27}
