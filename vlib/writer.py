"""Suite H: writing values to slow or failing outputs (C30)."""
import json, random
from common import *
import grammar

INV = ['Whole', 'Told', 'InOrder', 'Aligned', 'Emit']
LINES = [b'DATA', b'EHLO mail.example.org', b'EHLO [IPv6:::1]', b'HELO [1.2.3.4]', b'EXPN some list', b'HELP', b'HELP me please', b'NOOP', b'NOOP a b',
         b'QUIT', b'RSET', b'VRFY x', b'MAIL FROM:<>', b'MAIL FROM:<> SIZE=5', b'MAIL FROM:<a>', b'MAIL FROM:<a@b>', b'MAIL FROM:<"a b"@[1.2.3.4]> BODY=8BITMIME',
         b'MAIL FROM:<a@b> SMTPUTF8', b'MAIL FROM:<a@b> A=1 B=2 C D=4', b'RCPT TO:<a@[IPv6:1:2:3:4:5:6:7:8]>', b'RCPT TO:<postmaster>', b'RCPT TO:<a@b> NOTIFY=NEVER K']
ADDRS = [b'a', b'a@b', b'"a\\"b"@c.d', b'a@[1.2.3.4]', b'x.y@[IPv6:::1]']
REPLIES = [b'250 ok\r\n', b'250-\r\n', b'007 ' + b'x' * 506 + b'\r\n', b'554 \r\n']


def c30(rep, t):
    rng = random.Random(rep.seed * 1000003 + 30)
    n = 6 if t else 4
    scripts = set()
    for lens, emit in (('{<<3, 1, 0, 2>>, <<1, 1>>, <<0>>, <<>>, <<5>>}', 'FALSE'), ('{<<2, 2, 2, 2, 2, 2>>}', 'TRUE')):
        r = tlc('WriterMC', 'Lens0 == ' + lens, cfg_text(spec='MSpec', constants={'N': str(n), 'Lens': '<- Lens0', 'EmitIt': emit},
                                                         invariants=INV, properties=['Ends']), timeout=3000)
        if r.violated:
            raise ToolError('the writer model violates %s:\n%s' % (r.violated, r.trace[-3000:]))
        rep.model(r)
        scripts |= {''.join(json.loads(x[0])) for x in r.prints.get('SCRIPT', [])}
    scripts = sorted(x for x in scripts if x) + ['1' * 3000, '2' * 1500, '3i' * 600, '7' * 200, 'i' * 20, '']
    rep.count('schedules_from_tlc', len(scripts))
    us, k = [], 0

    def add(kind, ins, outs, off):
        nonlocal k
        for j in range(0, len(outs), 200):
            k += 1
            us.append(Unit(['id=w%d t=%s in=%s out=%s off=%d' % (k, kind, ','.join(hexs(b) for b in ins), ','.join(outs[j:j + 200]), 1 if off and j == 0 else 0)],
                           ['w%d' % k]))
    pool = [('c', b + b'\r\n') for b in LINES] + [('e', b) for b in ADDRS] + [('r', b) for b in REPLIES] + [
        ('s', b''), ('s', b'abc'), ('s', bytes(range(256))), ('n', b'')]
    for i, (kind, b) in enumerate(pool):
        add(kind, [b], scripts if t else scripts[i % 4::4] + scripts[-6:], True)
    for _ in range(4000 if t else 400):
        b = grammar.rline(rng, 0)
        outs = [''.join(rng.choice('1234aai') for _ in range(rng.randrange(1, 20))) + rng.choice(['', '', ':e', ':z', ':1', ':i']) for _ in range(6)]
        add('c', [b], outs, rng.random() < 0.2)
    ins = {i: u.lines[0] for u in us for i in u.ids}
    recs = []
    for d in run_harness('writer', us):
        if 'crash' in d or d.get('hang'):
            rep.violation('%s on %s' % ('hangs' if d.get('hang') else 'the process died', ins[d['id']][:400]), {'suite': 'writer', 'unit': ins[d['id']]})
        elif d.get('skip'):
            rep.count('lines_not_accepted')
        else:
            recs.append(d)
    rep.executions += len(recs)
    if len(recs) < 1000:
        raise ToolError('only %d runs' % len(recs))
    done = 0
    for j in range(0, len(recs), 20000):
        part = recs[j:j + 20000]
        p = tmpfile('traces.ndjson')
        with open(p, 'w') as f:
            for d in part:
                f.write(json.dumps({'w': d['w'], 'ev': d['ev']}) + '\n')
        r = tlc('WriterTrace', '', cfg_text(spec='TSpec'), env={'TRACES': p})
        rep.model(r)
        rep.traces += len(part)
        done += len(r.prints.get('DONE', [])) + len(r.prints.get('REJECT', []))
        for i, l, why in r.prints.get('REJECT', []):
            d = part[i - 1]
            rep.violation('writing %s to an output answering %s: %s (at %s)' % (show(d['w']), d['script'][:60], why, json.dumps(d['ev'][max(0, l - 3):l])[:300]),
                          {'suite': 'writer', 'record': d})
    if done != len(recs):
        raise ToolError('%d of %d runs judged' % (done, len(recs)))
    for d in recs[::len(recs) // 5]:
        rep.sample({'value': show(d['w'], 60), 'output': d['script'][:40], 'result': d['ev'][-1][0]})


CHECKS = {'C30': c30}
