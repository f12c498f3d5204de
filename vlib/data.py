"""Suite B: message bodies on the wire (C13, and C05/C06 for DataStream by itself)."""
import json, os, random
from common import *

ALPHA = [13, 10, 46, 120]
BITS = [b'.', b'\r', b'\n', b'\r\n', b'x', b'..', b'\r\n.', b'\r\n.\r\n', b'\r.', b'\n.', b'hello world', b'\x00\xff',
        b'\r\n..\r\n', b'y' * 70]


def model(rep, n):
    r = tlc('DataMC', '', cfg_text(spec='Spec', constants={'N': str(n), 'Alpha': '= {13, 10, 46, 120}'},
                                   invariants=['DecoderFinds', 'DecoderRight', 'DecoderPrefix', 'EncoderRight', 'RoundTrip']))
    if r.violated:
        raise ToolError('the body model violates %s:\n%s' % (r.violated, r.trace[-3000:]))
    rep.model(r)


def collect(rep, units):
    recs = []
    ins = {i: u.lines[0] for u in units for i in u.ids}
    for d in run_harness('data', units):
        if 'crash' in d:
            rep.violation('the process died on %s' % ins[d['id']], {'suite': 'data', 'unit': ins[d['id']]})
            continue
        recs.append(d)
        rep.executions += d['n']
    return recs


def judge(rep, prop, recs):
    for k in range(0, len(recs), 40000):
        part = recs[k:k + 40000]
        p = tmpfile('recs.ndjson')
        keep = ('t', 'in', 'out', 'ok', 'rest', 'k', 'err', 'fault', 'after', 'unfl')
        with open(p, 'w') as f:
            for d in part:
                f.write(json.dumps({x: runs(d[x]) if x in ('in', 'out', 'rest') else d[x] for x in keep if x in d}) + '\n')
        r = tlc('DataTrace', '', cfg_text(init='Init', next_='Next'), env={'RECS': p})
        os.unlink(p)
        rep.model(r)
        rep.traces += sum(d['n'] for d in part)
        for i, why in r.prints.get('BAD', []):
            d = part[i - 1]
            if relevant(prop, d, why):
                rep.violation('%s: %s: input %s, given %s, out %s' % (why, d['t'], show(d['in']), d.get('cut', ''),
                                                                     show(d['out'])), {'suite': 'data', 'record': d})
            else:
                rep.count('rejected_for_other_reasons')


def relevant(prop, d, why):
    if prop == 'C13':
        return d['t'] == 'sink'
    if d['t'] != 'stream':
        return False
    cutoff = why in ('cut-off-said-complete', 'cut-off-body-differs', 'rest-after-cut-off')
    if why in ('panic', 'stuck', 'hang'):
        return True
    return cutoff if prop == 'C06' else not cutoff


def enum_units(t, n, mode, fail=False):
    us = []
    for k in range(0, n + 1):
        pre = [[]] if k < 2 else [[a, b] for a in ALPHA for b in ALPHA]
        for p in pre:
            i = 'e%d.%s' % (k, hexs(p))
            us.append(Unit(['enum id=%s t=%s alpha=%s len=%d prefix=%s mode=%s%s' % (
                i, t, hexs(ALPHA), k, hexs(p), mode, ' fail=1' if fail else '')], [i]))
    return us


def rand_units(rng, t, count, bits=40, fail=False):
    us = []
    for i in range(count):
        p = rng.choice([0, 0, 0.3])
        b = b''.join(bytes([rng.randrange(256)]) if rng.random() < p else rng.choice(BITS) for _ in range(rng.randrange(0, bits)))
        us.append(Unit(['%s id=r%d in=%s mode=r%dx%d%s' % (t, i, b.hex(), rng.randrange(1 << 30), 12,
                                                           ' fail=1' if fail and i % 4 == 0 else '')], ['r%d' % i]))
    return us


ROUND = [(b'', b''), (b'.', b''), (b'..', b''), (b'\r\n.', b'\r\n'), (b'\r', b'\n.x'), (b'\r\n', b'.\r\n'), (b'x\r\n.', b'.y\r\n'),
         (b'\r\n.\r', b'\n'), (b'x', b'\r\n.x'), (b'.\r', b'.\r\n'), (b'\n.', b'\n.\n')]


def sweep_units(rng, t, thorough, ends=True):
    """Every byte value at every place around dots and line endings."""
    us = []
    for c in range(256):
        for j, (a, b) in enumerate(ROUND):
            for k in range(2 if thorough else 1):
                x = a + bytes([c] + ([rng.randrange(256)] if k else [])) + b + (b'\r\n.\r\n' if ends else b'')
                i = 's%d.%d.%d' % (c, j, k)
                us.append(Unit(['%s id=%s in=%s mode=%s' % (t, i, x.hex(), 'all' if thorough and len(x) < 12 else 'r%dx6' % rng.randrange(1 << 30))], [i]))
    return us


SPANS = [1, 3, 78, 998, 1022, 1023, 1024, 1460, 4092, 4093, 4094, 4095, 4096, 4097, 8190, 8191, 8192, 16384, 65533, 65535, 65536, 70000, 140000]


def big_body(rng, most=12):
    """Long runs of ordinary bytes with the bytes that matter between them."""
    b = rng.choice([b'', b'', b'', b'.', b'..', b'\r', b'\n', b'\r\n.', b'.\r', b'.\n', b'\n.'])
    for _ in range(rng.randrange(1, most)):
        b += b'y' * rng.choice([rng.choice(SPANS), rng.choice(SPANS[:12]), rng.randrange(1, 9000)])
        b += rng.choice([b'\r\n', b'\r\n', b'\r\n.', b'\r\n..', b'.', b'\r', b'\n', b'\r\n.\r', b'\n.\n', b'\r\r\n.', b'\r\n\r\n.x', b'..\r\n', b'\r\n.\n'])
    return b


def big_units(rng, t, count, ends=True):
    us = []
    for i in range(count):
        b = big_body(rng)
        if ends and rng.random() < 0.8:
            b += rng.choice([b'\r\n.\r\n', b'\r\n.\r\n', b'\r\n.\r\nMAIL FROM:<a>\r\n' + b'y' * rng.choice(SPANS)])
        us.append(Unit(['%s id=g%d in=%s mode=%s' % (t, i, b.hex(), rng.choice(['one', 'g%dx4' % rng.randrange(1 << 30), 'g%dx4' % rng.randrange(1 << 30)]))], ['g%d' % i]))
    return us


def stream_checks(rep, prop, rng, thorough):
    """DataStream by itself: every string over the alphabet in every cut."""
    recs = collect(rep, enum_units('stream', 8 if thorough else 6, 'all'))
    recs += collect(rep, rand_units(rng, 'stream', 8000 if thorough else 600))
    recs += collect(rep, big_units(rng, 'stream', 3000 if thorough else 200))
    recs += collect(rep, sweep_units(rng, 'stream', thorough))
    judge(rep, prop, recs)


def c13(rep, t):
    rng = random.Random(rep.seed * 1000003 + 13)
    model(rep, 9 if t else 7)
    recs = collect(rep, enum_units('sink', 8 if t else 5, 'all'))
    recs += collect(rep, enum_units('sink', 5 if t else 3, 'all', fail=True))
    recs += collect(rep, rand_units(rng, 'sink', 8000 if t else 300, fail=True))
    recs += collect(rep, big_units(rng, 'sink', 3000 if t else 200, ends=False))
    recs += collect(rep, sweep_units(rng, 'sink', t, ends=False))
    rep.sample({'input': show(recs[len(recs) // 2]['in']), 'sent': show(recs[len(recs) // 2]['out'])})
    rep.sample({'input': show(recs[-1]['in']), 'sent': show(recs[-1]['out'])})
    judge(rep, 'C13', recs)


CHECKS = {'C13': c13}
