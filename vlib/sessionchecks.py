"""What each session property explores."""
import random
from session import *
from common import *

CRLF = b'\r\n'


def G(script, **kw):
    d = {'script': script}
    d.update(kw)
    return d


def run_gens(rep, prop, gens, rng, cuts, limit, variants=None):
    rej = []
    for kw in gens:
        kw = dict(kw)
        lim = kw.pop('limit', limit)
        sim = kw.pop('sim', None)
        hs = histories(rep, prop, kw, limit=lim, rng=rng, sim=sim)
        rej += replay(rep, prop, hs, cuts=cuts, variants=variants)
    return rej


def pipelined_model(rep, prop, thorough):
    """The properties hold on the design whatever the pace of the client."""
    k = 4 if thorough else 3
    body, c = consts('ScriptCore(%d)' % k, pipelined=True, emit=False, mail='MailAll', bodies='BodiesCore')
    r = tlc('SessionMC', body, cfg_text(spec='MSpec', constants=c, invariants=INVARIANTS[prop]), timeout=3000)
    if r.violated:
        raise ToolError('the session model violates %s:\n%s' % (r.violated, r.trace[-3000:]))
    rep.model(r)


VARIANTS = [{}, {'fp': 1, 'sink': 'p1'}, {'body': 'c'}, {'body': 'k1', 'fp': 2}, {'sink': 'p2', 'body': 'c'}]


def generic(rep, prop, thorough, gens, rand, rcuts=some_cut, cuts='one,bytes,slow,r7x2', limit=None, pipelined=True, **kw):
    rng = random.Random(rep.seed * 1000003 + int(prop[1:]))
    if pipelined:
        pipelined_model(rep, prop, thorough)
    rej = run_gens(rep, prop, gens, rng, cuts, limit, VARIANTS)
    us = random_sessions(rng, rand, rcuts, **kw) + long_units(rng, SCALES * (20 if thorough else 2) + ['many', 'much']) + word_units(rng, 1000 if thorough else 40)
    if thorough:
        for _ in range(20):
            us += word_units(rng, 1000)
        us += long_units(rng, SCALES, 'H', 3)
    rej += validate(rep, record(rep, us))
    rej += validate(rep, record_big(rep, long_lines(rng, 600 if thorough else 40)))
    judge(rep, prop, rej)


def core_gens(thorough):
    if thorough:
        return [G('ScriptCore(6)'), G('ScriptWide(4)', f='FromAll'),
                G('ScriptTxn(4)', f='FromAll', to='ToAll', data='DataAll', bodies='BodiesEnd', limit=60000),
                G('ScriptMsg(4)', which='c', bodies='BodiesEnd', limit=60000), G('ScriptCore(5)', which='m'),
                G('ScriptCore(5)', which='s'),
                G('ScriptMsg(12)', bodies='BodiesEnd', to='ToAll', data='DataAll', f='FromAll', sim=(4000, 200))]
    return [G('ScriptCore(4)'), G('ScriptTxn(3)', f='FromFew', to='ToAll', data='DataAll', bodies='BodiesEnd', limit=2500),
            G('ScriptMsg(2)', which='c', bodies='BodiesEnd')]


def c01(rep, t):
    generic(rep, 'C01', t, core_gens(t) + [G('ScriptTxn(3)', which='s', to='ARR', bodies='BodiesEnd', limit=1500)],
            8000 if t else 250, bad=0.05, other=0.05, messages=0.6, n=(4, 14))


def c02(rep, t):
    gens = core_gens(t) + [G('ScriptCore(3)', which='m'), G('ScriptCore(3)', which='s'), G('ScriptOdd(3)', limit=2500)]
    generic(rep, 'C02', t, gens, 8000 if t else 250, n=(4, 14))


def c03(rep, t):
    gens = core_gens(t) + [G('ScriptWide(3)', f='FromAll', bodies='BodiesEnd'), G('ScriptCore(4)', which='s')]
    generic(rep, 'C03', t, gens, 8000 if t else 250, illegal=0.4, n=(4, 14))


def c12(rep, t):
    gens = [G('ScriptTxn(3)' if t else 'ScriptTxn(2)', f='FromAll', to='ToAll', data='DataAll', bodies='BodiesEnd',
              limit=100000 if t else 3000), G('ScriptTxn(4)', to='ToFew', data='DataFew', bodies='BodiesEnd', mail='{Accept}', limit=2500),
            G('ScriptMsg(2)', f='FromAll', to='ToAll', data='DataAll', bodies='BodiesEnd', limit=40000)] if t else [
            G('ScriptMsg(2)', f='FromAll', to='ToFew', data='DataFew', bodies='BodiesEnd', limit=1500)]
    gens += [G('ScriptCore(5)' if t else 'ScriptCore(3)')]
    generic(rep, 'C12', t, gens, 8000 if t else 250, bad=0.05, messages=0.4, n=(5, 14))


def c04(rep, t):
    """One log per input and decisions, whatever the cut."""
    rng = random.Random(rep.seed * 1000003 + 4)
    pipelined_model(rep, 'C04', t)
    gens = [G('ScriptCore(5)' if t else 'ScriptCore(3)'),
            G('ScriptData(5)' if t else 'ScriptData(3)', bodies='BodiesData', limit=30000 if t else 900),
            G('ScriptMsg(4)' if t else 'ScriptMsg(2)', bodies='BodiesEnd', which='c', limit=20000 if t else 300),
            G('ScriptOdd(3)', limit=20000 if t else 400)]
    rej = []
    for kw in gens:
        kw = dict(kw)
        lim = kw.pop('limit', None)
        hs = histories(rep, 'C04', kw, limit=lim, rng=rng)
        rej += replay(rep, 'C04', hs, cuts='one,bytes,slow,two,twop,r%dx%d' % (rep.seed, 40 if t else 8),
                      variants=VARIANTS)
    # what TLC's histories do not cover: random clients, all cuts in two and random cuts,
    # compared with one another and (one of them) with the specification
    us, meta = [], {}
    for i in range(4000 if t else 400):
        cuts = 'one,bytes,slow,two,r%dx%d' % (rng.randrange(1 << 30), 60 if t else 20)
        if i < (600 if t else 40) and i % 2:
            # large bodies in large packets
            s, decs = big_client(rng)
            cuts = 'one,g%dx12' % rng.randrange(1 << 30)
        elif i < (200 if t else 14):
            s, decs = long_session(rng, SCALES[i % len(SCALES)])
            cuts = 'one,bytes,r%dx6' % rng.randrange(1 << 30)
        else:
            s, decs = rclient(rng, rng.randrange(3, 8), cutoff=0.4)
        if not s:
            continue
        v = rvariant(rng)
        us.append(Unit([scenario('c%d' % i, [s], decs, cuts=cuts, out='p', **v)], ['c%d' % i]))
        meta['c%d' % i] = (s, decs, v)
    by = {}
    for d in run_harness('session', us):
        by.setdefault(d['id'], []).append(d)
    for i, ds in by.items():
        s, decs, v = meta[i]
        rep.executions += sum(d.get('n', 1) for d in ds)
        rep.traces += sum(d.get('n', 1) for d in ds)
        if len(ds) > 1:
            first = min(ds, key=lambda d: len(d.get('in', '')))
            rep.violation('C04: %d different courses for one input; cuts %s' % (
                len(ds), ' | '.join(d.get('in', 'crash')[:300] for d in ds[:3])),
                {'suite': 'session', 'input': s.hex(), 'decisions': [dec_text(x) for x in decs], 'variant': v,
                 'cuts': [d.get('in') for d in ds]})
    # a mismatch matters here if the same input goes differently when cut differently
    for r in rej:
        if r.cut_dependent:
            rep.violation('C04: ' + r.text(), {'suite': 'session', 'trace': r.trace, 'event': r.pos, 'why': r.why})
        else:
            rep.count('rejected_for_other_reasons')
            print('note: not as specified, but the same for every cut: ' + r.text()[:400])


C05_FIXED = [b'', b'.', b'..', b'...', b'\r', b'\n', b'\r\n', b'.\r', b'.\n', b'\r\n.', b'\r\n..', b'.x', b'\n.\r\n',
             b'\r\r\n.', b'\r\n.\n', b'\n.\n', b'\r.\r', b'a\r\n.\rb', b'\r\n.\r.\r', b'..\r\n.', b'.\r\r\n', b'\r\n.\r\r\n']


def message(body, before=b'', after=b'QUIT\r\n'):
    return before + b'MAIL FROM:<a@b>\r\nRCPT TO:<c@d>\r\nDATA\r\n' + body + after


def c05(rep, t):
    rng = random.Random(rep.seed * 1000003 + 5)
    pipelined_model(rep, 'C05', t)
    gens = [G('ScriptData(6)' if t else 'ScriptData(4)', bodies='BodiesData', limit=80000 if t else 2500),
            G('ScriptMsg(3)' if t else 'ScriptMsg(2)', bodies='BodiesEnd', limit=20000 if t else 400)]
    rej = run_gens(rep, 'C05', gens, rng, 'one,bytes,slow,two,r5x4', None, VARIANTS)
    us = []
    for i in range(6000 if t else 350):
        b = rng.choice(C05_FIXED) if i % 3 == 0 else rbody(rng)
        if rng.random() < 0.85:
            b += rng.choice([b'\r\n.\r\n', b'.\r\n' if b == b'' or b.endswith(CRLF) else b'\r\n.\r\n'])
        after = rng.choice([b'QUIT\r\n', b'.\r\nNOOP\r\n', b'', message(rbody(rng) + b'\r\n.\r\n'), b'RCPT TO:<x>\r\nDATA\r\n'])
        decs = [{'d': []}] * 3 + [rdec(rng, 'mail')]
        us.append(single('b%d' % i, [message(b, after=after)], decs, cuts=some_cut(rng), **rvariant(rng)))
    us += long_units(rng, ['body', 'body', 'lines', 'mails'] * (20 if t else 2))
    rej += validate(rep, record(rep, us))
    rej += validate(rep, record_big(rep, big_sessions(rng, 3000 if t else 120)))
    import data
    data.model(rep, 8 if t else 6)
    data.stream_checks(rep, 'C05', rng, t)
    judge(rep, 'C05', rej)


def c06(rep, t):
    rng = random.Random(rep.seed * 1000003 + 6)
    pipelined_model(rep, 'C06', t)
    gens = [G('ScriptData(6)' if t else 'ScriptData(4)', bodies='BodiesData', limit=80000 if t else 2000)]
    rej = run_gens(rep, 'C06', gens, rng, 'one,bytes,slow,two', None, VARIANTS)
    us = []
    n = 0
    for k in range(120 if t else 12):
        body = b'\r\n'.join([rbody(rng), b'MAIL FROM:<x@y>', b'..' + rbody(rng), b'QUIT']) if k else b'a\r\n.b\r\n..\r\n\r\n.\rQUIT\r\nDATA\r\n.'
        s = message(body, after=b'')
        start = len(message(b'', after=b''))
        for cut in range(start, len(s) + 1):
            decs = [{'d': []}] * 3 + [rdec(rng, 'mail')]
            us.append(single('e%d' % n, [s[:cut]], decs, cuts=rng.choice(['asis', 'bytes', 'slow', 'r%dx1' % n]),
                             **rvariant(rng)))
            n += 1
    # long bodies, cut off
    for k in range(200 if t else 12):
        s, decs = long_session(rng, 'body')
        end = s.index(b'\r\n.\r\n')
        s = s[:rng.choice([end, end + 2, end + 3, end + 4, rng.randrange(100, end)])]
        us.append(single('f%d' % k, [s[i:i + 900] for i in range(0, len(s), 900)], decs, cuts=rng.choice(['asis', 'slow']), **rvariant(rng)))
    rej += validate(rep, record(rep, us))
    rej += validate(rep, record_big(rep, big_sessions(rng, 2000 if t else 80, cutoff=0.8)))
    import data
    data.model(rep, 8 if t else 6)
    data.stream_checks(rep, 'C06', rng, t)
    judge(rep, 'C06', rej)


def c07(rep, t):
    rng = random.Random(rep.seed * 1000003 + 7)
    pipelined_model(rep, 'C07', t)
    us = []
    for kw in ([G('ScriptCore(5)', limit=6000), G('ScriptMsg(3)', which='c', bodies='BodiesEnd', limit=3000)] if t else
               [G('ScriptCore(3)', limit=150), G('ScriptMsg(2)', which='c', bodies='BodiesEnd', limit=60)]):
        lim = kw.pop('limit')
        hs = histories(rep, 'C07', kw, limit=lim, rng=rng)
        for h in hs:
            if not h['sent']:
                continue
            # a client that sends a line, waits, sends the next; or pauses anywhere
            s = bytes(h['sent'])
            items = []
            for l in s.split(CRLF)[:-1]:
                items += ['p', l + CRLF]
            rest = s[sum(len(x) for x in items if isinstance(x, bytes)):]
            if rest:
                items += ['p', rest]
            items.append('p')
            us.append(single('l%d' % len(us), items, h['decs'], rep=h['which'], cuts=rng.choice(['asis', 'slow']),
                             **rng.choice(VARIANTS)))
    us += random_sessions(rng, 6000 if t else 300, lambda r: r.choice(['slow', 'twop', 'r%dx2' % r.randrange(1 << 30)])
                          if r.random() < 0.1 else 'r%dx1' % r.randrange(1 << 30))
    us += long_units(rng, SCALES * (20 if t else 2))
    rej = validate(rep, record(rep, us))
    judge(rep, 'C07', rej)


def c08(rep, t):
    """Every ready, send and flush of the output fails, one at a time."""
    rng = random.Random(rep.seed * 1000003 + 8)
    pipelined_model(rep, 'C08', t)
    base = [([message(b'hi\r\n.\r\n', after=b'NOOP\r\nQUIT\r\n')], [], 'd'),
            ([message(b'hi\r\n.\r\n', before=b'DATA\r\nRCPT TO:<q>\r\nBAD\r\n', after=b'MAIL FROM:<>\r\n')],
             [{'d': []}, {'d': [550, list(b'no')]}, {'d': []}, {'d': []}], 'c'),
            ([message(b'x\r\n.\r\n')], [{'d': []}, {'d': []}, {'d': [450, list(b'wait')]}], 'm'),
            ([b'MAIL FROM:<a>\r\n', 'p', b'MAIL FROM:<b>\r\nRCPT TO:<c>\r\n', 'p', b'DATA\r\nx\r\n.\r\n', 'p', b'BAD\r\n'],
             [{'d': []}, {'d': []}, {'d': []}, {'d': [554, list(b'bad')]}], 'c'),
            ([b'MAIL FROM:<a>\r\n'], [{'d': [550, list(b'refused' * 150)]}], 'd')]
    for i in range(150 if t else 12):
        s, decs = rclient(rng, rng.randrange(3, 8), messages=0.8)
        base.append(([s] if s else [], decs, rrep(rng, 'dmcs')))
    us = []
    for k, (items, decs, r) in enumerate(base):
        for kind in ('fr', 'fs', 'ff'):
            for n in range(1, 16 if t or k < 4 else 9):
                v = rng.choice([{}, {'fp': 1}])
                us.append(single('s%d%s%d' % (k, kind, n), items, decs, rep=r, sink='%s%d' % (kind, n) +
                                 rng.choice(['', '', '+p1']), cuts=rng.choice(['asis', 'asis', 'slow']), **v))
    # and late in long sessions
    for k in range(400 if t else 40):
        s, decs = long_session(rng, rng.choice(['rcpts', 'mails', 'bad', 'refused', 'mixed', 'codes']))
        items = [s] if len(s) < 3000 and rng.random() < 0.3 else [s[i:i + 1460] for i in range(0, len(s), 1460)]
        kind = rng.choice(['fr', 'fs', 'ff'])
        us.append(single('l%d' % k, items, decs, rep=rrep(rng, 'dmc'), sink='%s%d' % (kind, rng.randrange(1, 220)), cuts='asis', fp=rng.choice([0, 1])))
    tr = record(rep, us)
    rep.count('sessions_whose_output_failed', sum(1 for x in tr if any(e['e'] == 'outerr' for e in x['ev'])))
    rej = validate(rep, tr)
    judge(rep, 'C08', rej)


def c10(rep, t):
    """The stream ends at every position."""
    rng = random.Random(rep.seed * 1000003 + 10)
    pipelined_model(rep, 'C10', t)
    us = []
    base = [(b'EHLO a\r\n' + message(b'h.\r\n..\r\n.\r\n', after=b'MAIL FROM:<x>\r\nDATA\r\n'), [])]
    for i in range(60 if t else 3):
        s, decs = rclient(rng, rng.randrange(3, 7), cutoff=0, messages=0.8)
        base.append((s, decs))
    n = 0
    for s, decs in base:
        for cut in range(len(s) + 1):
            us.append(single('t%d' % n, [s[:cut]] if cut else [], decs, cuts=rng.choice(['asis', 'bytes', 'slow', 'r%dx1' % n])
                             if cut else 'asis', **rvariant(rng)))
            n += 1
    us += long_units(rng, SCALES * (10 if t else 1))
    gens = [G('ScriptCore(5)' if t else 'ScriptCore(3)')]
    rej = run_gens(rep, 'C10', gens, rng, 'one,bytes,slow', None, VARIANTS)
    rej += validate(rep, record(rep, us))
    rej += validate(rep, record_big(rep, long_lines(rng, 400 if t else 30)))
    judge(rep, 'C10', rej)


def garbage(rng):
    r = rng.random()
    if r < 0.25:
        return bytes(rng.randrange(256) for _ in range(rng.randrange(0, 30)))
    if r < 0.45:
        return bytes(rng.choice(b' \t\r\n.<>@:"\\[],=aA1-') for _ in range(rng.randrange(0, 25)))
    l = bytearray(rng.choice(OTHER + BADLINES + [b'MAIL FROM:<a@b.c> SIZE=1', b'RCPT TO:<@x,@y:"q q"@[IPv6:::1]>', b'DATA',
                                                b'EHLO [127.0.0.1]', b'MAIL FROM:<"\\"\\\\"@h>']))
    for _ in range(rng.randrange(1, 4)):
        p = rng.randrange(len(l) + 1)
        q = rng.random()
        if q < 0.35 and l:
            l[min(p, len(l) - 1)] = rng.randrange(256)
        elif q < 0.6:
            l[p:p] = bytes([rng.choice(b' \t\r\n.<>@:"\\[],=\x00\xff\x7f')])
        elif q < 0.8:
            del l[p:p + rng.randrange(1, 4)]
        else:
            l[p:p] = l[:rng.randrange(len(l) + 1)]
    return bytes(l)


def c11(rep, t):
    rng = random.Random(rep.seed * 1000003 + 11)
    pipelined_model(rep, 'C11', t)
    kw = G('ScriptCore(3)' if t else 'ScriptCore(2)')
    liveness(rep, 'C11', kw)
    us = []
    for i in range(5000 if t else 250):
        parts = []
        for _ in range(rng.randrange(1, 8)):
            parts.append(garbage(rng) + rng.choice([CRLF, CRLF, CRLF, b'\n', b'\r', b'']))
        if rng.random() < 0.3:
            parts.insert(rng.randrange(len(parts) + 1), b'MAIL FROM:<a@b>\r\nRCPT TO:<c>\r\nDATA\r\n')
        s = b''.join(parts)
        us.append(single('g%d' % i, [s], [], cuts=some_cut(rng), **rvariant(rng)))
    for i, s in enumerate([b'a' * 70000 + CRLF, b'\r\n' * 3000, b'MAIL FROM:<' + b'a.' * 4000 + b'a@b>\r\n',
                           b'\r' * 5000 + CRLF, b'MAIL FROM:<a>' + b' A=b' * 1500 + CRLF,
                           b'MAIL FROM:<' + b'@h.i,' * 3000 + b'@j:a@b>\r\n', b'RCPT TO:<"' + b'\\"' * 8000 + b'"@b>\r\n', b'MAIL FROM:<a@' + b'b.' * 9000 + b'c>\r\n',
                           b'MAIL FROM:<a@[IPv6:' + b'1:' * 8000 + b':1]>\r\n', b'MAIL FROM:<a@[' + b'1.' * 8000 + b'1]>\r\n', b' ' * 20000 + b'EHLO a\r\n',
                           b'MAIL FROM:' + b' ' * 20000 + b'<a@b>' + b' \t' * 9000 + b'\r\n', b'EHLO ' + b'-' * 20000 + b'\r\n', b'MAIL FROM:' + b'<' * 20000 + CRLF,
                           b'EHLO ' + b'a-' * 9000 + b'b\r\n', b'NOOP ' + b'\x00\xff' * 10000 + CRLF]):
        us.append(Unit([scenario('big%d' % i, [s], [], out='p')], ['big%d' % i]))
    us += random_sessions(rng, 3000 if t else 120, some_cut, bad=0.5) + long_units(rng, SCALES * (10 if t else 1) + ['bad', 'lines', 'much'])
    rej = []
    gens = [G('ScriptOdd(3)', limit=20000 if t else 1500)]
    rej += run_gens(rep, 'C11', gens, rng, 'one,bytes,two', None, VARIANTS)
    recs = record(rep, us)
    big = [x for x in recs if 'log' in x]
    for x in big:
        if not x['log'] or x['log'][-1] != {'e': 'end', 'r': 'ok'}:
            rep.violation('C11: large input %s: the session ended with %s' % (x['id'], json.dumps(x['log'][-1:])[:300]),
                          {'suite': 'session', 'id': x['id']})
    rej += validate(rep, [x for x in recs if 'log' not in x])
    rej += validate(rep, record_big(rep, long_lines(rng, 400 if t else 30)))
    # parsers on arbitrary bytes
    import grammar
    grammar.no_crash(rep, 'C11', rng, 200000 if t else 30000)
    judge(rep, 'C11', rej)


def c25(rep, t):
    """Sessions served together, one after the other with one configuration, and in threads
    do what each does alone."""
    rng = random.Random(rep.seed * 1000003 + 25)
    pipelined_model(rep, 'C25', t)
    gens = [G('ScriptMsg(3)' if t else 'ScriptMsg(2)', bodies='BodiesEnd', limit=8000 if t else 300),
            G('ScriptTxn(3)', to='ToAll', data='DataAll', which='c', bodies='BodiesEnd', limit=8000 if t else 300),
            G('ScriptCore(4)' if t else 'ScriptCore(3)', which='m', limit=4000 if t else 200)]
    pool = []
    for kw in gens:
        lim = kw.pop('limit')
        for h in histories(rep, 'C25', kw, limit=lim, rng=rng):
            if h['sent']:
                pool.append(([bytes(h['sent'])], h['decs'], h['which'], canon(h['hist'])))
    for i in range(2000 if t else 150):
        s, decs = rclient(rng, rng.randrange(3, 9))
        if s:
            pool.append(([s], decs, rrep(rng, 'dmcs', 60), None))

    for k in SCALES * (20 if t else 2):
        s, decs = long_session(rng, k)
        pool.append(([s], decs, rrep(rng, 'dc', 60), None))

    def chop(items):
        s, out = b''.join(items), []
        p = 0
        while p < len(s):
            k = rng.randrange(1, 30 if len(s) < 2500 else 300)
            if rng.random() < 0.6:
                out.append('p')
            out.append(s[p:p + k])
            p += k
        return out + ['p']
    units, alone, want = [], [], {}
    n = 0
    small = [m for m in pool if sum(map(len, m[0])) < 400]
    # a few crowds
    crowds = [rng.randrange(70, 300) for _ in range(30 if t else 6)]
    for g in range(-len(crowds), 3000 if t else 260):
        mode = ['together', 'after', 'threads'][g % 3]
        members = [rng.choice(pool) for _ in range(rng.randrange(2, 5))]
        if g < 0:
            # (threads need stacks, and memory is limited)
            members = [rng.choice(small) for _ in range(crowds[g] if mode != 'threads' else 10)]
        if mode != 'after' and rng.random() < 0.6:
            # configurations that differ in what they say alone
            members = [(items, decs, r if r == 's' else 'y%d' % rng.randrange(1000000), None) for items, decs, r, h in members]
        if mode == 'after':
            members = [m for m in (members if g >= 0 else small * 3) if m[2] == members[0][2]][:300]
            while len(members) < 2:
                members.append(members[0])
        lines, ids = [], []
        for items, decs, r, h in members:
            i = 'p%d' % n
            n += 1
            items = chop(items)
            v = rng.choice(VARIANTS) if mode != 'after' else {}
            sc = scenario(i, items, decs, rep=r, **v)
            lines.append('+ ' + sc)
            ids.append(i)
            alone.append(Unit([sc], [i]))
            want[i] = (h, sc, mode)
        lines.append({'together': 'together %d' % rng.randrange(1 << 40), 'after': 'after', 'threads': 'threads'}[mode])
        units.append(Unit(lines, ids))
    together = run_harness('session', units)
    solo = {d['id']: d for d in run_harness('session', alone)}
    rep.executions += len(together) + len(solo)
    check = []
    for d in together:
        h, sc, mode = want[d['id']]
        s = solo.get(d['id'])
        rep.traces += 1
        rep.count('sessions_' + mode)
        if 'crash' in d:
            rep.violation('C25: the process died serving sessions %s; first scenario %s' % (mode, sc[:1500]),
                          {'suite': 'session', 'scenario': sc})
        elif s is None or 'crash' in s:
            continue
        elif d['ev'] != s['ev']:
            k = next((k for k, (x, y) in enumerate(zip(d['ev'], s['ev'])) if x != y), min(len(d['ev']), len(s['ev'])))
            rep.violation('C25: served %s, session %s did %s instead of %s; scenario %s' % (
                mode, d['id'], json.dumps(d['ev'][k:k + 1])[:300], json.dumps(s['ev'][k:k + 1])[:300], sc[:1200]),
                {'suite': 'session', 'scenario': sc, 'mode': mode, 'together': d['ev'], 'alone': s['ev']})
        else:
            check.append(d)
    if together:
        rep.sample({'group': [l[:200] for l in units[0].lines]})
    rej = validate(rep, rng.sample(check, min(len(check), 3000 if t else 250)))
    judge(rep, 'C25', rej)


QUITS = ['q0', 'q1', 'q2', 'q3', 'x0', 'x1', 'x2', 'e', 'e']


def evil_body(rng):
    b = b''
    for _ in range(rng.randrange(1, 6)):
        b += rng.choice([b'MAIL FROM:<evil@x>\r\n', b'RCPT TO:<evil@y>\r\n', b'DATA\r\n', b'RSET\r\n', b'QUIT\r\n', b'..\r\n',
                         b'..MAIL FROM:<evil@x>\r\n', b'hello\r\n', b'\r\n', b'\r\n.\rMAIL FROM:<evil@z>\r\n', b'x' * 30,
                         rbody(rng)])
    return b


def c26(rep, t):
    """Handlers that give a message up without reading it to its end: TLC's histories and random
    clients supply the inputs; what the real session does is judged by TLC."""
    rng = random.Random(rep.seed * 1000003 + 26)
    body, c = consts('ScriptEvil(%d)' % (2 if t else 1), pipelined=True, emit=False, mail='MailQuits', bodies='BodiesEvil',
                     f='{Accept}', to='{Accept}', data='{Accept}')
    r = tlc('SessionMC', body, cfg_text(spec='MSpec', constants=c, invariants=INVARIANTS['C26']), timeout=3000)
    if r.violated:
        raise ToolError('the session model violates %s:\n%s' % (r.violated, r.trace[-3000:]))
    rep.model(r)
    us = []
    stim = set()
    hs = histories(rep, 'C26', G('ScriptEvil(3)' if t else 'ScriptEvil(2)', mail='MailQuits', bodies='BodiesEvil',
                                 f='{Accept}', to='{Accept}', data='{Accept}'))
    for h in hs:
        stim.add((bytes(h['sent']), tuple(dec_text(x) for x in h['decs'])))
    stim = sorted(stim)
    rep.count('inputs_from_tlc', len(stim))
    for s, decs in stim if t else rng.sample(stim, min(len(stim), 350)):
        for cut in ('asis', 'bytes') if t else (rng.choice(['asis', 'bytes', 'slow']),):
            us.append(single('q%d' % len(us), [s], decs, cuts=cut, rep=rng.choice('dc'), **rng.choice(VARIANTS)))
    for i in range(5000 if t else 350):
        s, decs = b'', []
        for _ in range(rng.randrange(1, 4)):
            b = evil_body(rng)
            if rng.random() < 0.85:
                b += b'.\r\n' if b.endswith(CRLF) else b'\r\n.\r\n'
            s += message(b, after=rng.choice([b'', b'NOOP\r\n', b'MAIL FROM:<n@m>\r\nRCPT TO:<o@p>\r\n']))
            x = rdec(rng, 'mail')
            if rng.random() < 0.7:
                x['q'] = rng.choice(QUITS)
            decs += [{'d': []}, {'d': []}, {'d': []}, x]
        us.append(single('z%d' % i, [s], decs, cuts=some_cut(rng), **dict(rvariant(rng), rep=rrep(rng, 'dc'))))
    tr = record(rep, us)
    rep.count('messages_given_up', sum(1 for x in tr for e in x['ev'] if e['e'] == 'quit'))
    rej = validate(rep, tr)
    judge(rep, 'C26', rej)


def c28(rep, t):
    """The server takes no input it does not need, and holds none of a body back."""
    rng = random.Random(rep.seed * 1000003 + 28)
    us = []
    for kw in [G('ScriptCore(5)' if t else 'ScriptCore(3)', limit=8000 if t else 250),
               G('ScriptData(5)' if t else 'ScriptData(3)', bodies='BodiesData', limit=20000 if t else 500),
               G('ScriptMsg(3)' if t else 'ScriptMsg(2)', which='c', bodies='BodiesEnd', to='ToFew', limit=8000 if t else 150)]:
        lim = kw.pop('limit')
        hs = histories(rep, 'C28', kw, limit=lim, rng=rng)
        rep.count('histories_from_tlc', len(hs))
        for h in hs:
            if h['sent']:
                us.append(single('h%d' % len(us), [bytes(h['sent'])], h['decs'], rep=h['which'],
                                 cuts=rng.choice(['slow', 'slow', 'bytes', 'asis', 'r%dx1' % rng.randrange(1 << 30)]),
                                 **rng.choice(VARIANTS)))
    for i in range(5000 if t else 300):
        s, decs = rclient(rng, rng.randrange(3, 9), messages=0.6)
        if s:
            us.append(single('r%d' % i, [s], decs, cuts=some_cut(rng), **rvariant(rng)))
    # bodies that arrive slowly, in packets of every size
    for i in range(3000 if t else 200):
        b = b''.join(rng.choice([rbody(rng), b'line\r\n', b'.', b'..\r\n', b'\r', b'x' * rng.randrange(80), b'\r\n.']) for _ in range(rng.randrange(1, 9)))
        s = message(b, after=b'' if rng.random() < 0.3 else b'\r\n.\r\nQUIT\r\n')
        k, items = rng.choice([1, 2, 3, 5, 17, 60]), []
        for p in range(0, len(s), k):
            items += [s[p:p + k]] + (['p'] if rng.random() < 0.8 else [])
        us.append(single('b%d' % i, items + ['p'], [{'d': []}] * 3 + [rdec(rng, 'mail')], cuts='asis', **rvariant(rng)))
    us += long_units(rng, SCALES * (20 if t else 2))
    # a handler that gathers the body before it is recorded shows nothing here
    us = [Unit([l.replace(' body=c ', ' body=n ') for l in u.lines], u.ids) for u in us]
    tr = record(rep, us)
    rep.count('waits_inside_a_body', sum(1 for x in tr for k, e in enumerate(x['ev']) if e['e'] == 'pend'
                                         and any(f['e'] == 'body' for f in x['ev'][max(0, k - 3):k])))
    judge(rep, 'C28', validate(rep, tr))


def c34(rep, t):
    """Handlers that go on asking for more of a body that has ended."""
    rng = random.Random(rep.seed * 1000003 + 34)
    k = 4 if t else 3
    for pipelined, script, bodies in ((True, 'ScriptCore(%d)' % k, 'BodiesCore'), (False, 'ScriptData(%d)' % k, 'BodiesData')):
        body, c = consts(script, pipelined=pipelined, emit=False, bodies=bodies)
        r = tlc('SessionMC', body, cfg_text(spec='MSpec', constants=c, invariants=INVARIANTS['C34'], properties=['EndIsFinal']), timeout=3000)
        if r.violated:
            raise ToolError('the session model violates %s:\n%s' % (r.violated, r.trace[-3000:]))
        rep.model(r)
    us = []
    more = lambda: rng.choice([(0, 0), (1, 0), (0, 1), (1, 1), (2, 2), (rng.randrange(4), rng.randrange(4))])
    for kw in [G('ScriptData(5)' if t else 'ScriptData(3)', bodies='BodiesData', limit=20000 if t else 500),
               G('ScriptMsg(3)' if t else 'ScriptMsg(2)', which='c', bodies='BodiesEnd', limit=8000 if t else 200)]:
        lim = kw.pop('limit')
        hs = histories(rep, 'C34', kw, limit=lim, rng=rng)
        rep.count('histories_from_tlc', len(hs))
        for h in hs:
            if h['sent']:
                us.append(single('h%d' % len(us), [bytes(h['sent'])], h['decs'], rep=h['which'], cuts=some_cut(rng), more=more(),
                                 **rng.choice(VARIANTS)))
    for i in range(5000 if t else 400):
        s, decs = rclient(rng, rng.randrange(4, 10), bad=0.05, other=0.05, illegal=0.05, messages=0.7, cutoff=0.5)
        if s:
            us.append(single('r%d' % i, [s], decs, cuts=some_cut(rng), more=more(), **rvariant(rng)))
    for i in range(2000 if t else 200):
        b = b''.join(rng.choice([rbody(rng), b'line\r\n', b'.', b'..\r\n', b'x' * rng.randrange(80)]) for _ in range(rng.randrange(0, 6)))
        s = message(b, after=b'')
        end = rng.choice([b'\r\n.\r\n'] * 3 + [b'', b'\r', b'\r\n', b'\r\n.', b'\r\n.\r'])
        if end.endswith(b'.\r\n'):
            end += rng.choice([b'', b'QUIT\r\n', b'NOOP\r\nMAIL FROM:<n@m>\r\nRCPT TO:<o@p>\r\nDATA\r\nlast\r\n.\r\n', b'..\r\n.\r\n', b'BAD'])
        us.append(single('b%d' % i, [s + end], [{'d': []}] * 3 + [rdec(rng, 'mail')], cuts=some_cut(rng), more=more(), **rvariant(rng)))
    tr = record(rep, us)
    rep.count('bodies_asked_for_more', sum(1 for x in tr for e in x['ev'] if e['e'] == 'more'))
    judge(rep, 'C34', validate(rep, tr))


CHECKS = {'C34': c34, 'C28': c28, 'C26': c26, 'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08,
          'C10': c10, 'C11': c11, 'C12': c12, 'C25': c25}
