"""Suite A: the session (C01-C08, C10-C12, C25), spec/Session*.tla against smtp_server::interact."""
import json, os, random
from common import *

# ------------------------------------------------------------------ scenarios

def dec_text(x):
    """A decision of SessionMC (or a dict of the same form) in the harness's notation."""
    t = ''
    adr = lambda a: '-' if bytes(a) == b'-' else hexs(a)     # "-": the null sender
    if x.get('set'):
        t += '!%s;' % adr(x['set'])
    if x.get('ef'):
        t += '~%s;' % adr(x['ef'])
    if x.get('pop'):
        t += '_;'
    if x.get('add'):
        t += '+%s;' % hexs(x['add'])
    if x.get('q'):
        t += '%%%s;' % x['q']
    d = x['d']
    return t + ('a' if not d else 'r%d:%s' % (d[0], hexs(d[1])))


def big_trace(t):
    """A recorded session with large bodies in the form TLC can judge quickly: runs as single
    numbers, the pieces of a body joined (a run may be cut between two of them)."""
    ev = []
    for k, e in enumerate(t['ev']):
        if e['e'] == 'body':
            b = e['b']
            for m in range(len(ev) - 1, -1, -1):
                if ev[m]['e'] == 'body':
                    b = ev[m]['b'] + b
                    del ev[m]
                    break
                if ev[m]['e'] not in ('rx', 'pend', 'eof'):
                    break
            ev.append({'e': 'body', 'b': b})
        else:
            ev.append(e)
    return dict(t, ev=[dict(e, b=runs(e['b'])) if e['e'] in ('rx', 'body') else e for e in ev])


def scenario(i, items, decs=(), rep='d', sink='', fp=0, body='n', cuts='asis', out='t', more=None):
    """items: list of bytes (a packet), 'p' or 'w'."""
    f = ['id=%s' % i, 'in=' + ','.join(x if isinstance(x, str) else 'h' + x.hex() for x in items)]
    if decs:
        f.append('dec=' + '|'.join(d if isinstance(d, str) else dec_text(d) for d in decs))
    f.append('rep=' + rep)
    if sink:
        f.append('sink=' + sink)
    if fp:
        f.append('fp=%d' % fp)
    if more:
        f.append('more=%d.%d' % more)
    f += ['body=' + body, 'cuts=' + cuts, 'out=' + out]
    return ' '.join(f)


# ------------------------------------------------------------------ TLC: design and histories

INVARIANTS = {
    'C01': ['Envelope'], 'C02': ['OneReplyEach', 'AllAnswered'], 'C03': ['LegalOrder'],
    'C04': ['BodiesMatch', 'OneReplyEach', 'AllAnswered'], 'C05': ['BodiesMatch'], 'C06': ['BodiesMatch', 'EndsProperly'],
    'C07': ['FlushedWhenIdle', 'Progress'], 'C08': ['TypeOK'], 'C10': ['EndsProperly', 'AllAnswered'],
    'C11': ['Progress', 'EndsProperly'], 'C12': ['Announced', 'Counted'], 'C25': ['TypeOK'],
    'C28': ['TakesWhenDone', 'FlushedWhenIdle', 'Progress'],
    'C34': ['BodiesMatch', 'OneReplyEach', 'AllAnswered'],
    'C26': ['NoSmuggling', 'OneReplyEach', 'LegalOrder', 'FlushedWhenIdle'],
}


def consts(script, bodies='BodiesCore', f='AR', to='AR', data='AR', mail='MailAll', pipelined=False,
           emit=True, which='d'):
    body = 'S == %s\nBo == %s\nDF == %s\nDT == %s\nDD == %s\nDM == %s\n' % (
        script, bodies, f, to, data, mail)
    c = {'CfgOf': '<- ModelCfg', 'Script': '<- S', 'Bodies': '<- Bo', 'FromDecs': '<- DF',
         'ToDecs': '<- DT', 'DataDecs': '<- DD', 'MailDecs': '<- DM',
         'Pipelined': 'TRUE' if pipelined else 'FALSE', 'Emit': 'TRUE' if emit else 'FALSE',
         'Which': '"%s"' % which}
    return body, c


def histories(rep, prop, kw, limit=None, rng=None, sim=None):
    """Model checks one bounded configuration and returns the histories it printed."""
    body, c = consts(**kw)
    args = ()
    if sim:
        args = ('-simulate', 'num=%d' % sim[0], '-depth', str(sim[1]), '-seed', str(rep.seed))
    r = tlc('SessionMC', body, cfg_text(spec='MSpec', constants=c, invariants=['TypeOK'] + [
        i for i in INVARIANTS[prop] if i != 'TypeOK']), args=args, timeout=3000)
    if r.violated:
        raise ToolError('the session model violates %s:\n%s' % (r.violated, r.trace[-3000:]))
    rep.model(r)
    hs, seen = [], set()
    for v in r.prints.get('HIST', []):
        if v[0] not in seen:
            seen.add(v[0])
            hs.append(json.loads(v[0]))
    for h in hs:
        h['which'] = kw.get('which', 'd')
    hs.sort(key=lambda h: json.dumps(h, sort_keys=True))
    if limit and len(hs) > limit:
        hs = rng.sample(hs, limit)
    return hs


def liveness(rep, prop, kw):
    body, c = consts(emit=False, **kw)
    r = tlc('SessionMC', body, cfg_text(spec='MSpec', constants=c, properties=['Ends']), timeout=3000)
    if r.violated:
        raise ToolError('the session model violates Ends:\n' + r.trace)
    rep.model(r)


def addr(a):
    if isinstance(a, list):
        return tuple(a)
    if a['hk'] == 'none':
        return tuple(a['lo'])
    assert a['hk'] == 'host'
    return tuple(a['lo']) + (64,) + tuple(a['h'])


def canon(log):
    """Histories and projected logs in one comparable form."""
    res = []
    for e in log:
        k = e['e']
        r = [k]
        for f in ('a', 'a2', 'mf', 'mf2'):
            if f in e:
                r.append((f, addr(e[f])))
        for f in ('mt', 'mt2'):
            if f in e:
                r.append((f, tuple(addr(x) for x in e[f])))
        if 'd' in e:
            r.append(('d', (e['d'][0], tuple(e['d'][1])) if e['d'] else ()))
        for f in ('u', 'ok', 'r', 'm'):
            if f in e:
                r.append((f, e[f]))
        if 'b' in e:
            r.append(('b', bytes(e['b'])))
        res.append(tuple(r))
    return tuple(res)


def crash_trace(d, sc):
    cut = ' '.join(sc.split(' ')[:2]) if sc else ''
    return {'id': d['id'], 'in': cut, 'cfg': None, 'ev': [{'e': 'crash', 'm': d.get('stderr', '')[-200:]}]}


# ------------------------------------------------------------------ trace validation

class Rejection:
    def __init__(self, trace, pos, why, pc, eof, fin, cause):
        self.trace, self.pos, self.why, self.pc, self.eof, self.fin, self.cause = trace, pos, why, pc, eof, fin, cause

    def text(self):
        ev = self.trace['ev'][self.pos - 1] if self.pos <= len(self.trace['ev']) else {}
        show_ev = {k: (show(v) if k in ('b', 'a', 'a2', 'mf') and isinstance(v, list) else v) for k, v in ev.items()}
        before = []
        for e in self.trace['ev'][:self.pos - 1][-4:]:
            before.append(e['e'] + ('=' + show(e['b'], 60) if 'b' in e else ''))
        return '%s at event %d %s (state %s; after %s); input %s' % (
            self.why, self.pos, json.dumps(show_ev)[:300], self.pc, ' '.join(before), self.trace.get('in', '')[:1500])


def validate(rep, traces, workers=None):
    """Checks recorded sessions against SessionTrace; returns the rejections."""
    rej = []
    plain = []
    for t in traces:
        if t.get('cfg') is None:
            rej.append(Rejection(t, 1, 'crash', 'any', False, False, ''))
        else:
            plain.append(t)
    for i in range(0, len(plain), 4000):
        part = plain[i:i + 4000]
        p = tmpfile('traces.ndjson')
        with open(p, 'w') as f:
            for t in part:
                f.write(json.dumps({'cfg': t['cfg'], 'ev': t['ev'] or [{'e': 'nothing'}]}) + '\n')
        r = tlc('SessionTrace', '', cfg_text(spec='TSpec', constants={'CfgOf': '<- TraceCfg'}),
                env={'TRACES': p}, workers=workers)
        os.unlink(p)
        rep.model(r)
        done = set(v[0] for v in r.prints.get('DONE', []))
        rej_of = {}
        for v in r.prints.get('REJECT', []):
            rej_of.setdefault(v[0], []).append(v[1:])
        if rep.prop in ('C28', 'C34'):
            soft = [Rejection(part[v[0] - 1], *v[1:]) for v in r.prints.get('SOFT', [])]
            rej += [x for x in soft if rep.prop in blame(x)]
        for k, t in enumerate(part):
            rep.traces += 1
            if k + 1 in done:
                continue
            if k + 1 not in rej_of:
                raise ToolError('trace neither accepted nor rejected: %s' % json.dumps(t)[:500])
            # with lenient lines there may be several attempts: the one that got furthest
            v = max(rej_of[k + 1], key=lambda v: v[0])
            rej.append(Rejection(t, *v))
    return rej


BACKBONE = {  # reason -> properties it contradicts
    'read-after-error': 'C08', 'send-after-error': 'C08', 'call-after-error': 'C08',
    'mail-call-after-error': 'C08', 'error-not-returned': 'C08',
    'read-again': 'C10', 'error-returned': 'C10 C02', 'end-before-eof': 'C10 C02 C11',
    'end-before-greeting': 'C02', 'end-before-reply': 'C10 C02', 'end-before-callback': 'C10 C02 C03',
    'end-before-line': 'C10 C02', 'end-unflushed': 'C07',
    'wait-before-greeting': 'C07 C02', 'wait-before-reply': 'C07', 'wait-before-callback': 'C07',
    'wait-after-marker': 'C07 C05', 'wait-before-line': 'C07', 'wait-unflushed': 'C07',
    'call-illegal': 'C03', 'call-for-invalid-line': 'C11 C03', 'call-before-reply': 'C02 C03 C07',
    'call-for-partial-line': 'C10', 'call-without-command': 'C03 C05 C06', 'not-announced': 'C12',
    'call-during-mail': 'C05 C03', 'call-wrong': 'C03 C12',
    'mail-call-illegal': 'C01 C03', 'mail-call-for-invalid-line': 'C01 C11', 'mail-call-before-reply': 'C01 C02 C07',
    'mail-call-for-partial-line': 'C01 C10', 'mail-call-without-command': 'C01 C05', 'mail-call-during-mail': 'C01 C05',
    'mail-call-wrong': 'C01 C03 C12', 'mail-before-go-ahead': 'C02 C07 C08',
    'sender-differs': 'C01 C12', 'recipient-differs': 'C01 C12', 'metadata-differs': 'C12',
    'envelope-sender-differs': 'C12 C01 C03', 'envelope-recipients-differ': 'C12 C01 C03',
    'mail-sender-differs': 'C01 C12 C03', 'mail-recipients-differ': 'C01 C12 C03',
    'body-outside-mail': 'C05', 'body-too-much': 'C05', 'body-differs': 'C05', 'body-truncated': 'C05',
    'body-ends-early': 'C05', 'complete-said-cut-off': 'C05 C06', 'cut-off-said-complete': 'C06',
    'reply-without-new': 'C02 C03 C12', 'reply-without-from': 'C02 C03', 'reply-without-to': 'C02 C03',
    'reply-without-data': 'C02 C03 C12', 'reply-without-handler': 'C02 C01', 'reply-during-mail': 'C02 C05',
    'reply-to-partial-line': 'C10 C02', 'reply-extra': 'C02 C05 C06', 'reply-malformed': 'C02 C09',
    'reply-wrong-greet': 'C02', 'reply-wrong-ok': 'C02', 'reply-wrong-go': 'C02', 'reply-wrong-final': 'C02',
    'reply-wrong-refused': 'C02', 'reply-wrong-badseq': 'C02 C03', 'reply-wrong-unimpl': 'C02',
    'reply-wrong-unrec': 'C02 C11',
    'call-from-unread-mail': 'C26', 'mail-call-from-unread-mail': 'C26', 'reply-from-unread-mail': 'C26',
    'unread-said-complete': 'C26 C06',
    'took-before-reply': 'C28', 'took-before-callback': 'C28', 'took-before-final': 'C28', 'took-before-line': 'C28',
    'took-before-body': 'C28', 'waits-holding-body': 'C28',
    'read-after-body-end': 'C34', 'body-after-end': 'C34',
    'no-end': 'C11', 'goes-on-after-end': 'C11',
    'panic': 'C11', 'stuck': 'C11 C07', 'hang': 'C11', 'crash': 'C11', 'nothing': 'C11',
}


def blame(r):
    ps = set(BACKBONE.get(r.why, 'C02').split())
    ev = r.trace['ev']
    if r.pos <= len(ev) and ev[r.pos - 1]['e'] == 'new':
        ps |= {'C12'}
    if any(e['e'] == 'quit' for e in ev[:r.pos - 1]):
        # what goes wrong after a message was given up
        ps |= {'C26'}
    if r.why.startswith('took-') or r.why == 'waits-holding-body':
        ps = {'C28'}
    end = max([k for k, e in enumerate(ev[:r.pos]) if e['e'] == 'hm'], default=0)
    if any(e['e'] == 'more' for e in ev[end:r.pos]):
        # what goes wrong after a handler asked for more of a body that had ended
        ps |= {'C34'}
    cut_off = any(e['e'] == 'bend' and not e['ok'] for e in ev[:r.pos])
    if r.why in ('panic', 'stuck', 'hang'):
        if r.pc in ('body', 'dec'):
            ps |= {'C05'}
            if r.eof:
                ps |= {'C06'}
        if r.eof:
            ps |= {'C10'}
        if r.cause:
            ps |= {'C02', 'C09'}
    if r.why in ('body-differs', 'body-too-much') and r.eof and not r.fin:
        ps |= {'C06'}
    if r.why.startswith('body') and not r.fin:
        ps |= {'C06'}
    if cut_off:
        ps |= {'C06'}
    return ps


def judge(rep, prop, rejections, only=None):
    for r in rejections:
        ps = blame(r)
        if prop in ps or only:
            rep.violation('%s: %s' % (prop, r.text()), {'suite': 'session', 'trace': r.trace, 'event': r.pos,
                                                        'why': r.why})
        else:
            rep.count('rejected_for_other_reasons')
            print('note: trace left the specification, but not by breaking %s: %s' % (prop, r.text()[:400]))


# ------------------------------------------------------------------ replay of histories

def replay(rep, prop, hs, cuts='one,bytes,slow,two', variants=None, rng=None):
    """Runs the inputs and decisions of TLC's histories in the implementation under all the
    cuts and compares what happens with the history; mismatches are explained by TLC."""
    units, by_id = [], {}
    for i, h in enumerate(hs):
        v = variants[i % len(variants)] if variants else {}
        sc = scenario('h%d' % i, [bytes(h['sent'])] if h['sent'] else [], h['decs'], rep=h['which'],
                      cuts=(cuts if len(h['sent']) else 'asis'), out='p', **v)
        units.append(Unit([sc], ['h%d' % i]))
        by_id['h%d' % i] = (h, sc, v)
    out = run_harness('session', units)
    again = []
    seen = set()
    kinds = {}
    for d in out:
        h, sc, v = by_id[d['id']]
        seen.add(d['id'])
        kinds[d['id']] = kinds.get(d['id'], 0) + 1
        if 'crash' in d or 'ev' in d:
            rep.executions += 1
            again.append((d['id'], [d if 'ev' in d else crash_trace(d, sc)], None))
            continue
        rep.executions += d['n']
        rep.traces += d['n']
        rep.count('histories_replayed_runs', d['n'])
        if canon(d['log']) != canon(h['hist']):
            items = [x if x in ('p', 'w') else bytes.fromhex(x[1:]) for x in d['in'].split(',') if x]
            again.append((d['id'], None, items))
    if len(seen) != len(hs) and not incomplete:
        raise ToolError('%d histories were not replayed' % (len(hs) - len(seen)))
    rep.count('histories_from_tlc', len(hs))
    if hs:
        for h in hs[len(hs) // 3::max(1, len(hs) // 2)][:2]:
            rep.sample({'input': show(h['sent']), 'decisions': [dec_text(x) for x in h['decs']],
                        'history': [e['e'] for e in h['hist']]})
    # mismatches: full traces, judged by the trace specification
    traces = [t for a in again if a[1] for t in a[1]]
    units = []
    origin = {}
    for k, (i, tr, items) in enumerate(again[:400]):
        if tr is None:
            h, sc, v = by_id[i]
            units.append(Unit([scenario('m%d' % k, items, h['decs'], rep=h['which'], **v)], ['m%d' % k]))
            origin['m%d' % k] = i
    rejections = []
    if units:
        res = run_harness('session', units)
        traces += [d if 'ev' in d else crash_trace(d, None) for d in res]
    if traces:
        rejections = validate(rep, traces)
        allowed = len(traces) - len(rejections)
        if allowed:
            # another course than the history's, but one the specification has as well (the
            # texts of default replies, where long replies are cut, lenient lines)
            rep.count('other_courses_also_allowed', allowed)
            ok = next(t for t in traces if not any(r.trace is t for r in rejections))
            print('note: not the history expected, but allowed: %s' % json.dumps(ok)[:400])
        for r in rejections:
            i = r.trace['id']
            r.cut_dependent = kinds[origin.get(i, i)] > 1
    return rejections


def record(rep, scs):
    """Runs scenarios (text, ids) and returns full traces."""
    out = run_harness('session', scs)
    text = {i: u.lines[-1] for u in scs for i in u.ids}
    tr = [d if 'ev' in d or 'log' in d else crash_trace(d, text.get(d['id'])) for d in out]
    rep.executions += len(tr)
    full = [t for t in tr if 'ev' in t]
    if full:
        t = full[len(full) // 2]
        rep.sample({'input': t['in'][:300], 'events': [e['e'] for e in t['ev']][:40]})
    return tr


def single(i, *a, **kw):
    return Unit([scenario(i, *a, **kw)], [str(i)])


# ------------------------------------------------------------------ random clients

LOCALS = [b'a', b'foo.bar', b'"q q"', b'"\\"x\\\\"', b"o'neil+t", b'x-1', b'""']
HOSTS = [b'b.c', b'example.org', b'y', b'[127.0.0.1]', b'[IPv6:::1]', b'[IPv6:2001:db8::1]', b'x-y.z9', None]
BADLINES = [b'', b'FOO', b'MAIL', b'MAIL FROM:', b'MAIL FROM:<a@b', b'MAIL FROM:<a@b> x=', b'RCPT TO:<>',
            b'RCPT TO:<a b>', b'DATA x', b'DATA\n', b'QUIT now', b'RSET it', b'EHLO', b'HELO -', b'MAIL FROM:a@b@c',
            b'\x00\xff', b'rcpt  to:<a>', b'.', b'..', b'RCPT TO:<a@[1.2.3]>', b'VRFY', b'DAT', b'\xc3\xa9',
            b'MAIL FROM:<@a>', b'DATA\x00', b'MAIL FROM:<"a@b>', b'MAIL FROM:<a@[IPv6:1::2::3]>', b'\r', b'x\ry']
OTHER = [b'EHLO a.b', b'HELO x', b'HELP', b'HELP me', b'NOOP', b'NOOP x\ry', b'QUIT', b'RSET', b'VRFY a', b'EXPN l',
         b'ehlo [1.2.3.4]', b'  EHLO a', b'HELPME', b'vrfy ', b'quit \t ', b'Rset']
BODYBITS = [b'.', b'\r', b'\n', b'\r\n', b'x', b'..', b'.\r', b'\r\n.', b'hello', b'.x', b'\n.\n', b'\r\r\n', b'\x00\xff',
            b'DATA\r\n', b'MAIL FROM:<a@b>\r\n', b'\r\n.\r', b'\n.\r\n', b'\r.\r\n']
PARAMS = [b'', b'', b'', b' SIZE=12', b' BODY=8BITMIME X', b'  A=b \t C', b' ']


def rcase(rng, b):
    return bytes(c ^ 32 if rng.random() < 0.3 and (65 <= c <= 90 or 97 <= c <= 122) else c for c in b)


ATEXT = bytes(set(range(33, 127)) - set(b'"(),.:;<>@[\\]'))
LABEL = b'abcxyzABCXYZ019'
# names that programs are tempted to treat in a way of their own, and lengths as well
WORDS = [b'postmaster', b'Postmaster', b'POSTMASTER', b'abuse', b'root', b'admin', b'MAILER-DAEMON', b'noreply', b'nobody', b'all',
         b'user+tag', b'a-b', b'a=b=c@d'.replace(b'@', b'='), b'x/y', b'a%b', b'a!b', b'bounce+1=2', b'"postmaster"', b'""', b'"a@b"',
         b'w' * 63, b'w' * 64, b'w' * 65, b'w' * 100, b'w' * 256, b'"' + b'q' * 64 + b'"']
NAMES = [b'localhost', b'LOCALHOST', b'localhost.localdomain', b'example.com', b'Example.ORG', b'test.example.org', b'invalid', b'10.0.0.1',
         b'xn--bcher-kva.example', b'[127.0.0.1]', b'[0.0.0.0]', b'[255.255.255.255]', b'[IPv6:::1]', b'[IPv6:::ffff:1.2.3.4]',
         b'l' * 63 + b'.x', b'l' * 64 + b'.x', b'.'.join([b'h' * 60] * 5), b'a.' * 40 + b'z', None, None]


def raddr(rng, wide=False):
    """Decisions put only addresses in place that are known to be read; clients send any."""
    if not wide or rng.random() < 0.5:
        l, h = rng.choice(LOCALS), rng.choice(HOSTS)
    elif rng.random() < 0.4:
        l, h = rng.choice(WORDS + LOCALS), rng.choice(NAMES)
    elif rng.random() < 0.2:
        l, h = rcase(rng, rng.choice(LOCALS)), rng.choice(HOSTS)
        h = h and rcase(rng, h)
    else:
        # any local part, any host
        word = lambda: bytes(rng.choice(ATEXT) for _ in range(rng.choice([1, 2, 3, 5, 9, 30])))
        if rng.random() < 0.7:
            l = b'.'.join(word() for _ in range(rng.choice([1, 1, 1, 2, 3])))
        else:
            l = b'"' + b''.join(rng.choice([bytes([rng.choice(b' !#$@<>[].,:;azAZ(){}~')]), b'\\' + bytes([rng.randrange(32, 127)])])
                                for _ in range(rng.randrange(0, 8))) + b'"'
        label = lambda: bytes(rng.choice(LABEL) for _ in range(rng.choice([1, 1, 2, 4, 12]))) + rng.choice([b'', b'', b'-Q', b'--1'])
        h = rng.choice([None, b'[%d.%d.%d.%d]' % tuple(rng.randrange(256) for _ in range(4)), b'[IPv6:%x:%x::%x]' % tuple(rng.randrange(65536) for _ in range(3)),
                        b'[ipv6:' + b':'.join(b'%X' % rng.randrange(65536) for _ in range(8)) + b']'] + [b'.'.join(label() for _ in range(rng.choice([1, 2, 3])))] * 4)
    return l + (b'@' + h if h else b'')


def rpath(rng, null=False):
    if null and rng.random() < 0.2:
        return b'<>'
    a = raddr(rng, True)
    if rng.random() < 0.15:
        a = rng.choice([b'@h:', b'@h,@i.j:', b'@[1.2.3.4]:']) + a
    return b'<' + a + b'>' if rng.random() < 0.8 else a


def rbody(rng):
    p = rng.choice([0, 0, 0, 0.2])
    return b''.join(bytes([rng.randrange(256)]) if rng.random() < p else rng.choice(BODYBITS) for _ in range(rng.randrange(0, 9)))


# codes a server may give, and some it should not
CODES = [421, 421, 450, 451, 452, 455, 500, 501, 502, 503, 504, 521, 541, 550, 551, 552, 553, 554, 555, 556,
         211, 214, 220, 221, 250, 251, 252, 354, 200, 299, 300, 399, 400, 499, 4, 40, 0, 999]


def rcode(rng):
    return rng.choice(CODES) if rng.random() < 0.75 else rng.randrange(1000)


def rdec(rng, kind):
    x = {'set': [], 'ef': [], 'add': [], 'pop': False, 'd': []}
    if rng.random() < 0.25:
        x['d'] = [rcode(rng), list(rng.choice([b'no', b'not %04d' % rng.randrange(10000), b'not %04d' % rng.randrange(10000), b'', b'a\tb', b'long ' * 120, b'x' * 506, b'y' * 507, b'z' * 1012]))]
    if kind in ('from', 'to') and rng.random() < 0.25:
        x['set'] = list(raddr(rng))
        if kind == 'from' and rng.random() < 0.25:
            x['set'] = list(b'-')
    if kind in ('to', 'data') and rng.random() < 0.2:
        if rng.random() < 0.5:
            x['ef'] = list(raddr(rng) if rng.random() < 0.75 else b'-')
        if rng.random() < 0.5:
            x['add'] = list(raddr(rng))
        if rng.random() < 0.3:
            x['pop'] = True
    return x


def rclient(rng, n, bad=0.12, other=0.12, illegal=0.12, cutoff=0.25, messages=0.5):
    """A client stream of about n commands and the decisions it meets (as if the parse agreed)."""
    s, decs = b'', []
    txn = rcpts = 0
    for _ in range(n):
        r = rng.random()
        if r < bad:
            s += rng.choice(BADLINES) + b'\r\n'
            continue
        if r < bad + other:
            s += rcase(rng, rng.choice(OTHER)) + b'\r\n'
            continue
        if r < bad + other + illegal:
            k = rng.choice(['mail', 'rcpt', 'data'])
        elif not txn:
            k = 'mail'
        elif not rcpts:
            k = 'rcpt'
        else:
            k = rng.choice(['rcpt', 'data']) if rng.random() > messages else 'data'
        if k == 'mail':
            s += rcase(rng, b'MAIL FROM:') + rng.choice([b'', b'', b' ']) + rpath(rng, True) + rng.choice(PARAMS) + b'\r\n'
            if not txn:
                x = rdec(rng, 'from')
                decs.append(x)
                txn, rcpts = (0 if x['d'] else 1), 0
        elif k == 'rcpt':
            s += rcase(rng, b'RCPT TO:') + rng.choice([b'', b'', b' ']) + rpath(rng) + rng.choice(PARAMS) + b'\r\n'
            if txn:
                x = rdec(rng, 'to')
                decs.append(x)
                if not x['d'] or x['add']:
                    rcpts += 1
        else:
            s += rcase(rng, b'DATA') + rng.choice([b'', b'', b' ', b'\t']) + b'\r\n'
            if txn and rcpts:
                x = rdec(rng, 'data')
                decs.append(x)
                if not x['d']:
                    decs.append(rdec(rng, 'mail'))
                    txn = rcpts = 0
                    b = rbody(rng)
                    if rng.random() < cutoff / 2:
                        s += b
                        return s, decs
                    s += b + (b'' if b == b'' or b.endswith(b'\r\n') else b'\r\n') + b'.\r\n'
    if rng.random() < cutoff and s:
        s = s[:rng.randrange(len(s))]
    return s, decs


def rrep(rng, of='ddmcs', most=1 << 30):
    """Which configuration: one of the fixed ones, or one made from a seed."""
    r = rng.choice(of)
    return r if rng.random() < 0.6 else '%s%d' % (rng.choice('vwyoo'), rng.randrange(most))


def rvariant(rng):
    v = {'rep': rrep(rng), 'fp': rng.choice([0, 0, 1, 2]), 'body': rng.choice(['n', 'n', 'c', 'k1']),
         'sink': rng.choice(['', '', 'p1', 'p2'])}
    return v


def no_data_dec(decs, kinds):
    return decs


def random_sessions(rng, count, cuts, n=(3, 9), **kw):
    us = []
    for i in range(count):
        s, decs = rclient(rng, rng.randrange(*n), **kw)
        us.append(single('r%d' % i, [s] if s else [], decs, cuts=cuts(rng) if s else 'asis', **rvariant(rng)))
    return us


def some_cut(rng):
    return rng.choice(['asis', 'bytes', 'slow', 'r%dx1' % rng.randrange(1 << 30), 'r%dx1' % rng.randrange(1 << 30)])


# ------------------------------------------------------------------ long sessions

OKD = {'d': []}
NOD = {'d': [550, list(b'no')]}
SCALES = ['rcpts', 'mails', 'bad', 'refused', 'body', 'lines', 'mixed', 'codes']


def long_session(rng, kind, k=1):
    """A client that does much of one thing: what a limit or a counter would need to show."""
    ok = lambda p=0.3: NOD if rng.random() < p else OKD
    tail = b'MAIL FROM:<z@z>\r\nRCPT TO:<y@y>\r\nDATA\r\nlast\r\n.\r\nQUIT\r\n'
    tdecs = [OKD] * 4
    ls, ds = [], []
    if kind == 'rcpts':
        ls.append(b'MAIL FROM:<a@b>')
        ds.append(OKD)
        for i in range(rng.randrange(105, 135) * k):
            ls.append(b'RCPT TO:<r%d@h>' % (i if rng.random() < 0.9 else 0))
            ds.append(ok(0.15))
        ls += [b'DATA', b'hi', b'.']
        ds += [OKD, ok()]
    elif kind == 'mails':
        for i in range(rng.randrange(35, 50) * k):
            ls += [b'MAIL FROM:<s%d@b>' % i, b'RCPT TO:<t%d@h>' % i, b'DATA', b'm%d' % i, rng.choice([b'..x', b'', b'line']), b'.']
            ds += [OKD, OKD, OKD, ok(0.4)]
    elif kind == 'many':
        # more than a hundred, or than two hundred and fifty-six, of the shortest messages
        for i in range(rng.choice([110, 140, 260, 270]) * k):
            ls += [b'MAIL FROM:<>', b'RCPT TO:<t%d>' % i, b'DATA'] + [b'm'] * (i % 3 == 0) + [b'.']
            ds += [OKD, OKD, OKD, ok(0.3)]
    elif kind == 'much':
        for i in range(rng.choice([260, 520, 1030])):
            ls.append(rng.choice([b'FOO', b'', b'DATA', b'RCPT TO:<x@y>', b'NOOP', b'RSET']))
    elif kind == 'bad':
        for i in range(rng.randrange(130, 170) * k):
            ls.append(rng.choice([b'FOO%d' % i, b'', b'DATA', b'RCPT TO:<x@y>', b'NOOP', b'RSET', b'VRFY q', b'MAIL FROM:', b'EHLO h']))
    elif kind == 'refused':
        for i in range(rng.randrange(25, 40) * k):
            ls.append(b'MAIL FROM:<s%d@b>' % i)
            ds.append(NOD)
        ls.append(b'MAIL FROM:<ok@b>')
        ds.append(OKD)
        for i in range(rng.randrange(25, 40) * k):
            ls.append(b'RCPT TO:<t%d@b>' % i)
            ds.append(NOD)
        ls.append(b'RCPT TO:<ok@c>')
        ds.append(OKD)
        for i in range(rng.randrange(25, 40) * k):
            ls.append(b'DATA')
            ds.append(NOD)
        ls += [b'DATA', b'body', b'.']
        ds += [OKD, OKD]
    elif kind == 'codes':
        # each thing refused with many codes; what was refused is then asked for again
        cs = sorted(set(CODES)) + [rng.randrange(1000) for _ in range(6)]
        orders = [iter(rng.sample(cs, len(cs))) for _ in range(4)]
        turn = lambda n: {'d': [next(orders[n]), list(b'no')]}
        for i in range(len(cs)):
            ls += [b'MAIL FROM:<s%d@b>' % i, b'RCPT TO:<u@v>', b'DATA', b'MAIL FROM:<s%d@c>' % i, b'RCPT TO:<t@v>', b'DATA',
                   b'RCPT TO:<t%d@v>' % i, b'DATA', b'DATA', b'x', b'.', b'RCPT TO:<late@v>', b'DATA']
            ds += [turn(0), OKD, turn(1), OKD, turn(2), OKD, turn(3)]
    elif kind == 'body':
        ls += [b'MAIL FROM:<a@b>', b'RCPT TO:<c@d>', b'DATA']
        for i in range(rng.randrange(250, 350) * k):
            l = rng.choice([b'..', b'', b'..dot', b'line %d' % i, b'\r', b'x\r', b'a\nb', b'\n.', b'..\r', b'MAIL FROM:<e>'])
            ls.append(l)
        ls.append(b'.')
        ds += [OKD] * 4
    elif kind == 'lines':
        for n in (78, 510, 511, 512, 513, 998, 1000, 1024, 2048, rng.randrange(300, 2500)):
            ls.append(rng.choice([b'NOOP ', b'HELP ', b'FOO ', b'VRFY ']) + b'x' * (n - 7))
        a, b = rng.choice([64, 65, 100, 255, 256, 700]), rng.choice([63, 64, 100, 255, 256, 700])
        ls += [b'MAIL FROM:<%s@b> SIZE=%s' % (b'l' * a, b'9' * rng.choice([10, 20, 300])), b'RCPT TO:<c@%s>' % (b'h' * b), b'DATA']
        for n in (78, 998, 1000, 1001, 2049, rng.randrange(300, 4500)):
            ls.append(b'x' * n)
        ls.append(b'.')
        ds += [OKD] * 4
    else:
        s, ds = rclient(rng, 60 * k, cutoff=0, bad=0.15, messages=0.4)
        return s, ds
    s = b''.join(l + b'\r\n' for l in ls)
    return s + tail, ds + tdecs


def long_units(rng, kinds, tag='L', k=1):
    us = []
    for kind in kinds:
        s, ds = long_session(rng, kind, k)
        how = rng.choice(['line', 'line', 'group', 'odd'] + (['whole'] if len(s) < 6000 else []))
        if how == 'whole':
            items = [s]
        else:
            items, ls = [], s.splitlines(True) if how == 'line' else []
            if how == 'line':
                p = 0
                while p < len(s):
                    q = s.find(b'\r\n', p) + 2
                    items.append(s[p:q])
                    p = q
            else:
                p = 0
                while p < len(s):
                    n = rng.choice([512, 1024, 1460]) if how == 'group' else rng.randrange(1, 700)
                    items.append(s[p:p + n])
                    p += n
        if rng.random() < 0.3:
            items = [y for x in items for y in ('p', x)]
        us.append(single('%s%d' % (tag, len(us)), items, ds, cuts='asis', **rvariant(rng)))
    return us


def word_units(rng, count):
    """Every name of WORDS and NAMES as a sender and as a recipient, accepted and refused."""
    ws = WORDS + [rcase(rng, w) for w in WORDS if len(w) < 30]
    pairs = [(w, None) for w in ws] + [(w, rng.choice(NAMES)) for w in ws] + [(rng.choice(LOCALS), n) for n in NAMES]
    pairs = [w + (b'@' + n if n else b'') for w, n in pairs]
    rng.shuffle(pairs)
    us = []
    while pairs and len(us) < count:
        part, pairs = pairs[:5], pairs[5:]
        ls, ds = [], []
        for a in part:
            ls.append(b'MAIL FROM:<%s>' % a)
            ds.append(rng.choice([OKD, OKD, NOD]))
            if not ds[-1]['d']:
                break
        if ds[-1]['d']:
            ls.append(b'MAIL FROM:<>')
            ds.append(OKD)
        for a in part:
            ls.append(b'RCPT TO:' + rng.choice([b'<%s>', b'<%s>', b'%s', b'<@h:%s>']) % a)
            ds.append(rng.choice([OKD, OKD, NOD]))
        ls += [b'RCPT TO:<last@h>', b'DATA', b'x', b'.', b'QUIT']
        ds += [OKD, OKD, rng.choice([OKD, NOD])]
        us.append(single('N%d' % len(us), [b'\r\n'.join(ls) + b'\r\n'], ds, cuts=some_cut(rng), **rvariant(rng)))
    return us


# ------------------------------------------------------------------ large bodies

def big_client(rng, cutoff=0.0, k=8):
    """Messages with long runs of ordinary bytes; nothing outside the bodies holds a "y"."""
    import data
    s, ds = b'EHLO h\r\n', []
    for m in range(rng.choice([1, 1, 1, 2])):
        b = data.big_body(rng, k)
        if b.startswith(b'.\r\n') or b'\r\n.\r\n' in b:
            b = b.replace(b'.\r\n', b'..\r\n')
        s += b'MAIL FROM:<a%d@b>\r\nRCPT TO:<c@d>\r\nDATA\r\n' % m + b
        ds += [OKD, OKD, OKD, rdec(rng, 'mail')]
        if rng.random() < cutoff:
            s = s[:rng.choice([len(s), len(s), len(s) - 1, rng.randrange(len(s) - len(b), len(s) + 1)])]
            return s + rng.choice([b'', b'', b'\r', b'.', b'\r\n', b'\r\n.', b'\r\n.\r']), ds
        s += b'.\r\n' if s.endswith(b'\r\n') else b'\r\n.\r\n'
        s += rng.choice([b'', b'NOOP\r\n', b'DATA\r\n'])
    return s + rng.choice([b'QUIT\r\n', b'']), ds


def long_lines(rng, count, tag='W'):
    """Command lines far longer than a packet, and than anything a limit is likely to be at, in
    packets of every size.  They hold runs of "y" (outside of any body), see big_trace."""
    us = []
    for i in range(count):
        s, ds = b'', []
        for _ in range(rng.randrange(1, 5)):
            n = rng.choice([511, 512, 513, 1000, 1024, 4096, 8191, 8192, 8193, 16384, 32768, 65535, 65536, rng.randrange(500, 30000), rng.randrange(500, 70000)])
            w = rng.choice([b'NOOP ', b'NOOP  ', b'HELP ', b'VRFY ', b'EXPN ', b'FOO ', b'NOOP \r', b'', b'y', b'DATA ', b'RSET '])
            s += w + b'y' * max(1, n - len(w) - rng.choice([0, 1, 2])) + rng.choice([b'', b'', b'\r', b'\n', b'\n.', b'\ry']) + b'\r\n'
            s += rng.choice([b'', b'NOOP\r\n', b'DATA\r\n', b'MAIL FROM:<a%d@b>\r\nRCPT TO:<c@d>\r\nDATA\r\nhi\r\n.\r\n' % i])
        s += rng.choice([b'', b'QUIT\r\n', b'NOOP ' + b'y' * 9000])
        how = rng.choice(['whole', 'spots', 'group', 'group', 'odd'])
        if how == 'whole':
            items = [s]
        elif how == 'spots':
            at = sorted(rng.sample(range(1, len(s)), min(len(s) - 1, rng.randrange(1, 12))))
            items = [s[a:b] for a, b in zip([0] + at, at + [len(s)])]
        else:
            items, p = [], 0
            while p < len(s):
                n = rng.choice([1024, 1460, 4096, 8192]) if how == 'group' else rng.randrange(1, 7000)
                items.append(s[p:p + n])
                p += n
        if rng.random() < 0.3:
            items = [x for it in items for x in ('p', it)]
        us.append(single('%s%d' % (tag, i), items, ds, cuts='asis', **rvariant(rng)))
    return us


def big_sessions(rng, count, tag='B', cutoff=0.0, k=8):
    """Large bodies in large packets; a run never spans packets (see big_trace)."""
    us = []
    for i in range(count):
        s, ds = big_client(rng, cutoff, k)
        spots = [p for p in range(1, len(s)) if not (s[p - 1] == 121 and s[p] == 121)]
        how = rng.choice(['whole', 'whole', 'few', 'lines', 'spots'])
        if how == 'lines':
            at = [p for p in spots if s[p - 1] == 10]
        else:
            at = {'whole': [], 'few': sorted(rng.sample(spots, min(len(spots), rng.randrange(1, 5)))),
                  'spots': [p for p in spots if rng.random() < 0.15]}[how]
        cuts = [0] + at + [len(s)]
        items = [s[a:b] for a, b in zip(cuts, cuts[1:]) if a < b]
        if rng.random() < 0.3:
            items = [x for it in items for x in ('p', it)]
        us.append(single('%s%d' % (tag, i), items, ds, cuts='asis', **rvariant(rng)))
    return us


def record_big(rep, us):
    return [big_trace(t) if t.get('cfg') is not None and 'ev' in t else t for t in record(rep, us)]
