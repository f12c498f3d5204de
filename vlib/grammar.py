"""Suite C: command lines, addresses and parameters (C14-C17; no_crash for C11)."""
import itertools, json, random
from common import *

CRLF = b'\r\n'
VERBS = [b'DATA', b'EHLO', b'EXPN', b'HELO', b'HELP', b'MAIL FROM:', b'NOOP', b'QUIT', b'RCPT TO:', b'RSET', b'VRFY']
ATEXT = b"abzAZ09!#$%&'*+-/=?^_`{|}~"
HOSTS = [b'a', b'a.b', b'mail.example.org', b'a-b.c-', b'1.2.3.4', b'x1.y2.z3', b'[1.2.3.4]', b'[255.0.0.1]', b'[IPv6:::1]',
         b'[IPv6:2001:db8::1]', b'[IPv6:1:2:3:4:5:6:7:8]', b'[IPv6:::ffff:1.2.3.4]', b'[IPv6:::]', b'[IPv6:fe80::1:2]',
         b'[IPv6:1:2:3:4:5:6:7.8.9.10]', b'[IPv6:ABCD:ef01::]', b'[IPv6:1::8]', b'[IPv6:1:2:3:4:5:6:7::]', b'[IPv6:::2:3:4:5:6:7:8]',
         b'[IPv6:64:ff9b::192.0.2.33]', b'[IPv6:::1.2.3.4]']
BADHOSTS = [b'', b'-a', b'a..b', b'a.', b'.a', b'[1.2.3]', b'[1.2.3.256]', b'[1.2.3.04]', b'[1.2.3.4', b'1.2.3.4]', b'[IPv6:1]', b'[IPv6:1:2:3:4:5:6:7:8:9]',
            b'[IPv6:12345::]', b'[IPv6:::1::]', b'[ipv6:::1]', b'[IPv6:]', b'[]', b'[::1]', b'[IPv6:1.2.3.4]', b'a_b', b'a b', b'[IPv6:1:2:3:4:5:6:7:8::]',
            b'[IPv6: ::1]', b'[ 1.2.3.4]', b'[1.2.3.4 ]', b'[+1.2.3.4]', b'[IPv6:::g]', b'[1..2.3]', b'[1.2.3.4.5]', b'[IPv6:1:2:3:4:5:6:7:1.2.3.4]', b'[IPv6:::1%1]',
            b'[0x1.2.3.4]', b'[001.2.3.4]', b'[IPv6:::\xff]', b'[\xc3\xa9]', b'\xc3\xa9.org']
LOCALS = [b'a', b'a.b', b'john.doe', b'a.b.c.d', b'!#$%', b'""', b'"a b"', b'"a@b"', b'"a\\"b"', b'"\\\\"', b'"\\ "', b'" "', b'"."', b'"<x>"',
          b'"a\\b\\c"', b'"\\\\\\""', b'"(),:;<>@[]"', b'postmaster', b"a'b", b'{x}|y', b'a=b', b'-', b'"a\\\\b\\\\"']
BADLOCALS = [b'', b'.', b'.a', b'a.', b'a..b', b'"', b'"a', b'a"', b'"a\\"', b'"\x01"', b'"\x7f"', b'"\xe9"', b'"\\\x01"', b'a b', b'a(b', b'"a"b', b'a"b"',
             b'\xc3\xa9', b'a,b', b'a\\b', b'"\t"', b'a:b', b'a;b', b'"a\r"', b'"\\\xe9"']
ROUTES = [b'', b'', b'', b'@a:', b'@a,@b:', b'@a.b,@[1.2.3.4],@c:', b':', b'@[IPv6:::1]:']
BADROUTES = [b'@:', b'@a', b'@a,:', b'@a,b:', b'@a@b:', b',@a:', b'@a,@b', b'a:', b'@a;', b'@-a:', b'@a, @b:', b'@a ,@b:', b'@a:@b:']
PARAMS = [b'SIZE=1000', b'BODY=8BITMIME', b'SMTPUTF8', b'a', b'A=b', b'k-1=v~', b'x=!"#$%', b'9', b'K-', b'a-b-c=d', b'A=1', b'A=2', b'a=2', b'k=v,w;x', b'AUTH=<>', b'k=\\']
BADPARAMS = [b'=v', b'k=', b'-k', b'k==v', b'k=v=w', b'k_=v', b'k=\x01', b'k=\xe9', b'k;', b'k=\x7f', b'k= v', b'k =v', b'k=v\r', b'\xe9', b'k.x=1', b'k:']
BLANKS = [b' ', b' ', b' ', b'\t', b'  ', b' \t ', b'\t\t']


def h(bs):
    return ','.join(hexs(b) for b in bs)


def batch(kind, inputs, tag, size=400):
    us = []
    for k in range(0, len(inputs), size):
        i = '%s%d' % (tag, k)
        us.append(Unit(['%s id=%s in=%s' % (kind, i, h(inputs[k:k + size]))], [i]))
    return us


def enum_units(t, pre, toks, n, suf=CRLF, tag=''):
    us = []
    for k in range(n + 1):
        for first in (range(len(toks)) if k > 1 else [None]):
            i = 'e%s%s.%d.%s' % (tag, hexs(pre), k, first)
            us.append(Unit(['enum id=%s t=%s pre=%s toks=%s len=%d suf=%s%s' % (
                i, t, hexs(pre), h(toks), k, hexs(suf), '' if first is None else ' first=%d' % first)], [i]))
    return us


def everybyte(templates, tag):
    """Each template with each of its bytes replaced by, and preceded by, each byte value; and cut short."""
    seen = set()
    for b in templates:
        for p in range(len(b) + 1):
            seen.add(b[:p])
            for c in range(256):
                if p < len(b):
                    seen.add(b[:p] + bytes([c]) + b[p + 1:])
                seen.add(b[:p] + bytes([c]) + b[p:])
            seen.add(b[:p] + b[p + 1:])
    return sorted(seen)


def anycase(rng, b):
    return bytes(rng.choice((c, c ^ 32)) if 65 <= (c & ~32) <= 90 else c for c in b)


def word(rng, alphabet, lo, hi):
    return bytes(rng.choice(alphabet) for _ in range(rng.randrange(lo, hi)))


def rhost(rng, bad):
    if rng.random() < bad:
        return rng.choice(BADHOSTS)
    x = rng.random()
    if x < 0.5:
        return rng.choice(HOSTS)
    if x < 0.8:
        return b'.'.join(word(rng, b'abZ9', 1, 4) + word(rng, b'ab-9', 0, 5) for _ in range(rng.randrange(1, 5)))
    if x < 0.9:
        return b'[%d.%d.%d.%d]' % tuple(rng.randrange(256) for _ in range(4))
    import ipaddress
    a = ipaddress.IPv6Address(rng.getrandbits(128) & (rng.getrandbits(128) if rng.random() < 0.5 else (1 << 128) - 1) &
                              ~(0xffff << 16 * rng.randrange(8)))
    s = rng.choice([a.compressed, a.exploded, str(a).upper()])
    return b'[IPv6:' + s.encode() + b']'


def rlocal(rng, bad):
    if rng.random() < bad:
        return rng.choice(BADLOCALS)
    x = rng.random()
    if x < 0.4:
        return rng.choice(LOCALS)
    if x < 0.7:
        return b'.'.join(word(rng, ATEXT, 1, rng.choice([6, 6, 6, 30])) for _ in range(rng.randrange(1, rng.choice([5, 5, 12]))))
    out = b''
    kind = rng.choice([range(32, 127)] * 3 + [b'abZ9', b'abZ9.', ATEXT + b'.', b'a. ', b'"\\', b'a@<>:,'])
    esc = rng.choice([0.2, 0.2, 0.2, 0, 0, 1])
    for _ in range(rng.randrange(0, rng.choice([8, 8, 8, 40]))):
        c = rng.choice(kind)
        out += b'\\' + bytes([c]) if c in (34, 92) or rng.random() < esc else bytes([c])
    return b'"' + out + b'"'


def rpath(rng, bad, sender):
    if sender and rng.random() < 0.1:
        return b'<>'
    route = rng.choice(BADROUTES) if rng.random() < bad else rng.choice(ROUTES)
    p = route + rlocal(rng, bad)
    if rng.random() < 0.8:
        p += b'@' + rhost(rng, bad)
    x = rng.random()
    if x < bad:
        return rng.choice([b'<' + p, p + b'>', b'< ' + p + b'>', b'<' + p + b' >', b'<<' + p + b'>>', b'<' + p + b'>>'])
    return b'<' + p + b'>' if x < 0.8 else p


def rparams(rng, bad, most=4):
    s = b''
    for _ in range(rng.randrange(0, most)):
        s += rng.choice(BLANKS) if rng.random() >= bad else b''
        s += rng.choice(BADPARAMS) if rng.random() < bad else rng.choice(PARAMS) if rng.random() < 0.6 else (
            word(rng, b'abZ9', 1, 2) + word(rng, b'abZ9-', 0, 5) + (b'=' + word(rng, bytes(range(33, 61)) + bytes(range(62, 127)), 1, 8)
                                                                 if rng.random() < 0.6 else b''))
    if rng.random() < 0.25:
        s += rng.choice(BLANKS)
    return s


def rtext(rng, hostile=0.3):
    if rng.random() < hostile:
        return word(rng, bytes(range(256)), 0, rng.choice([20, 20, 20, 80])).replace(CRLF, b'')
    return word(rng, b'abc XYZ019\t.@<>"-=\r', 0, rng.choice([15, 15, 15, 80])).replace(CRLF, b'')


def rline(rng, bad=0.1):
    v = rng.choice(VERBS + [b'MAIL FROM:', b'RCPT TO:', b'MAIL FROM:', b'RCPT TO:'])
    head = anycase(rng, v)
    if v[:1] in b'MR' and b':' in v:
        l = head + rng.choice([b'', b'', b' ', b'\t', b'   ']) + rpath(rng, bad, v[0] == 77) + rparams(rng, bad)
    elif v in (b'EHLO', b'HELO'):
        l = rng.choice([b'', b'', b'', b' ']) + head + rng.choice(BLANKS) + rhost(rng, bad) + rng.choice([b'', b'', b' ', b'\t \t'])
    elif v in (b'DATA', b'QUIT', b'RSET'):
        l = head + (rng.choice([b'', b'', b' ', b'\t', b'  ', b' x', b'x', b'\r', b'\n', b' <a>']) if rng.random() < 0.6 else b'')
    else:
        l = head + (rng.choice([b' ', b' ', b'\t', b'']) + rtext(rng) if rng.random() < 0.9 else b'')
    if rng.random() < bad:
        l += rng.choice([b'', b'\r', b'\n', b'\n\r', b'\r\r\n', b'\r\n\r\n', b'\r\nQUIT\r\n', b'\r\n.', b' \r\n ', b'\x00\r\n'])
    else:
        l += CRLF
    if rng.random() < bad / 2 and l:
        p = rng.randrange(len(l))
        l = l[:p] + bytes([rng.randrange(256)]) + l[p + rng.randrange(2):]
    return l


def run(rep, units):
    ins = {i: u.lines[0] for u in units for i in u.ids}
    recs = []
    for d in run_harness('grammar', units):
        if 'crash' in d:
            rep.violation('the process died (%s) on %s' % (d['crash'], ins[d['id']][:300]), {'suite': 'grammar', 'unit': ins[d['id']]})
        elif d.get('hang'):
            rep.violation('hangs on %s' % show(d.get('in', [])), {'suite': 'grammar', 'record': d})
        else:
            recs.append(d)
    rep.executions += len(recs)
    return recs


def relevant(prop, d, part, why):
    if d['t'] == 'b' or prop == 'C32':
        return d['t'] == 'b' and prop == 'C32'
    k = d['r']['k']
    line = bytes(d['in'])
    if why == 'panic' or k == 'disagree':
        return True
    if part == 'w':
        return prop == 'C17' and d['t'] == 'c'
    if prop == 'C17':
        return False
    pathy = d['t'] == 'e' or line[:9].upper() in (b'MAIL FROM', b'RCPT TO:', b'RCPT TO:<') or line[:8].upper() == b'RCPT TO:'
    if why in ('accepted', 'rejected', 'verb'):
        return prop == 'C15' and pathy or d['t'] == 'c' and (prop == 'C14' or prop == 'C16' and pathy)
    if why == 'text':
        return prop == 'C14'
    if why == 'host':
        return prop == ('C15' if pathy else 'C14')
    if why in ('mailbox', 'canonical'):
        return prop == 'C15'
    return prop == 'C16'      # params


def judge(rep, prop, recs):
    seen = set()
    uniq = []
    for d in recs:
        key = (d['t'], bytes(d['in']))
        if key not in seen:
            seen.add(key)
            uniq.append(d)
    parts = [uniq[k:k + 25000] for k in range(0, len(uniq), 25000)]
    for part in parts:
        p = tmpfile('recs.ndjson')
        with open(p, 'w') as f:
            for d in part:
                f.write(json.dumps({x: d[x] for x in ('t', 'in', 'r', 'w', 'r2', 'w2', 'r3', 'eq', 'v', 'nul', 'lo', 'host', 'ps', 's') if x in d}) + '\n')
        r = tlc('GrammarTrace', '', cfg_text(init='Init', next_='Next'), env={'RECS': p})
        rep.model(r)
        rep.traces += len(part)
        for i, which, why in r.prints.get('BAD', []):
            d = part[i - 1]
            if relevant(prop, d, which, why):
                rep.violation('%s: %s: input %s gave %s%s' % (
                    why, {'c': 'command', 'b': 'command built from', 'e': 'address'}[d['t']], show(d['in']), json.dumps(d['r'])[:300],
                    ', written as ' + show(d['w']) if 'w' in d else ''), {'suite': 'grammar', 'record': d})
            else:
                rep.count('rejected_for_other_reasons')
    rep.count('accepted_inputs', sum(1 for d in uniq if d['r']['k'] != 'err'))
    kinds = {}
    for d in uniq:
        kinds[d['r']['k']] = kinds.get(d['r']['k'], 0) + 1
    rep.notes['results'] = kinds
    for d in uniq[:: max(1, len(uniq) // 5)]:
        rep.sample({'input': show(d['in']), 'result': d['r']['k']})


def model(rep, pres, toks, n):
    body = 'MCPre == {%s}\nMCToks == {%s}' % (','.join('<<%s>>' % ','.join(map(str, b)) for b in pres),
                                           ','.join('<<%s>>' % ','.join(map(str, b)) for b in toks))
    r = tlc('GrammarMC', body, cfg_text(spec='MCSpec', constants={'Pre': '<- MCPre', 'Toks': '<- MCToks', 'N': str(n)},
            invariants=['VerbDecides', 'OneLineOnly', 'RoundTrip', 'CaseBlind', 'Extract', 'OnlySenderEmpty', 'ParamsThere',
                        'CanonicalShorter', 'LenientAccepted']), timeout=3000)
    if r.violated:
        raise ToolError('the grammar violates %s:\n%s' % (r.violated, r.trace[-3000:]))
    rep.model(r)


ARGTOKS = [b' ', b'\t', b'a', b'.', b'-', b'<', b'>', b'@', b':', b'\r', b'\n', CRLF, b'[1.2.3.4]', b'\xff', b'x=1']
PATHTOKS = [b'a', b'.', b'@', b'"', b'\\', b' ', b'<', b'>', b':', b',', b'b-', b'[1.2.3.4]', b'[IPv6:::1]', b'[']
PARTOKS = [b' ', b'\t', b'k', b'K2', b'=', b'v', b'-', b';', b'\x01', b'=~']


def c14(rep, t):
    rng = random.Random(rep.seed * 1000003 + 14)
    model(rep, VERBS + [b'ehlo', b'', b' '], [b' ', b'a', b'.', b'<', b'>', b'@', b'\t', CRLF], 5 if t else 4)
    us = []
    for v in VERBS + [b'', b'ehlo', b'Data', b'MAIL', b'DAT', b'RCPT TO', b'mail from:', b'rCpT tO:']:
        us += enum_units('c', v, ARGTOKS, 4 if t else 2)
    us += enum_units('c', b'', [b'EH', b'LO', b'HE', b'LP', b'DA', b'TA', b'QU', b'IT', b'RS', b'ET', b'NO', b'OP', b'VR', b'FY', b'EX', b'PN',
                                b'MA', b'IL', b' FROM:', b'RC', b'PT', b' TO:', b' ', b'a', b'<a>'], 4 if t else 3)
    us += batch('c', everybyte([v + a + CRLF for v, a in (
        (b'DATA', b' '), (b'EHLO', b' a.b'), (b'EXPN', b' foo'), (b'HELO', b' [1.2.3.4]'), (b'HELP', b' x'), (b'NOOP', b' x'), (b'QUIT', b''),
        (b'RSET', b''), (b'VRFY', b' x'), (b'MAIL FROM:', b'<>'), (b'RCPT TO:', b'<a>'))], 'b'), 'b')
    us += batch('c', [b'EHLO ' + x + CRLF for x in HOSTS + BADHOSTS] + [b'helo\t' + x + b' ' + CRLF for x in HOSTS + BADHOSTS], 'h')
    us += batch('c', [rline(rng) for _ in range(200000 if t else 12000)], 'r')
    us += batch('c', [b'NOOP ' + b'x' * n + CRLF for n in (500, 505, 512, 1000, 2000)] + [b'EHLO ' + b'a.' * 300 + b'b' + CRLF], 'l')
    judge(rep, 'C14', run(rep, us))


def c15(rep, t):
    rng = random.Random(rep.seed * 1000003 + 15)
    model(rep, [b'MAIL FROM:', b'RCPT TO:<', b'MAIL FROM:"'], PATHTOKS, 4 if t else 3)
    us = []
    for v in (b'MAIL FROM:', b'RCPT TO:'):
        us += enum_units('c', v, PATHTOKS, 4 if t else 3)
        us += enum_units('c', v + b'<', PATHTOKS, 5 if t else 3, b'>' + CRLF)
        us += enum_units('c', v + b'<"', [b'a', b'"', b'\\', b' ', b'@', b'>', b'\x01', b'\x7f'], 6 if t else 4, b'"@b>' + CRLF)
        us += enum_units('c', v + b'<@a', [b'a', b',', b'@', b':', b'.', b'[1.2.3.4]'], 6 if t else 4, b'b@c>' + CRLF)
    us += enum_units('e', b'', PATHTOKS, 5 if t else 4, b'')
    us += enum_units('e', b'a@[', [b'1', b'.', b'25', b'6', b'0', b':', b'IPv6:', b'f', b'::', b']'], 7 if t else 4, b']')
    us += enum_units('e', b'a@[IPv6:', [b'1', b':', b'::', b'abcd', b'1.2.3.4', b'g', b'0'], 8 if t else 5, b']')
    paths = [rng.choice([b'MAIL FROM:', b'RCPT TO:']) + b'<' + r + l + b'@' + x + b'>' + CRLF
             for r in sorted(set(ROUTES + BADROUTES)) for l in LOCALS + BADLOCALS for x in (b'a.b', b'[IPv6:::1]')]
    paths += [b'RCPT TO:<' + l + b'@' + x + b'>' + CRLF for l in LOCALS[:4] for x in HOSTS + BADHOSTS]
    us += batch('c', paths, 'p')
    us += batch('e', [l + b'@' + x for l in LOCALS + BADLOCALS for x in HOSTS + BADHOSTS] + LOCALS + BADLOCALS, 'q')
    us += batch('e', everybyte([b'a.b@c-d.e', b'"a\\b"@[1.2.3.4]', b'a@[IPv6:::1]'], 'x'), 'x')
    us += batch('c', everybyte([b'MAIL FROM:<@h:a@b>' + CRLF], 'y'), 'y')
    us += batch('c', [anycase(rng, v) + rpath(rng, 0.1, v[0] == 77) + CRLF for v in (b'MAIL FROM:', b'RCPT TO: ')
                      for _ in range(100000 if t else 4000)], 'r')
    us += batch('e', [rlocal(rng, 0.1) + b'@' + rhost(rng, 0.15) for _ in range(100000 if t else 6000)], 's')
    us += batch('e', [b'a' * 400 + b'@' + b'b' * 400, b'"' + b'\\x' * 300 + b'"@a', b'.'.join([b'a'] * 300)], 'l')
    judge(rep, 'C15', run(rep, us))


def c16(rep, t):
    rng = random.Random(rep.seed * 1000003 + 16)
    model(rep, [b'MAIL FROM:<a@b>', b'RCPT TO:a', b'MAIL FROM:<>'], [b' ', b'\t', b'k', b'=', b'v', b'-', b';'], 6 if t else 5)
    us = []
    for v in (b'MAIL FROM:<a@b.c>', b'RCPT TO:<a@b.c>', b'MAIL FROM:<>', b'RCPT TO:a@b', b'MAIL FROM:a'):
        us += enum_units('c', v, PARTOKS, 5 if t else 4 if v in (b'MAIL FROM:<a@b.c>', b'RCPT TO:a@b') else 3)
    us += batch('c', everybyte([b'MAIL FROM:<a@b> kk=vv l' + CRLF, b'RCPT TO:<a> k \tl=w ' + CRLF], 'b'), 'b')
    us += batch('c', [anycase(rng, v) + rpath(rng, 0.02, v[0] == 77) + rparams(rng, 0.1, 7) + CRLF for v in (b'MAIL FROM:', b'RCPT TO:')
                      for _ in range(150000 if t else 8000)], 'r')
    # every pair of parameters, also with the same keyword
    us += batch('c', [b'MAIL FROM:<>' + s1 + a + s2 + b + e + CRLF for a in PARAMS + BADPARAMS for b in PARAMS + BADPARAMS
                      for s1, s2, e in ((b' ', b' ', b''), (b'\t ', b' \t', b' '))], 'd')
    us += batch('c', [b'MAIL FROM:<> ' + b' '.join(b'k%d=v%d' % (i, i) for i in range(n)) + CRLF for n in (1, 2, 5, 10, 40, 100)], 'l')
    judge(rep, 'C16', run(rep, us))


def c17(rep, t):
    rng = random.Random(rep.seed * 1000003 + 17)
    model(rep, VERBS, [b' ', b'a', b'.', b'<', b'>', b'@', b'"', b'\\'], 5 if t else 4)
    us = batch('c', [rline(rng, 0.01) for _ in range(250000 if t else 16000)], 'r')
    for v in VERBS:
        us += enum_units('c', v + (b'' if v[-1:] == b':' else b' '), ARGTOKS + [b'"'], 4 if t else 2)
    us += batch('c', [b'EHLO ' + x + CRLF for x in HOSTS] + [b'MAIL FROM:<' + l + b'@' + x + b'>' + p + CRLF
                      for l in LOCALS for x in HOSTS for p in (b'', b' A=b', b' SIZE=1 X y=z')], 'h')
    us += batch('c', [v + b' ' + bytes([c]) + x + CRLF for v in (b'HELP', b'NOOP', b'EXPN', b'VRFY') for c in range(256)
                      for x in (b'', b'a', b'\r', b'\n')], 'b')
    judge(rep, 'C17', run(rep, us))


def part(v, nul=0, lo=b'', host=b'', ps=(), s=b''):
    return '%s;%d;%s;%s;%s;%s' % (v, nul, hexs(lo), hexs(host), '/'.join(hexs(k) + ('' if x is None else ':' + hexs(x)) for k, x in ps), hexs(s))


TEXTVERBS = ('help', 'noop', 'expn', 'vrfy')


def rpart(rng):
    v = rng.choice(['mail', 'rcpt'] * 4 + list(TEXTVERBS) + ['ehlo', 'helo', 'data', 'quit', 'rset'])
    if v in TEXTVERBS:
        x = rtext(rng)
        return part(v, s=x or b'x')
    if v in ('ehlo', 'helo'):
        return part(v, host=rhost(rng, 0))
    if v in ('mail', 'rcpt'):
        ps = {}
        for _ in range(rng.choice([0, 0, 1, 2, 3, 7])):
            k, _, x = (rng.choice(PARAMS) if rng.random() < 0.6 else word(rng, b'abZ9', 1, 2) + word(rng, b'abZ9-', 0, 5) +
                       (b'=' + word(rng, bytes(range(33, 61)) + bytes(range(62, 127)), 1, 8) if rng.random() < 0.6 else b'')).partition(b'=')
            ps[k] = x or None
        if v == 'mail' and rng.random() < 0.15:
            return part(v, nul=1, ps=ps.items())
        return part(v, lo=rlocal(rng, 0), host=rhost(rng, 0) if rng.random() < 0.85 else b'', ps=ps.items())
    return part(v)


def c32(rep, t):
    rng = random.Random(rep.seed * 1000003 + 32)
    model(rep, VERBS, [b' ', b'a', b'.', b'<', b'>', b'@', b'"', b'='], 5 if t else 4)
    ps = [part('data'), part('quit'), part('rset'), part('help'), part('noop')]
    ps += [part(v, host=x) for v in ('ehlo', 'helo') for x in HOSTS + [b'a' * 300, b'a.' * 200 + b'b']]
    ps += [part(v, lo=l, host=x, ps=p) for v in ('mail', 'rcpt') for l in LOCALS + [b'l' * 200, b'"' + b'\\"' * 90 + b'"']
           for x in HOSTS + [b''] for p in ((), ((b'A', b'b'),), ((b'SIZE', b'1'), (b'X', None), (b'y-', b'<z>')))]
    ps += [part('mail', nul=1, ps=p) for p in ((), ((b'A', b'b'),))]
    ps += [part('rcpt', lo=b'a', ps=((bytes([k]), None if x is None else bytes([x])),)) for k in b'aZ09'
           for x in [None] + [c for c in range(33, 127) if c != 61]]
    ps += [part('mail', lo=b'a', host=b'b', ps=[(b'k%d' % i, None if i % 3 else b'v%d' % i) for i in range(n)]) for n in range(0, 60, 7)]
    ps += [part(v, s=a + bytes([c]) + z) for v in TEXTVERBS for c in range(256) for a, z in ((b'', b''), (b'', b'x'), (b'x', b''), (b' ', b' '), (b'\r', b''))
           if CRLF not in a + bytes([c]) + z]
    ps += [part(v, s=b'x' * n) for v in TEXTVERBS for n in (1, 2, 498, 505, 506, 507, 512, 1000, 4096)]
    # a host given as an address, each value of each of its parts
    ps += [part('ehlo', host=b'[%d.%d.%d.%d]' % tuple(c if i == k else 7 for i in range(4))) for k in range(4) for c in range(256)]
    ps += [part('helo', host=b'[IPv6:%s]' % b':'.join(b'%x' % ((1 << c) if i == k else 0) for i in range(8))) for k in range(8) for c in range(16)]
    ps += [rpart(rng) for _ in range(120000 if t else 8000)]
    us = []
    for k in range(0, len(ps), 400):
        us.append(Unit(['b id=b%d of=%s' % (k, ','.join(ps[k:k + 400]))], ['b%d' % k]))
    judge(rep, 'C32', run(rep, us))


def no_crash(rep, prop, rng, n):
    """No input makes a parser panic or run forever; what it returns is not looked at here."""
    ins = [b'']
    toks = ARGTOKS + PATHTOKS + VERBS + HOSTS + BADHOSTS + LOCALS + BADLOCALS + [b'250', b'250-', b'25', b'\xc3', b'\xe2\x82', b'[IPv6:\xff]', b'\x00']
    for i in range(n):
        x = i % 4
        if x == 0:
            b = rline(rng, 0.2)
        elif x == 1:
            b = b''.join(rng.choice(toks) for _ in range(rng.randrange(1, 8))) + rng.choice([b'', CRLF])
        elif x == 2:
            b = rng.choice(VERBS) + b' ' + word(rng, bytes(range(256)), 0, 30) + rng.choice([b'', CRLF])
        else:
            b = rng.choice([b'250 ', b'999-', b'', b'2\xc3\xa90 ', b'\xff\xff\xff ']) + word(rng, bytes(range(256)), 0, 12) + rng.choice([b'', CRLF])
        ins.append(b)
    ins += [b'(' * k + CRLF for k in (10, 1000)] + [v + b'<' * 500 + CRLF for v in VERBS] + [v + b'@a,' * 5000 + CRLF for v in VERBS]
    ins += [b'MAIL FROM:<"' + b'\\' * 20001 + b'">' + CRLF, b'EHLO ' + b'a.' * 20000 + CRLF, b'RCPT TO:<a> ' + b'k=v ' * 20000 + CRLF,
            b'EHLO [IPv6:' + b':' * 5000 + b']' + CRLF, b'250 ' + b'x' * 100000 + CRLF]
    us = batch('n', ins, 'n', 500)
    for d in run_harness('grammar', us):
        if 'panic' in d:
            rep.violation('%s: the %s parser panics on %s' % (prop, d['panic'], show(d['in'])), {'suite': 'grammar', 'record': d})
        elif 'crash' in d or d.get('hang'):
            rep.violation('%s: a parser never returns or ends the process, in batch %s' % (prop, d['id']),
                          {'suite': 'grammar', 'unit': next(u.lines[0] for u in us if d['id'] in u.ids)})
        else:
            rep.executions += d['n']
            rep.count('parser_inputs_without_panic', d['n'])


CHECKS = {'C32': c32, 'C14': c14, 'C15': c15, 'C16': c16, 'C17': c17}
