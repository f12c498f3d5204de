"""Suite F: the queue runner (C20-C24)."""
import json, random
from common import *

SAFE = ['TypeOK', 'NoLoss', 'MarksMatch', 'SentOnce', 'OneAnswer', 'NotEarly', 'TimersSane']
PATIENT = ['AtMostOne', 'OnlyClaimed', 'OneTask']


def consts(inits, errs=0, refusals=1, crashes=0, ticks=0, patient=True, effects=True, n=0, emit=False):
    body = 'TheInits == {%s}' % ','.join('<<%s>>' % ','.join('"queued"' if c == 'q' else '"inflight"' for c in s) for s in inits)
    b = lambda x: 'TRUE' if x else 'FALSE'
    return body, {'Inits': '<- TheInits', 'MaxErrs': str(errs), 'MaxRefusals': str(refusals), 'MaxCrashes': str(crashes), 'MaxTicks': str(ticks),
                  'Patient': b(patient), 'Effects': b(effects), 'N': str(n), 'EmitIt': b(emit)}


def check(rep, what, spec='MSpec', invariants=(), properties=(), want=None, **kw):
    body, c = consts(**kw)
    r = tlc('QueueMC', body, cfg_text(spec=spec, constants=c, invariants=invariants, properties=properties), timeout=3000)
    if want:
        if not r.violated or want not in r.violated:
            raise ToolError('%s: the model should violate %s and does not' % (what, want))
        rep.count('counterexamples_expected_and_found')
    elif r.violated:
        raise ToolError('%s: the queue model violates %s:\n%s' % (what, r.violated, r.trace[-3000:]))
    rep.model(r)


def model(rep, prop, t):
    """The design keeps the property."""
    inits = ['qi', 'qq', 'ii'] if not t else ['qqi', 'qii']
    b = dict(inits=inits, errs=1, refusals=2, crashes=1, ticks=4)
    if prop == 'C20':
        check(rep, prop, invariants=SAFE, patient=False, **(b if t else dict(b, inits=['qi'], ticks=3)))
    elif prop == 'C21':
        check(rep, prop, invariants=SAFE + PATIENT, **b)
        # the assumption is needed: a delivery may last longer than the hour of grace
        check(rep, prop, invariants=['AtMostOne'], want='AtMostOne', inits=['q'], patient=False, ticks=4, refusals=0)
    elif prop == 'C22':
        check(rep, prop, spec='FairSpec', properties=['Delivered'], inits=['qq', 'qi', 'qqi'] if t else ['qq', 'qi'],
              refusals=3 if t else 2, crashes=1, ticks=12)
    elif prop == 'C23':
        check(rep, prop, invariants=SAFE + PATIENT, inits=['qi', 'ii'], errs=1, refusals=1, crashes=1, ticks=6)
        check(rep, prop, spec='FairSpec', properties=['Delivered'], inits=['i', 'ii', 'qi'] if t else ['i', 'ii'], refusals=1, crashes=1, ticks=8)
    else:
        check(rep, prop, invariants=SAFE + PATIENT, properties=['Isolated'], **b)
        check(rep, prop, spec='FairSpec', properties=['SomeFail'], inits=['qq', 'qqi'] if t else ['qq', 'qi'], errs=1, refusals=1, ticks=6)


def histories(rep, rng, n, limit=None, sim=None, **kw):
    body, c = consts(n=n, emit=True, **kw)
    args = ('-simulate', 'num=%d' % sim, '-depth', str(n + 2), '-seed', str(rep.seed)) if sim else ()
    r = tlc('QueueMC', body, cfg_text(spec='MSpec', constants=c, invariants=['NoLoss', 'MarksMatch', 'Emit']), args=args, timeout=3000)
    if r.violated:
        raise ToolError('the queue model violates %s:\n%s' % (r.violated, r.trace[-3000:]))
    rep.model(r)
    hs = sorted(set(v[0] for v in r.prints.get('HIST', [])))
    if limit and len(hs) > limit:
        hs = rng.sample(hs, limit)
    return [json.loads(h) for h in hs]


def acts(h):
    return ','.join(e['a'] if e['a'] in ('listend', 'findend', 'tick', 'crash') else
                    'list:%d' % e['m'] if e['a'] == 'list' else 'find:%d.%d' % (e['m'], e['c']) if e['a'] == 'find' else
                    '%s:%d.%d:%s' % (e['a'], e['m'], e['c'], e['r']) for e in h['hist'])


def key(ops):
    return sorted(tuple(o) for o in ops)


def line(i, n, rest):
    return Unit(['id=%s n=%d %s' % (i, n, rest)], [str(i)])


VARIANTS = ['pol=fifo', 'pol=lifo', 'pol=rand', 'pol=fifo burst=1', 'pol=lifo burst=1', 'pol=rand burst=1']


def replay(rep, prop, hs, rng):
    us = [line(i, len(h['st']), 'acts=%s %s seed=%d codes=%d' % (acts(h), VARIANTS[i % len(VARIANTS)], rng.randrange(1 << 30), i))
          for i, h in enumerate(hs)]
    seen = set()
    for d in run_harness('queue', us):
        h = hs[int(d['id'])]
        if d['id'] in seen:
            continue
        seen.add(d['id'])
        rep.executions += 1
        rep.traces += 1
        if 'ev' not in d:
            rep.violation('%s: the runner hangs or ends the process on %s' % (prop, us[int(d['id'])].lines[0]), {'suite': 'queue', 'history': h, 'got': d})
            continue
        compare(rep, prop, h, d['ev'], us[int(d['id'])].lines[0])
    if len(seen) != len(hs) and not incomplete:
        raise ToolError('%d histories were not replayed' % (len(hs) - len(seen)))
    rep.count('histories_from_tlc', len(hs))
    for h in hs[len(hs) // 3::max(1, len(hs) // 2)][:2]:
        rep.sample({'mails': h['st'], 'actions': acts(h)})


def compare(rep, prop, h, ev, text):
    before = []
    past = []
    k = 0
    for e in ev:
        if e['a'] == 'wait':
            want, step = before, {'a': 'wait', 'm': 0, 'c': 0, 'r': 'ok'}
        elif e['a'] == 'panic':
            want, step = [], e
        else:
            step = h['hist'][k]
            want = key(step['outs'])
            k += 1
        if not e['skip'] and key(e['outs']) != want:
            got = key(e['outs'])
            missing, extra = diff(want, got), diff(got, want)
            judge(rep, prop, past, step, missing, extra, len(h['st']), text)
            return
        past.append((step, want))
        before = want
    if k < len(h['hist']):
        raise ToolError('history cut short at %d without a difference: %s' % (k, text))


def diff(a, b):
    b = list(b)
    res = []
    for x in a:
        if x in b:
            b.remove(x)
        else:
            res.append(x)
    return res


def reasons(past, step, missing, extra, n):
    """Which properties a difference breaks."""
    props = set()
    kinds = set(x[0] for x in missing + extra)
    if kinds & {'panic', 'hang', 'list-again', 'find-again', 'enqueue'}:
        return {'C20', 'C21', 'C22', 'C23', 'C24'}
    if 'content' in kinds:
        props.add('C21')
    a = step['a']
    for x in extra:
        k = x[0]
        if k == 'done':
            props |= {'C20', 'C21'}
        elif k in ('send', 'cancel', 'get'):
            props |= {'C21'}
        elif k == 'start':
            props |= {'C21', 'C23'} if a in ('find', 'wait', 'tick') else {'C21'}
        elif k == 'recover':
            props |= {'C23'}
    for x in missing:
        k = x[0]
        if k in ('done', 'cancel'):
            props |= {'C21'}
            if k == 'cancel' or a in ('tick', 'wait'):
                props |= {'C22'}
        elif k == 'recover':
            props |= {'C23'}
        else:
            props |= {'C22'}
        if any(s['a'] == 'recover' and s['m'] == x[1] and s['r'] == 'ok' for s, _ in past + [(step, None)]):
            props |= {'C23'}
    # another mail in trouble, or a step about another mail
    for x in missing + extra:
        m = x[1]
        if any(s['a'] not in ('tick', 'wait', 'crash') and s['m'] not in (0, m) and s['r'] != 'ok' for s, _ in past + [(step, None)]):
            props.add('C24')
        elif past and any(o[1] != m for o in past[-1][1]) or step['m'] not in (0, m):
            props.add('C24')
        # touched again after a storage failure of its own
        if x in extra and any(s['m'] == m and s['r'] != 'ok' and s['a'] != 'send' for s, _ in past + [(step, None)]):
            props.add('C24')
    return props


def judge(rep, prop, past, step, missing, extra, n, text):
    props = reasons(past, step, missing, extra, n)
    what = '%s: after %s %d.%d %s%s%s; %s' % (prop, step['a'], step['m'], step['c'], step['r'],
                                          ', missing: %s' % missing if missing else '', ', unexpected: %s' % extra if extra else '', text[:700])
    if prop in props:
        rep.violation(what, {'suite': 'queue', 'line': text, 'missing': missing, 'unexpected': extra})
    else:
        rep.count('differences_about_other_properties')


def validate(rep, prop, us):
    recs = []
    for d in run_harness('queue', us):
        rep.executions += 1
        text = next(u.lines[0] for u in us if u.ids[0] == d['id'])
        d['text'] = text
        if 'ev' not in d:
            rep.violation('%s: the runner hangs or ends the process on %s' % (prop, text), {'suite': 'queue', 'got': d})
        elif d['ev']:
            recs.append(d)
    p = tmpfile('traces.ndjson')
    with open(p, 'w') as f:
        for d in recs:
            f.write(json.dumps({'st': d['st'], 'ev': d['ev']}) + '\n')
    r = tlc('QueueTrace', '', cfg_text(spec='TSpec', invariants=['NoLoss']), env={'TRACES': p}, timeout=3000)
    if r.violated:
        raise ToolError('a recorded run violates %s:\n%s' % (r.violated, r.trace[-3000:]))
    rep.model(r)
    rep.traces += len(recs)
    rejected = set()
    for t, l, missing, extra in r.prints.get('REJECT', []):
        d = recs[t - 1]
        rejected.add(t)
        ev = d['ev'][:l]
        past, before = [], []
        for e in ev[:-1]:
            past.append((e, key(e['outs'])))
        judge(rep, prop, past, ev[-1], [tuple(x) for x in json.loads(missing)], [tuple(x) for x in json.loads(extra)] + dup(ev[-1]['outs']), len(d['st']), d['text'])
    done = set(x[0] for x in r.prints.get('DONE', []))
    if len(done | rejected) != len(recs):
        i = next(k for k in range(1, len(recs) + 1) if k not in done | rejected)
        raise ToolError('recorded run %s is not understood: %s' % (recs[i - 1]['text'], json.dumps(recs[i - 1]['ev'])[:2000]))
    rep.count('recorded_runs_checked', len(recs))
    rep.count('recorded_events_checked', sum(len(d['ev']) for d in recs))


def dup(ops):
    ks = [tuple(o) for o in ops]
    return [k for k in sorted(set(ks)) for _ in range(ks.count(k) - 1)]


def rand_units(rng, count, tag, mails=(1, 6), steps=(20, 120), refuse=(0, 70), err=(0, 12), eff=(0, 100), tick=(0, 15), crash=(0, 5), stall=0, qs='qqqi'):
    us = []
    for i in range(count):
        n = rng.randrange(mails[0], mails[1] + 1)
        r = lambda x: rng.randrange(x[0], x[1] + 1)
        us.append(Unit(['rand id=%s%d n=%d init=%s steps=%d seed=%d refuse=%d err=%d eff=%d tick=%d crash=%d stall=%d pol=%s codes=%d' % (
            tag, i, n, ''.join(rng.choice(qs) for _ in range(n)), r(steps), rng.randrange(1 << 30), r(refuse), r(err), r(eff), r(tick), r(crash), stall,
            rng.choice(['fifo', 'lifo', 'rand']), i)], ['%s%d' % (tag, i)]))
    return us


def generic(rep, prop, t, gens, rands):
    rng = random.Random(rep.seed * 1000003 + int(prop[1:]))
    model(rep, prop, t)
    for g in gens:
        replay(rep, prop, histories(rep, rng, **g), rng)
    us = []
    for k, (count, kw) in enumerate(rands):
        us += rand_units(rng, count, 'r%d.' % k, **kw)
    validate(rep, prop, us)


def c20(rep, t):
    k = 2 if t else 0
    generic(rep, 'C20', t, [
        dict(n=9 + k, inits=['q', 'i'], errs=1, refusals=2, crashes=1, ticks=2, patient=False, limit=60000 if t else 2500),
        dict(n=7 + k, inits=['qq', 'qi'], errs=1, refusals=1, crashes=1, ticks=2, limit=60000 if t else 2500),
        dict(n=40, inits=['qqi', 'qq', 'qii'], errs=2, refusals=4, crashes=2, ticks=6, patient=False, sim=4000 if t else 300)],
        [(2000 if t else 150, {}), (500 if t else 50, dict(crash=(10, 20), err=(0, 20)))])


def c21(rep, t):
    k = 2 if t else 0
    generic(rep, 'C21', t, [
        dict(n=9 + k, inits=['q', 'i'], errs=1, refusals=2, crashes=0, ticks=2, patient=False, limit=60000 if t else 2500),
        dict(n=7 + k, inits=['qq', 'qi'], errs=0, refusals=1, crashes=0, ticks=2, limit=60000 if t else 2500),
        dict(n=50, inits=['qqi', 'qqq', 'qii', 'qqqq'], errs=1, refusals=6, crashes=1, ticks=6, sim=4000 if t else 300)],
        [(2000 if t else 150, {}), (300 if t else 30, dict(mails=(5, 15), steps=(100, 250)))])


def c22(rep, t):
    k = 2 if t else 0
    generic(rep, 'C22', t, [
        dict(n=12 + k, inits=['q'], errs=0, refusals=3, crashes=0, ticks=1, patient=False, limit=60000 if t else 2000),
        dict(n=8 + k, inits=['qq', 'qqq'], errs=0, refusals=2, limit=60000 if t else 3000),
        dict(n=60, inits=['qqi', 'qqq', 'qqqq'], errs=0, refusals=12, crashes=1, ticks=4, sim=4000 if t else 300)],
        [(2000 if t else 120, dict(err=(0, 0), refuse=(20, 90))),
         # hundreds of refusals of the same mail, and many mails at once
         (10 if t else 4, dict(mails=(1, 2), steps=(1500, 2500), refuse=(99, 99), err=(0, 0), tick=(0, 1), crash=(0, 0), qs='q')),
         (10 if t else 4, dict(mails=(120, 200), steps=(150, 400), refuse=(50, 100), err=(0, 0), tick=(0, 0), crash=(0, 0), stall=100, qs='q'))])


def c23(rep, t):
    k = 2 if t else 0
    generic(rep, 'C23', t, [
        dict(n=11 + k, inits=['i'], errs=1, refusals=1, crashes=1, ticks=4, patient=False, limit=60000 if t else 2500),
        dict(n=9 + k, inits=['qi', 'ii'], errs=0, refusals=0, crashes=0, ticks=4, limit=60000 if t else 2500),
        dict(n=50, inits=['iii', 'qii', 'iiqq'], errs=1, refusals=3, crashes=2, ticks=12, patient=False, sim=4000 if t else 400)],
        [(2000 if t else 150, dict(qs='iiq', tick=(5, 40))), (10 if t else 3, dict(mails=(60, 100), steps=(250, 400), tick=(1, 2), crash=(0, 0), err=(0, 5), qs='iiq')),
         (400 if t else 40, dict(mails=(1, 3), qs='i', crash=(3, 12), tick=(10, 50)))])


def c24(rep, t):
    k = 2 if t else 0
    generic(rep, 'C24', t, [
        dict(n=8 + k, inits=['qq', 'qi'], errs=1, refusals=1, crashes=0, ticks=2, effects=False, limit=60000 if t else 3500),
        dict(n=50, inits=['qqi', 'qqq', 'qii', 'qqqi'], errs=3, refusals=4, crashes=1, ticks=6, sim=4000 if t else 400)],
        [(2000 if t else 150, dict(mails=(2, 6), err=(5, 25))), (600 if t else 60, dict(mails=(3, 8), stall=2, err=(0, 15))),
         (10 if t else 3, dict(mails=(80, 150), steps=(150, 400), stall=70, err=(0, 10), crash=(0, 0), tick=(0, 2)))])


CHECKS = {'C20': c20, 'C21': c21, 'C22': c22, 'C23': c23, 'C24': c24}
