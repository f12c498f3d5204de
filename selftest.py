#!/usr/bin/env python3
"""Is the oracle awake?  Records runs of the real code, alters each recording in one place, and lets
TLC judge the altered recordings.  Prints, per kind of alteration, how many were rejected and the ones that were
not (some are legitimate: two pauses swapped, a flush of nothing dropped).  Not a registered check.
usage: selftest.py [session|queue|data|grammar] [count] [seed]"""
import copy, json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'vlib'))
import common
from common import *
import session, queue_, data, grammar


def alter_bytes(rng, b):
    b = list(b)
    k = rng.randrange(3)
    if k == 0 and b:
        p = rng.randrange(len(b))
        b[p] = (b[p] + rng.randrange(1, 256)) % 256
    elif k == 1 and b:
        del b[rng.randrange(len(b))]
    else:
        b.insert(rng.randrange(len(b) + 1), rng.choice([120, 13, 10, 46, 50]))
    return b


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list) and x and not all(isinstance(y, int) for y in x):
        for k, v in enumerate(x):
            yield from leaves(v, path + (k,))
    else:
        yield path, x


def put(x, path, v):
    for k in path[:-1]:
        x = x[k]
    x[path[-1]] = v


def alter_leaf(rng, rec, skip):
    rec = copy.deepcopy(rec)
    ls = [(p, v) for p, v in leaves(rec) if p and p[0] not in skip and p[-1] not in skip and not (isinstance(v, str)) and v is not None]
    if not ls:
        return None, None
    p, v = rng.choice(ls)
    put(rec, p, (not v) if isinstance(v, bool) else v + 1 if isinstance(v, int) else alter_bytes(rng, v))
    return 'field ' + '.'.join(str(k) for k in p if not isinstance(k, int)), rec


def alter_session(rng, t):
    ev = t['ev']
    k = rng.randrange(len(ev))
    kind = rng.choice(['drop', 'double', 'swap', 'field'])
    if kind == 'drop':
        return 'drop ' + ev[k]['e'], dict(t, ev=ev[:k] + ev[k + 1:])
    if kind == 'double':
        return 'double ' + ev[k]['e'], dict(t, ev=ev[:k + 1] + ev[k:])
    if kind == 'swap' and k + 1 < len(ev) and ev[k] != ev[k + 1]:
        return 'swap %s %s' % (ev[k]['e'], ev[k + 1]['e']), dict(t, ev=ev[:k] + [ev[k + 1], ev[k]] + ev[k + 2:])
    what, e = alter_leaf(rng, ev[k], ('e', 'd'))
    return (what and '%s %s' % (ev[k]['e'], what)), e and dict(t, ev=ev[:k] + [e] + ev[k + 1:])


def tally(results):
    by = {}
    for what, caught, shown in results:
        r = by.setdefault(what, [0, 0, None])
        r[0] += 1
        r[1] += caught
        if not caught:
            r[2] = shown
    for what in sorted(by):
        n, c, ex = by[what]
        print('%-34s %5d altered, %5d rejected%s' % (what, n, c, '' if ex is None else '   e.g. not: ' + ex[:300]))
    print('total: %d altered, %d rejected' % (sum(r[0] for r in by.values()), sum(r[1] for r in by.values())))


def do_session(rng, n, rep):
    us = session.random_sessions(rng, n, session.some_cut)
    traces = [t for t in session.record(rep, us) if t.get('cfg') is not None and t.get('ev')]
    assert not session.validate(rep, traces)
    alt = []
    for t in traces:
        for _ in range(6):
            what, x = alter_session(rng, t)
            if what:
                alt.append((what, dict(x, n=len(alt))))
    rep.prop = 'C28'
    bad = {r.trace['n'] for r in session.validate(rep, [x for _, x in alt])}
    tally([(what, x['n'] in bad, ' '.join(e['e'] for e in x['ev'])) for what, x in alt])


def do_queue(rng, n, rep):
    us = queue_.rand_units(rng, n, 's', mails=(1, 3), steps=(5, 40))
    recs = [d for d in run_harness('queue', us) if d.get('ev')]
    alt = []
    for d in recs:
        for _ in range(6):
            d2 = copy.deepcopy(d)
            k = rng.randrange(len(d2['ev']))
            outs = d2['ev'][k]['outs']
            kind = rng.choice(['drop', 'double', 'move', 'other'])
            if not outs:
                continue
            p = rng.randrange(len(outs))
            what = '%s %s' % (kind, outs[p][0])
            if kind == 'drop':
                del outs[p]
            elif kind == 'double':
                outs.append(list(outs[p]))
            elif kind == 'move':
                if k + 1 >= len(d2['ev']):
                    continue
                d2['ev'][k + 1]['outs'].append(outs.pop(p))
            else:
                m = 1 + outs[p][1] % max(1, len(d2['st'])) if isinstance(outs[p][1], int) and outs[p][1] > 0 else None
                if m is None or m == outs[p][1]:
                    continue
                outs[p] = [outs[p][0], m] + outs[p][2:]
            alt.append((what, d2))
    p = tmpfile('traces.ndjson')
    with open(p, 'w') as f:
        for _, d in alt:
            f.write(json.dumps({'st': d['st'], 'ev': d['ev']}) + '\n')
    r = tlc('QueueTrace', '', cfg_text(spec='TSpec'), env={'TRACES': p}, timeout=3000)
    bad = {x[0] for x in r.prints.get('REJECT', [])} | ({i for i in range(1, len(alt) + 1)} - {x[0] for x in r.prints.get('DONE', [])})
    bad |= {i + 1 for i, (_, d) in enumerate(alt) if any(queue_.dup(e['outs']) for e in d['ev'])}
    tally([(what, i + 1 in bad, json.dumps(d['ev'])) for i, (what, d) in enumerate(alt)])


def records(rng, rep, recs, module, fields, skip):
    alt = []
    for d in recs:
        for _ in range(3):
            what, x = alter_leaf(rng, {k: d[k] for k in fields if k in d}, skip)
            if what:
                alt.append((what, x))
    p = tmpfile('recs.ndjson')
    with open(p, 'w') as f:
        for _, x in alt:
            f.write(json.dumps(x) + '\n')
    r = tlc(module, '', cfg_text(init='Init', next_='Next'), env={'RECS': p})
    bad = {x[0] for x in r.prints.get('BAD', [])}
    tally([(x['t'] + ' ' + what, i + 1 in bad, json.dumps(x)) for i, (what, x) in enumerate(alt)])


def do_data(rng, n, rep):
    recs = data.collect(rep, data.rand_units(rng, 'sink', n, 6) + [Unit([l.replace('id=r', 'id=q') for l in u.lines], ['q' + i[1:] for i in u.ids])
                                                                  for u in data.rand_units(rng, 'stream', n, 6)])
    records(rng, rep, recs, 'DataTrace', ('t', 'in', 'out', 'ok', 'rest', 'k', 'err', 'fault', 'after', 'unfl'), ('t', 'k', 'fault'))


def do_grammar(rng, n, rep):
    lines = [grammar.rline(rng) for _ in range(n)]
    recs = grammar.run(rep, grammar.batch('c', lines, 's'))
    records(rng, rep, recs, 'GrammarTrace', ('t', 'in', 'r', 'w', 'r2', 'w2', 'r3', 'eq'), ('t', 'ps', 'in'))


if __name__ == '__main__':
    which = sys.argv[1] if len(sys.argv) > 1 else 'session'
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 200
    rng = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    build()
    globals()['do_' + which](rng, n, common.Report('selftest', 'quick', 1))
