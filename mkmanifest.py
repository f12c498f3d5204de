#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
REPLAY = 'behaviours TLC generates replayed into the real code step by step'
TRACE = 'traces of seeded random runs of the real code validated against the spec by TLC'
S = 'TLA+ Session/Grammar specs model-checked with TLC; '
TECH = {}
for c in 'C01 C02 C03 C04 C05 C06 C07 C08 C10 C11 C12 C25 C26 C28 C34'.split():
    TECH[c] = S + REPLAY + '; ' + TRACE
TECH['C13'] = 'TLA+ Data spec model-checked with TLC; ' + REPLAY + '; ' + TRACE
for c in ('C14', 'C15', 'C16', 'C17'):
    TECH[c] = 'TLA+ Grammar spec model-checked with TLC; TLC compares the verdicts and values of the real parser with the spec on every enumerated and generated line'
for c in ('C09', 'C18', 'C29'):
    TECH[c] = 'TLA+ Reply spec; TLC compares what the real code wrote and parsed with the spec on every enumerated and generated case'
TECH['C19'] = 'TLA+ Pushback spec model-checked with TLC; ' + REPLAY + '; ' + TRACE
for c in ('C20', 'C21', 'C22', 'C23', 'C24'):
    TECH[c] = 'TLA+ Queue spec model-checked with TLC (safety and liveness); ' + REPLAY + ' under virtual time; ' + TRACE
TECH['C30'] = 'TLA+ Writer spec model-checked with TLC; traces of the real writers on scripted outputs (every offset for each fault, random partial writes) validated against the spec by TLC'
TECH['C31'] = 'TLA+ Strings spec model-checked with TLC; ' + REPLAY + '; ' + TRACE
TECH['C33'] = 'TLA+ View spec model-checked with TLC; ' + REPLAY + '; ' + TRACE
TECH['C32'] = 'TLA+ Grammar spec model-checked with TLC; TLC compares what commands built from values hold, write and parse back to with the spec on every enumerated and generated combination'
TECH['C27'] = 'TLA+ client model composed with the Session spec, model-checked with TLC against EndToEnd (safety, termination); conversations TLC generates and random ones run between the real client and server parts, outcome compared by TLC'
NOTE = {
    'session': 'The model keeps the property within its bounds; the real smtp_server::interact is bound to it by exhaustively generated behaviours up to a length and by longer random ones (both compared event by event), so a deviation is found when some explored script, cut or decision shows it. Trusts the harness (scripted stream, sink and Config) and TLC.',
    'e2e': 'The composition keeps the property for up to 3 messages of small bodies; the real parts are bound to it by running those conversations and longer random ones under random packets and schedules. Trusts the harness (pipes, scheduler, the client program) and TLC.',
    'data': 'Every byte string over the alphabet of the line-ending and dot rules up to a length in every cut up to a bound is exhaustive; longer ones are sampled. Trusts the harness and TLC.',
    'grammar': 'The grammar in TLA+ decides each line independently of the parser; enumerated short lines and mutated long ones are compared, which is not a proof for all lines. Lines the repository deliberately accepts beyond the RFC may be accepted or refused.',
    'reply': 'The rules in TLA+ decide each case independently of the code; enumerated codes, lengths and texts and random ones are compared, not all.',
    'pushback': 'All operation sequences up to a length, and longer random ones.',
    'writer': 'The model of a write loop keeps the property; every answer of the output at every offset for a set of values and random answer sequences are compared, not all.',
    'view': 'All histories of cuts of short strings, every cut of a set of texts, longer random histories; every question the interface allows is asked of each view, with arguments inside, at and across its ends, not with all arguments.',
    'strings': 'All operation histories up to a length, and longer random ones; contents and chunk sizes at and around boundaries, not all.',
    'queue': 'The model keeps the property within its bounds (up to 3 messages, with storage failures, refusals, crashes, time); the real smtp_queue::run is bound to it by replay of enumerated and simulated histories and by validation of recorded random runs with a scripted storage, transport and clock. Assumes that operations of the storage eventually answer and, for C21, that claims are settled within the hour of grace.',
}
SUITE = dict((c, 'session') for c in 'C01 C02 C03 C04 C05 C06 C07 C08 C10 C11 C12 C25 C26 C28 C34'.split())
SUITE.update(C13='data', C14='grammar', C15='grammar', C16='grammar', C17='grammar', C32='grammar', C09='reply', C18='reply', C29='reply', C30='writer', C31='strings', C33='view', C19='pushback',
             C20='queue', C21='queue', C22='queue', C23='queue', C24='queue', C27='e2e')
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks are needed: the checks use the public interface of the three crates.'}
for l in open('properties.jsonl'):
    c = json.loads(l)['id']
    m['checks'].append({'property': c, 'quick_cmd': 'python3 check.py %s --tier quick' % c, 'thorough_cmd': 'python3 check.py %s --tier thorough' % c,
                        'technique': TECH[c], 'level': 'model_checking', 'level_note': NOTE[SUITE[c]]})
with open('MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
