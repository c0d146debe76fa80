#!/usr/bin/env python3
"""Generates MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LOCK = ('stateless model checking of the implementation: exhaustive enumeration of bounded event/timer/fault '
        'sequences on the real code under a virtual clock and captured network, each run in lockstep with an independent reference automaton')
ENUM = ('bounded exhaustive enumeration: every input of a finite grammar is run through the real code and compared with an independent oracle')
THR = ('stateless model checking of the real threads under a controlled scheduler: every interleaving up to a preemption bound')
CH = {}


def chk(id, tech, note, level='model_checking'):
    CH[id] = (tech, level, note)


chk('C01', LOCK, 'all step sequences of length 2-4 over 10 responses, repeats of earlier ones and 6 delays (delay deviations bounded); INVITE/OPTIONS/BYE, with/without Expires, deferred ACK, loose/strict record routes, two concurrent transactions')
chk('C02', LOCK, 'all step sequences of length 4-6 over arrivals, repeats, application answers, ACKs (same/other branch, wrong tag), stray responses and 5 delays (delay deviations bounded) for 7 Via forms; all Via positions of a looped request')
chk('C03', LOCK, 'all step sequences of length 3-6 with the cancel / CANCEL / expiry placed everywhere, client and server side, repeats and timers included')
exec(open(os.path.join(V, 'tools', 'manifest_more.py')).read())
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python lib/selftest.py', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks in /repo: the harnesses replace the dispatcher timers, the clock, the network classes and random tokens from outside. VERIF_REPO may point the checks at another tree (default /repo).'}
for p in props:
    i = p['id']
    if i in CH:
        t, lv, n = CH[i]
        m['checks'].append({'property': i, 'quick_cmd': '/opt/venv/bin/python checks/%s.py' % i.lower(),
                            'thorough_cmd': '/opt/venv/bin/python checks/%s.py --tier thorough' % i.lower(),
                            'technique': t, 'level': lv, 'level_note': n})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check has been built for this property yet')})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'n/a')
