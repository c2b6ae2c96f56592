#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand after editing)."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C01': 'seeded simulation: interleaved tenants and stepped threads vs solo '
        'transcripts',
 'C02': 'seeded simulation with faults: reset subject vs newly built twin',
 'C03': 'seeded simulation with simulated entropy: seeded twins',
 'C04': 'seeded simulation with faults vs multiset reference model',
 'C05': 'seeded simulation with faults vs per-call multiset model',
 'C06': 'seeded simulation with rare draws vs permitted-value model',
 'C07': 'seeded simulation with faults vs documented field rule on twin parts',
 'C08': 'seeded simulation with faults vs record reference model',
 'C09': 'seeded simulation with failing sources vs cycle reference model',
 'C10': 'fault injection at seeded call/draw/line points, never-failed twin',
 'C11': 'seeded simulation of reconfigurations vs rebuilt or untouched twin',
 'C12': 'seeded simulation with hostile consumer vs polite twin',
 'C13': 'seeded simulation, recorded part outputs vs assembled result',
 'C14': 'simulated random draws, chi-square against stated probabilities',
 'C15': 'seeded simulation with faults, sources vs undisturbed twins',
 'C16': 'seeded simulation of interrupted and interleaved reads vs list model',
 'C19': 'seeded simulation of accesses, filters, interrupted imports vs table',
 'C20': 'seeded simulation with faults, object being read vs unread twin',
 'C21': 'long simulated histories with faults, bound on references kept',
 'C22': 'seeded simulation with faults, reports vs later values and spec',
 'C23': 'seeded simulation, two splits of the same requests on twins',
 'C24': 'seeded simulation with failing members vs list and dict models',
}
NOTE = ('Random search over seeded plans, not exhaustive: a pass says that no '
        'explored run broke the property. Real fauxdoc code from the working '
        'tree; entropy, clock and user parts are simulated. Trusts CPython, '
        'the spec grammar in sim/world.py and the oracle in sim/props_*.py. '
        'DESIGN.md lists what is left open.')
EXTRA = {
 'C01': ' Threads share no emitter.',
 'C14': ' False-alarm probability per statistical test at most e^-27.',
 'C15': ' One known finding is listed in known_findings.json.',
}
PURE = ('Pure function of its arguments: no state, time, randomness, schedule '
        'or fault for a simulator to control, so seeded simulation decides '
        'nothing that plain input testing would not.')
m = {
 'version': 1,
 'setup_cmd': 'python3 run.py selftest-determinism C06 --runs 40',
 'checks': [{
     'property': p,
     'quick_cmd': f'python3 run.py check {p} --tier quick',
     'thorough_cmd': f'python3 run.py check {p} --tier thorough',
     'evidence_file': f'evidence/{p}.json',
     'technique': 'deterministic simulation: ' + t,
     'level': 'exploration',
     'level_note': NOTE + EXTRA.get(p, '')} for p, t in TECH.items()],
 'not_applicable': [{'property': p, 'reason': r} for p, r in (
     ('C17', PURE), ('C18', PURE + ' Alphabets handed out are covered in C12.'))],
 'notes': 'No hooks in /repo. Replay a violation with: python3 run.py replay '
          'evidence/replay-<ID>.json',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf8') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
