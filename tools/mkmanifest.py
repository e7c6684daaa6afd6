#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vprops import PROPS
from vmodels import MODELS
NOTES = {
    'runner': 'RunnerContract.tla (an observer specification of worker.Runner) is evaluated by TLC on every recorded event of thousands of schedule-perturbed runs of the real Runner under virtual time',
    'engine': 'EngineContract.tla (an observer specification of dependency.Engine) is evaluated by TLC on every recorded event of thousands of schedule-perturbed runs of the real Engine under virtual time',
    'graph': 'Validate is called on all 4096 graphs over three manifolds and an undefined name, and on random bigger ones, and compared with the acyclicity defined in EngineContract.tla; random configurations are given to NewEngine and NewRunner',
    'catacomb': 'CatacombContract.tla is evaluated by TLC on every recorded event of thousands of schedule-perturbed runs of the real Catacomb',
    'panic': 'panics are made in child processes, about two dozen per run',
    'stub': 'HelperContract.tla is evaluated by TLC on recorded calls of the stub getter with random resources and targets',
    'helper': 'HelperContract.tla is evaluated by TLC on recorded runs of worker.Stop/Dead and workertest',
}
ids = [json.loads(l)['id'] for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'))]
NA = {'C29': 'A data race is a fact about individual memory accesses of the compiled program, which a TLA+ or Quint specification of the system\'s states and transitions does not represent, and no trace of API events can show or refute it; the race detector would be a different technique.'}
checks = []
for p in ids:
    if p not in PROPS:
        NA.setdefault(p, 'check not built yet')
        continue
    comps = [c for c, _ in PROPS[p]]
    checks.append({
        'property': p,
        'quick_cmd': 'bin/check ' + p,
        'thorough_cmd': 'VERIF_TIER=thorough bin/check ' + p,
        'technique': 'TLA+ specification checked with TLC; behaviours of it replayed into the real code; traces recorded from the real code checked against it' if p in MODELS else 'TLA+ specification; calls and traces recorded from the real code checked against it with TLC',
        'level': 'model_checking',
        'level_note': '; '.join(NOTES[c] for c in dict.fromkeys(comps)) + '. The schedules of the real code are sampled, not exhausted; virtual time (testing/synctest) stands for real time.',
    })
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks,
     'not_applicable': [{'property': p, 'reason': NA[p]} for p in ids if p in NA and p not in PROPS],
     'notes': 'No hooks in /repo: the schedule perturbation is put in through a go build overlay made from the working tree at check time.'}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
