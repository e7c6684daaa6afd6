"""The check of one property."""
import json, os, re, time
import vlib
from vlib import *
from vprops import PROPS, COMPONENTS
import vmodels


def abnormal(prop, build, ab, scratch, plain):
    """Decide what an abnormal end of the harness means; returns a replay dict or None."""
    hits, runs, out = confirm(build, ab, scratch, plain)
    frames = bool(FRAME.search(ab.output))
    log('abnormal end (%s), reproduced in %d of %d runs' % (ab.kind, hits, runs))
    if hits and (frames or ab.kind == 'runaway'):
        return {'property': prop, 'kind': ab.kind, 'script': json.loads(ab.script),
                'what': 'the code under test %s on this script' % {'hang': 'blocks for ever', 'crash': 'crashes', 'runaway': 'loops without end'}[ab.kind],
                'output': (out or ab.output)[-6000:]}
    return None


def split(scripts, scratch, comp):
    """Write scripts to one file per core."""
    files = []
    for i in range(NCPU):
        part = scripts[i::NCPU]
        if part:
            f = os.path.join(scratch, 'design-%s%d.in' % (comp, i))
            with open(f, 'w') as fh:
                fh.write('\n'.join(part) + '\n')
            files.append(f)
    return files


def record(prop, build, comp, focus, total, seed, scratch, tier, plain, infiles=None):
    """Record traces of one component, or of scripts; returns scripts, traces, replay, plain."""
    lim = 100 if tier == 'quick' else 600
    def collect(plain):
        scripts, traces, abns = [], [], []
        for s, t, a in shards(build, comp, focus, total, seed, scratch, lim, infiles=infiles, plain=plain):
            scripts.extend(s)
            traces.extend(t)
            if a is not None:
                abns.append(a)
        return scripts, traces, abns
    scripts, traces, abns = collect(plain)
    replay = None
    if abns:
        replay = abnormal(prop, build, abns[0], scratch, plain)
        if replay is None and not plain and all(a.kind == 'hang' for a in abns):
            # Perhaps the perturbation does not agree with the way this tree
            # synchronises: record without it.
            log('recording without schedule perturbation')
            plain = True
            scripts, traces, abns = collect(plain)
            if abns:
                replay = abnormal(prop, build, abns[0], scratch, True)
        if replay is None and abns:
            raise CheckError('the harness ended abnormally (%s):\n%s' % (abns[0].kind, abns[0].output[-3000:]))
    return scripts, traces, replay, plain


def known():
    """The known findings: (property, rule) -> text."""
    r = {}
    for line in open(os.path.join(VERIF, 'known_findings.txt')):
        m = re.match(r'known: property=(C\d+) rule=\[([^]]*)\] (.*)', line)
        if m:
            r[m.group(1), m.group(2)] = m.group(3)
    return r


def check(prop, tier, seed, scratch):
    t0 = time.time()
    build = Build(scratch)
    log('built (instrumented: %s) in %.1fs' % (build.instrumented, time.time() - t0))
    plain = not build.instrumented
    replay = None
    tot = dict(states=0, transitions=0, traces=0, recorded=0, events=0)
    rules, samples = [], []
    found = {}
    listed = known()
    design, scr = vmodels.explore(prop, tier, seed, scratch) or ({}, [])
    jobs = [(comp, focus, None) for comp, focus in PROPS[prop]]
    for comp in sorted({json.loads(x)['comp'] for x in scr}):
        jobs.append((comp, '', split([x for x in scr if json.loads(x)['comp'] == comp], scratch, comp)))
    for comp, focus, infiles in jobs:
        if replay and infiles:
            break
        C = COMPONENTS[comp]
        total = C['n'] * (C.get('thorough', 6) if tier == 'thorough' else 1) // max(1, len(PROPS[prop]) // 2)
        name = comp + (' (design)' if infiles else '')
        tb = time.time()
        scripts, traces, rp, plain = record(prop, build, comp, focus, total, seed, scratch, tier, plain, infiles)
        replay = replay or rp
        recorded = len(traces)
        scripts, traces = dedupe(scripts, traces)
        log('%s: %d traces recorded, %d distinct, %.1fs' % (name, recorded, len(traces), time.time() - tb))
        tt = time.time()
        viol, (gen, dist), done = check_traces(C['module'], traces, scratch) if traces else ([], (0, 0), 0)
        log('%s: TLC evaluated %d traces, %d states, %.1fs' % (name, done, dist, time.time() - tt))
        mine = [v for v in viol if v[1] == prop and (prop, v[2]) not in listed]
        for v in viol:
            if v[1] == prop and (prop, v[2]) in listed:
                found[v[2]] = found.get(v[2], 0) + 1
        other = sorted({(v[1], v[2]) for v in viol if v[1] != prop})
        if other:
            log('other properties violated on these traces: %s' % other[:10])
        if mine and replay is None:
            t, _, rule, pos = min(mine, key=lambda v: v[3])
            replay = {'property': prop, 'kind': 'trace', 'rule': rule, 'position': pos,
                      'script': json.loads(scripts[t - 1]), 'events': json.loads(traces[t - 1])['ev'],
                      'rules': sorted({v[2] for v in mine}), 'violating_traces': len({v[0] for v in mine})}
        tot['states'] += dist
        tot['transitions'] += gen
        tot['traces'] += done
        tot['recorded'] += recorded
        tot['events'] += sum(t.count('"k":') for t in traces)
        rules.append('behaviours of the design specification replayed' if infiles else
                     'scenarios of the %s driver (seeded generator, focus %s)' % (comp, focus or 'none'))
        if scripts:
            samples += [json.loads(scripts[i]) for i in (0, len(scripts) // 2)]
    cov = {
        'states': tot['states'] + design.get('design_states', 0),
        'transitions': tot['transitions'] + design.get('design_transitions', 0) + design.get('design_random_states', 0),
        'trace_states': tot['states'],
        'traces_validated_against_impl': tot['traces'],
        'traces_recorded': tot['recorded'],
        'rule': '; '.join(rules) + '; distinct recorded event sequences are counted',
        'events_checked': tot['events'],
        'instrumented': build.instrumented and not plain,
        'samples': samples,
    }
    cov.update(design)
    evidence(prop, tier, seed, 'model_checking', cov, ASSUME, t0, 1 if replay else 0)
    for rule, k in sorted(found.items()):
        print('KNOWN-FINDING: property=%s %s (%d times)' % (prop, listed[prop, rule], k), flush=True)
    if replay:
        path = write_replay(prop, replay)
        log(json.dumps({k: replay[k] for k in replay if k in ('kind', 'rule', 'rules', 'what')}))
        print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
        return 1
    print('OK property=%s traces=%d states=%d wall=%.1fs' % (prop, tot['traces'], tot['states'], time.time() - t0), flush=True)
    return 0


ASSUME = [
    'testing/synctest determines quiescence correctly; virtual time stands for real time',
    'the Go scheduler with random virtual delays at every statement samples the interleavings',
]
