"""Design specifications: exploring them with TLC, and scripts made of their behaviours."""
import json, os, random, re, time
import vlib
from vlib import SPEC, NCPU, CheckError, tlc, stats, unq, log


def s(*xs):
    return '{' + ', '.join('"%s"' % x for x in xs) + '}'


# One configuration per property: constants of Runner.tla.
def R(ids, ops, outs, classes, slow, more, mc, deep, sim):
    """mc/deep: (MaxOps, Burst) of the exhaustive search (quick/thorough); sim: MaxOps and Burst of random behaviours."""
    return dict(module='Runner', ids=ids, ops=ops, outs=outs, classes=classes, slow=slow, more=more, mc=mc, deep=deep, sim=sim)


BOTH, NO, YES = '{TRUE, FALSE}', '{FALSE}', '{TRUE}'
A, AB = ('a',), ('a', 'b')
MODELS = {
    'C01': R(A, ('start', 'stop', 'sleep'), ('ok', 'err'), ('nil', 'R1'), BOTH, 'FALSE', (4, 2), (5, 2), (9, 3)),
    'C02': R(A, ('start', 'stop', 'sleep'), ('ok', 'err', 'hold'), ('nil', 'R1'), BOTH, 'FALSE', (3, 2), (5, 2), (9, 3)),
    'C03': R(A, ('start', 'sleep'), ('ok', 'err'), ('nil', 'R1', 'N1', 'F1'), NO, 'FALSE', (4, 2), (6, 2), (9, 2)),
    'C04': R(A, ('start', 'sleep', 'stop'), ('ok', 'err'), ('nil', 'R1', 'N1'), NO, 'FALSE', (4, 2), (5, 2), (9, 2)),
    'C05': R(AB, ('start',), ('ok', 'hold', 'err'), ('nil', 'F1', 'F2'), BOTH, 'TRUE', (3, 2), (4, 2), (8, 3)),
    'C06': R(AB, ('start', 'kill', 'sleep'), ('ok', 'hold'), ('nil', 'R1'), BOTH, 'FALSE', (3, 2), (4, 2), (8, 3)),
    'C07': R(AB, ('start', 'kill'), ('ok', 'err'), ('nil', 'F1', 'F2'), YES, 'TRUE', (3, 2), (4, 2), (8, 3)),
    'C08': R(A, ('start', 'stop', 'kill', 'sleep'), ('ok', 'hold'), ('nil', 'R1'), BOTH, 'FALSE', (3, 2), (5, 2), (9, 4)),
    'C09': R(A, ('start', 'worker', 'abort', 'stop', 'kill'), ('ok', 'hold'), ('nil', 'R1'), NO, 'FALSE', (3, 2), (5, 2), (9, 3)),
    'C10': R(A, ('start', 'remove', 'abort', 'kill', 'stop'), ('ok', 'hold'), ('nil', 'R1'), BOTH, 'FALSE', (3, 2), (5, 2), (9, 3)),
    'C11': R(AB, ('start', 'stop', 'remove', 'sleep'), ('ok', 'err'), ('nil', 'R1'), BOTH, 'FALSE', (3, 2), (4, 2), (9, 3)),
}


def runner_cfg(m, maxops, burst, exhaustive):
    c = ['SPECIFICATION Spec', 'CONSTANTS', '  Ids = ' + s(*m['ids']), '  MaxOps = %d' % maxops, '  Burst = %d' % burst,
         '  Ops = ' + s(*m['ops']), '  Outs = ' + s(*m['outs']), '  Classes = ' + s(*m['classes']),
         '  Slow = ' + m['slow'], '  More = ' + m['more'], '  Gx = ' + json.dumps(m.get('gx', 'restart'))]
    if exhaustive:
        c.append('VIEW FullView')
    c += ['INVARIANTS Ok OneInstance DeadMeansDone EntryHasGoroutine CurrentIsLatest StoppingIsKilled Show', 'CHECK_DEADLOCK FALSE']
    return '\n'.join(c) + '\n'


MODELS['C34'] = [
    dict(R(A, ('start', 'stop', 'sleep'), ('ok', 'goexit'), ('nil', 'R1'), BOTH, 'FALSE', (3, 2), (5, 2), (9, 3)), gx='restart'),
    dict(R(AB, ('start', 'worker', 'sleep', 'kill', 'remove'), ('ok', 'goexit', 'hold'), ('nil', 'F1'), BOTH, 'TRUE', None, None, (9, 3)), gx='fatal'),
    dict(R(AB, ('start', 'worker', 'sleep', 'remove'), ('ok', 'goexit', 'hold'), ('nil', 'R1'), BOTH, 'FALSE', None, None, (9, 3)), gx='norestart'),
]


# Configurations for Engine.tla.
def E(shape, ops, outs, classes, mc, deep, sim, kcl=('nil',), slow=NO, filter='', factor=0, reset=0, max=0, fuzz=(10,), pre='seq'):
    return dict(module='Engine', shape=shape, ops=ops, outs=outs, classes=classes, kcl=kcl, slow=slow, filter=filter, factor=factor,
                reset=reset, max=max, fuzz=fuzz, pre=pre, mc=mc, deep=deep, sim=sim)


MODELS.update({
    'C12': [E('chain2', ('exit', 'tick', 'rel'), ('need', 'hold'), ('nil', 'E', 'U'), (4, 2), (5, 3), (9, 3), kcl=('nil', 'E'), slow=BOTH),
            E('tri', ('exit', 'tick', 'install', 'rel'), ('need', 'hold', 'err'), ('nil', 'E', 'U', 'B'), None, None, (10, 3), kcl=('nil', 'E'), slow=BOTH, pre='all')],
    'C13': [E('tri', ('exit', 'tick'), ('need',), ('nil', 'E', 'B'), (3, 1), (4, 2), (9, 2)),
            E('join', ('exit', 'tick', 'rel'), ('need', 'hold', 'err'), ('nil', 'E', 'B', 'U'), None, None, (10, 3), slow=BOTH, pre='all'),
            E('dup', ('exit', 'tick', 'rel', 'install'), ('need', 'hold'), ('nil', 'E', 'U'), None, None, (10, 3), slow=BOTH, pre='all')],
    'C14': [E('join', ('exit', 'tick'), ('need', 'err'), ('nil', 'M', 'B'), (3, 1), (4, 2), (9, 2)),
            E('chain3', ('exit', 'tick', 'rel'), ('need', 'hold', 'err'), ('nil', 'M', 'E', 'B'), None, None, (10, 3), slow=BOTH, pre='all')],
    'C15': [E('chain2', ('exit', 'tick'), ('need', 'err'), ('nil', 'E', 'M', 'B', 'U'), (3, 2), (5, 2), (9, 2), filter='E>B'),
            E('chain2', ('exit', 'tick', 'install'), ('need', 'err'), ('nil', 'E', 'M', 'B', 'U'), None, None, (9, 2), filter='M>U', pre='all'),
            E('one', ('exit', 'tick', 'install'), ('need', 'err'), ('nil', 'E', 'M', 'B', 'U'), None, None, (9, 2), filter='E>nil', pre='all')],
    'C16': [E('one', ('exit', 'tick'), ('need', 'err'), ('nil', 'E'), (8, 1), (11, 1), (12, 1), factor=2, reset=2000000, max=3000000, fuzz=(9, 10, 11)),
            E('chain2', ('exit', 'tick'), ('need', 'err'), ('nil', 'E', 'B'), None, None, (12, 1), factor=3, reset=2000000, max=20000000, fuzz=(9, 10, 11), pre='all')],
    'C17': [E('dup', ('exit', 'tick', 'late'), ('need', 'hold'), ('nil', 'E', 'U'), (4, 2), (6, 2), (9, 2)),
            E('join', ('exit', 'tick', 'late', 'rel'), ('need', 'hold'), ('nil', 'E', 'U'), None, None, (9, 2), slow=BOTH, pre='all')],
    'C18': [E('chain2', ('exit', 'kill'), ('need', 'err'), ('nil', 'F1', 'F2', 'E'), (3, 2), (4, 3), (6, 3), kcl=('nil', 'F1', 'F2'), slow=BOTH),
            E('join', ('exit', 'rel', 'kill'), ('need', 'err', 'hold'), ('nil', 'F1', 'F2', 'E'), None, None, (8, 4), kcl=('nil', 'F1', 'F2'), slow=BOTH, pre='all'),
            E('tri', ('exit', 'rel', 'tick'), ('need', 'err', 'hold'), ('nil', 'F1', 'F2', 'E'), None, None, (8, 4), kcl=('nil', 'F1', 'F2'), slow=BOTH, filter='F>E', pre='all')],
    'C19': [E('chain2', ('exit', 'kill', 'rel'), ('need', 'hold'), ('nil', 'E'), (4, 3), (6, 3), (6, 3), slow=BOTH),
            E('tri', ('exit', 'kill', 'rel', 'tick', 'install'), ('need', 'hold', 'err'), ('nil', 'E', 'U', 'F1'), None, None, (9, 4), slow=BOTH, pre='all')],
    'C20': [E('cycle', ('install',), ('need',), ('nil',), (3, 2), (4, 3), (6, 3)),
            E('cycle', ('install', 'exit', 'tick', 'kill'), ('need', 'err'), ('nil', 'U', 'E'), None, None, (10, 4), pre='all'),
            E('chain3', ('install', 'exit', 'tick'), ('need', 'err'), ('nil', 'U'), None, None, (10, 4), pre='none')],
    'C21': [E('chain2', ('exit', 'tick', 'rel'), ('need', 'err', 'hold'), ('nil', 'E', 'M'), (4, 2), (5, 3), (9, 2), slow=BOTH),
            E('tri', ('exit', 'tick', 'rel', 'install', 'kill'), ('need', 'hold', 'err'), ('nil', 'E', 'M', 'U', 'B'), None, None, (9, 3), slow=BOTH, pre='all')],
})


def engine_cfg(m, maxops, burst, exhaustive):
    c = ['SPECIFICATION Spec', 'CONSTANTS', '  Shape = "%s"' % m['shape'], '  Pre = "%s"' % m['pre'],
         '  MaxOps = %d' % maxops, '  Burst = %d' % burst, '  Ops = ' + s(*m['ops']), '  Outs = ' + s(*m['outs']),
         '  Classes = ' + s(*m['classes']), '  KClasses = ' + s(*m['kcl']), '  Slow = ' + m['slow'], '  Filter = "%s"' % m['filter'],
         '  Factor = %d' % m['factor'], '  Reset = %d' % m['reset'], '  MaxDelay = %d' % m['max'],
         '  Fuzz = {%s}' % ', '.join(str(x) for x in m['fuzz'])]
    if exhaustive:
        c.append('VIEW FullView')
    c += ['INVARIANTS Ok OneInstance DeadMeansDone OneGoroutine Dependents Acyclic Fresh Show', 'CHECK_DEADLOCK FALSE']
    return '\n'.join(c) + '\n'


GAPS = [0, 300, 3000, 30000]
MODES = ['', 'light', 'heavy', 'pct']


def runner_script(m, x, r):
    plans = x['p'] if isinstance(x['p'], list) else [x['p'][k] for k in sorted(x['p'], key=int)]
    cfg = {'fatal': 'cls', 'restart': 'cls', 'more': 'rank' if m['more'] == 'TRUE' else 'nil',
           'gx': {'fatal': 'F', 'norestart': 'N'}.get(m.get('gx'), '')}
    steps, cur, gap = [], [], r.choice(GAPS)

    def flush():
        nonlocal cur, gap
        if cur:
            steps.append({'t': cur})
        cur, gap = [], r.choice(GAPS)
    for o in x['h']:
        if o['o'] == 'q':
            flush()
        elif o['o'] == 'sleep':
            flush()
            steps.append({'t': [[{'o': 'sleep', 'n': 1010000}]]})
        else:
            op = {'o': o['o'], 'off': len(cur) * gap}
            if o.get('id'):
                op['id'] = o['id']
            if o['o'] in ('start', 'worker', 'remove', 'abort'):
                op['k'] = 'k%d' % o['c']
            if o['o'] == 'start':
                pl = []
                for b in plans[o['c'] - 1]:
                    pl.append({k: v for k, v in dict(out=b['out'], e=b['e'], kill=b['kill'], ke=b['ke']).items() if v not in ('', 'nil')})
                op['pl'] = pl
            if o['o'] in ('exit', 'rel'):
                op['e'] = o['e']
            if o['o'] == 'rel':
                op['out'] = o['out']
            cur.append([op])
    flush()
    return {'comp': 'runner', 'seed': r.getrandbits(60), 'mode': r.choice(MODES), 'src': 'tla', 'cfg': cfg, 'cfgn': {'delay': 1000}, 'steps': steps}


def engine_script(m, x, r):
    plans = x['p'] if isinstance(x['p'], list) else [x['p'][k] for k in sorted(x['p'], key=int)]
    cfg = {'fatal': 'cls', 'worst': 'rank', 'filter': ''}
    cfgn = {'err': 1000, 'bounce': 100, 'factor': m['factor'], 'reset': m['reset'] // 1000, 'max': m['max'] // 1000}
    ren = lambda k: 'E1' if k == 'E' else r.choice(['U', 'Uw', 'Ua']) if k == 'U' else r.choice(['B', 'Bw', 'Bf']) if k == 'B' else \
        r.choice(['M', 'Mw', 'Ma']) if k == 'M' else k
    steps, cur, gap = [], [], r.choice(GAPS)

    def flush():
        nonlocal cur, gap
        if cur:
            steps.append({'t': cur})
        cur, gap = [], r.choice(GAPS)
    for o in x['h']:
        if o['o'] == 'q':
            flush()
        elif o['o'] == 'sleep':
            flush()
            steps.append({'t': [[{'o': 'sleep', 'n': o['n'] * 11 // 10 + 5000}]]})
        else:
            op = {'o': o['o'], 'off': len(cur) * gap}
            if o.get('id'):
                op['id'] = o['id']
            if o['o'] == 'install':
                op['in'] = list(o['in'])
                if m['filter']:
                    op['m'] = {'filter': m['filter']}
                pl = []
                for b in plans[o['c'] - 1]:
                    pl.append({k: v for k, v in dict(out=b['out'], e=ren(b['e']), kill=b['kill'], ke=ren(b['ke'])).items() if v not in ('', 'nil')})
                op['pl'] = pl
            if o['o'] in ('exit', 'rel'):
                op['e'] = ren(o['e'])
            if o['o'] == 'rel':
                op['out'] = o['out']
            cur.append([op])
    flush()
    return {'comp': 'engine', 'seed': r.getrandbits(60), 'mode': r.choice(MODES), 'src': 'tla', 'cfg': cfg, 'cfgn': cfgn, 'steps': steps}


# Configurations for Catacomb.tla.
def C(inits, ops, works, kinds, classes, kcl, panics, mc, deep, sim, invokes=1):
    return dict(module='Catacomb', inits=inits, invokes=invokes, ops=ops, works=works, kinds=kinds, classes=classes, kcl=kcl, panics=panics, mc=mc, deep=deep, sim=sim)


ALL = ('nil', 'E', 'own', 'for', 'td')
MODELS.update({
    'C22': [C('{1}', ('invoke', 'add', 'exit', 'rel'), ('hold', 'dying'), ('norm', 'slow'), ('nil', 'E'), ('nil',), 'FALSE', (4, 2), (5, 3), (8, 3)),
            C('{0, 2}', ('invoke', 'add', 'exit', 'rel', 'kill', 'wait', 'wkill'), ('hold', 'dying'), ('norm', 'slow', 'dead'), ALL, ('nil', 'E'), 'FALSE', None, None, (9, 4))],
    'C23': [C('{0, 1}', ('invoke', 'add', 'exit', 'wkill', 'kill'), ('hold',), ('norm', 'slow'), ('nil', 'E'), ('nil', 'E'), 'FALSE', (3, 2), (4, 2), (8, 3)),
            C('{0, 1, 2}', ('invoke', 'add', 'exit', 'wkill', 'rel', 'wait'), ('hold',), ('norm', 'slow', 'dead'), ('nil', 'E', 'for'), ('nil', 'E'), 'TRUE', None, None, (9, 4))],
    'C24': [C('{0, 1}', ('invoke', 'kill', 'exit', 'rel'), ('hold', 'dying'), ('slow',), ('nil', 'E', 'own'), ('nil',), 'FALSE', (5, 2), (6, 3), (8, 4)),
            C('{0, 1}', ('invoke', 'kill', 'exit', 'rel', 'add', 'wait'), ('hold', 'dying'), ('norm', 'slow'), ALL, ALL, 'TRUE', None, None, (9, 4))],
    'C25': [C('{0, 1}', ('invoke', 'bad', 'add', 'kill'), ('hold',), ('norm', 'slow'), ('nil', 'E'), ('nil', 'E'), 'FALSE', (3, 3), (4, 2), (7, 3), invokes=2),
            C('{0, 1, 2}', ('invoke', 'bad', 'add', 'kill', 'exit', 'wait'), ('hold', 'dying'), ('norm', 'slow', 'dead'), ALL, ('nil', 'E'), 'FALSE', None, None, (9, 4), invokes=3)],
    'C26': [C('{1}', ('invoke', 'ctx', 'pcancel', 'rel', 'kill'), ('hold',), ('norm',), ('nil', 'E'), ('nil',), 'TRUE', (6, 2), (7, 3), (9, 3)),
            C('{0, 1, 2}', ('invoke', 'ctx', 'pcancel', 'rel', 'kill', 'exit', 'add'), ('hold', 'dying'), ('norm', 'slow'), ALL, ('nil', 'E'), 'TRUE', None, None, (10, 3))],
})


def cata_cfg(m, maxops, burst, exhaustive):
    c = ['SPECIFICATION Spec', 'CONSTANTS', '  Inits = ' + m['inits'], '  Invokes = %d' % m['invokes'], '  MaxOps = %d' % maxops, '  Burst = %d' % burst,
         '  Ops = ' + s(*m['ops']), '  Works = ' + s(*m['works']), '  Kinds = ' + s(*m['kinds']), '  Classes = ' + s(*m['classes']),
         '  KClasses = ' + s(*m['kcl']), '  Panics = ' + m['panics']]
    if exhaustive:
        c.append('VIEW FullView')
    c += ['INVARIANTS Ok DeadMeansDone Killers AllKilled NeverDropped FailedStopped Show', 'CHECK_DEADLOCK FALSE']
    return '\n'.join(c) + '\n'


def cata_script(m, x, r):
    ws = x['w'] if isinstance(x['w'], list) else [x['w'][k] for k in sorted(x['w'], key=int)]
    ren = lambda k: r.choice(['E', 'E', 'Ea', 'Ef', 'X0', 'X1', 'X2']) if k == 'E' else r.choice(['own', 'owna', 'ownf', 'ownt']) if k == 'own' else \
        r.choice(['for', 'fora', 'forf']) if k == 'for' else r.choice(['td', 'sa']) if k == 'td' else r.choice(['panic', 'panicerr', 'panicint', 'panicodd', 'panicrt', 'panicnil', 'panicempty']) if k == 'P' else k
    names = {}

    def beh(n):
        w = ws[n - 1]
        b = {'ke': ren(w['ke'])}
        if w['kind'] == 'slow':
            b['kill'] = 'slow'
        if w['kind'] == 'dead':
            b['out'], b['e'] = 'dead', ren(w['e'])
        return {k: v for k, v in b.items() if v not in ('', 'nil')}
    steps, cur, gap = [], [], r.choice(GAPS)

    def flush():
        nonlocal cur, gap
        if cur:
            steps.append({'t': cur})
        cur, gap = [], r.choice(GAPS)
    for o in x['h']:
        if o['o'] == 'q':
            flush()
            continue
        op = {'o': o['o'], 'off': len(cur) * gap}
        if o['o'] == 'invoke':
            op['id'] = 'i%d-' % o['c']
            for i, n in enumerate(o['ns']):
                names[n] = op['id'] + str(i)
            op['pl'] = [beh(n) for n in o['ns']]
            op['m'] = {'work': o['e'] if o['e'] != 'bad' else 'hold'}
            op['e'] = ren(x['work'])
            op['n'] = r.randrange(4)
            if o['e'] == 'bad':
                op['k'] = r.choice(['noname', 'nosite', 'nowork', 'nilinit'])
        elif o['o'] == 'add':
            n = o['ns'][0]
            op['id'] = names[n] = 'w%d' % n
            op['pl'] = [beh(n)]
        elif o['o'] in ('exit', 'wkill'):
            op['id'] = names[o['ns'][0]]
        elif o['o'] == 'ctx':
            op['id'] = 'v%d' % o['c']
        elif o['o'] == 'pcancel':
            op['n'] = o['c']
        if o['o'] in ('exit', 'kill', 'rel'):
            op['e'] = ren(o['e'])
        cur.append([op])
    flush()
    return {'comp': 'catacomb', 'seed': r.getrandbits(60), 'mode': r.choice(MODES), 'src': 'tla', 'cfg': {}, 'steps': steps}


# Configurations for Helper.tla.
def H(kinds, errs, deads, ops, times, mc, deep, sim, workers=2):
    return dict(module='Helper', kinds=kinds, errs=errs, deads=deads, ops=ops, times=times, mc=mc, deep=deep, sim=sim, workers=workers)


ALLK = ('lab', 'slow', 'error', 'dead', 'forever')
T = (20, 60, 4000, 11000)
MODELS.update({
    'C27': [H(ALLK, ('nil', 'E'), ('', 'own', 'nil'), ('stop', 'dead', 'exit', 'kill', 'rkill', 'wait'), (20,), (3, 2), (4, 3), (12, 3))],
    'C28': [H(ALLK, ('nil', 'E'), ('',), ('checkkill', 'clean', 'dirty', 'killed', 'alive', 'nilor', 'nobody', 'exit', 'kill', 'rkill', 'sleep', 'wait'), T, (3, 3), (4, 3), (12, 3))],
})
# Labels and contexts of the work.
MODELS['C33'] = [
    R(A, ('start', 'stop', 'kill', 'cancel'), ('ok', 'hold', 'err'), ('nil', 'R1', 'F1'), NO, 'FALSE', (3, 2), (5, 2), (9, 3)),
    C('{0, 1}', ('invoke', 'bad', 'add', 'kill', 'exit'), ('hold',), ('norm',), ('nil', 'E'), ('nil',), 'FALSE', (3, 2), (4, 2), (8, 3), invokes=2),
]
# Nothing is left behind: all parts.
MODELS['C32'] = [
    R(A, ('start', 'worker', 'abort', 'stop', 'kill'), ('ok', 'hold'), ('nil', 'R1', 'F1'), NO, 'FALSE', (3, 2), (5, 2), (9, 3)),
    E('chain2', ('exit', 'kill', 'rel'), ('need', 'hold'), ('nil', 'E'), (3, 2), (5, 3), (7, 3), slow=BOTH),
    C('{0, 1}', ('invoke', 'bad', 'add', 'kill', 'exit'), ('hold',), ('norm', 'slow'), ('nil', 'E'), ('nil',), 'FALSE', (3, 2), (4, 2), (8, 3), invokes=2),
    H(ALLK, ('nil', 'E'), ('', 'own', 'nil'), ('stop', 'dead', 'exit', 'rkill', 'alive', 'checkkill', 'sleep'), (60, 11000), (3, 2), (4, 2), (10, 3)),
]


def helper_cfg(m, maxops, burst, exhaustive):
    c = ['SPECIFICATION Spec', 'CONSTANTS', '  Kinds = ' + s(*m['kinds']), '  Errs = ' + s(*m['errs']), '  Deads = ' + s(*m['deads']),
         '  Ops = ' + s(*m['ops']), '  MaxWorkers = %d' % (m['workers'] if exhaustive else 4), '  MaxOps = %d' % maxops, '  Burst = %d' % burst,
         '  Times = {%s}' % ', '.join(str(1000 * t) for t in m['times'])]
    if exhaustive:
        c.append('VIEW FullView')
    c += ['INVARIANTS Ok Promised Channels NoneLost Show', 'CHECK_DEADLOCK FALSE']
    return '\n'.join(c) + '\n'


def helper_script(m, x, r):
    steps, cur, gap = [], [], r.choice(GAPS)

    def flush():
        nonlocal cur, gap
        if cur:
            steps.append({'t': cur})
        cur, gap = [], r.choice(GAPS)
    for o in x['h']:
        if o['o'] == 'q':
            flush()
            continue
        op = {'o': o['o'], 'off': len(cur) * gap}
        if o['o'] == 'sleep':
            op = {'o': 'sleep', 'n': o['n'] // 1000}
        elif o['n']:
            op['id'] = 'h%d' % o['n']
        if o['o'] == 'new':
            op['k'] = 'lab' if o['kind'] == 'slow' else o['kind']
            op['e'] = o['e'] if o['e'] == 'nil' else 'E1'
            op['m'] = {'dead': o['dead']}
            op['pl'] = [{'kill': 'slow' if o['kind'] == 'slow' else r.choice(['now', 'now', 'delay']), 'ke': r.choice(['nil', 'E1'])}]
            # It exists before anything is done with it.
            flush()
            steps.append({'t': [[op]]})
            continue
        if o['o'] == 'exit':
            op['e'] = o['e'] if o['e'] == 'nil' else 'E1'
        cur.append([op])
    flush()
    return {'comp': 'helper', 'seed': r.getrandbits(60), 'mode': r.choice(MODES), 'src': 'tla', 'cfg': {}, 'steps': steps}


KINDS = {'Helper': (helper_cfg, helper_script), 'Catacomb': (cata_cfg, cata_script), 'Runner': (runner_cfg, runner_script), 'Engine': (engine_cfg, engine_script)}


def run(m, kind, tier, seed, num, scratch, out, seen):
    """One exploration of one configuration: exhaustive (mc) or random (sim)."""
    cfg, _ = KINDS[m['module']]
    deep = tier == 'thorough'
    b = m['sim'] if kind == 'sim' else m['deep'] if deep else m['mc']
    if b is None:
        return
    mo, bu = b
    f = os.path.join(scratch, 'design-%s.cfg' % kind)
    with open(f, 'w') as fh:
        fh.write(cfg(m, mo, bu, kind == 'mc'))
    extra = ()
    if kind == 'sim':
        extra = ('-simulate', 'num=%d' % (num // NCPU), '-depth', '400', '-seed', str(seed))
    t0 = time.time()
    rc, o = tlc(os.path.join(SPEC, m['module'] + '.tla'), f, scratch, timeout=300 if deep else 100, extra=extra)
    n = 0
    for line in o.split('\n'):
        line = unq(line)
        if line.startswith('SCRIPT '):
            seen.setdefault(line[7:], kind)
            n += 1
    if 'is violated' in o or 'Error:' in o:
        raise CheckError('the design specification %s does not keep the contract:\n%s' % (m['module'], '\n'.join(l for l in o.split('\n') if 'SCRIPT' not in l)[-6000:]))
    g, d = stats(o)
    if kind == 'sim':
        mm = re.search(r'The number of states generated: (\d+)', o)
        g = int(mm.group(1)) if mm else 0
        out['design_random_states'] = out.get('design_random_states', 0) + g
    else:
        out['design_states'], out['design_transitions'] = out.get('design_states', 0) + d, out.get('design_transitions', 0) + g
        out.setdefault('design_exhaustive', []).append({'module': m['module'], 'complete': rc == 0, 'operations': mo, 'burst': bu, 'states': d,
                                                        'constants': {k: str(v) for k, v in m.items() if k not in ('mc', 'deep', 'sim', 'module')}})
    log('%s (%s): %d transitions, %d distinct states, %d behaviours shown, %.1fs' % (m['module'], kind, g, d, n, time.time() - t0))


def explore(prop, tier, seed, scratch):
    """Explore the design: exhaustively within small bounds, at random within larger ones.

    Returns None if there is no design specification for the property, else
    (statistics, scripts)."""
    ms = MODELS.get(prop)
    if ms is None:
        return None
    if not isinstance(ms, list):
        ms = [ms]
    deep = tier == 'thorough'
    r = random.Random(seed * 7919 + vlib.hash_str(prop))
    out, scripts = {}, []
    cap = 40000 if deep else 2400
    for j, m in enumerate(ms):
        seen = {}
        num = cap // len(ms)
        run(m, 'mc', tier, seed, num, scratch, out, seen)
        run(m, 'sim', tier, seed * 1000 + vlib.hash_str(prop) % 1000 + j, num, scratch, out, seen)
        _, script = KINDS[m['module']]
        hs = sorted(h for h in seen if seen[h] == 'mc')
        ss = sorted(h for h in seen if seen[h] == 'sim')
        r.shuffle(hs)
        r.shuffle(ss)
        hs = hs[:num // 2]
        ss = ss[:num - len(hs)]
        scripts += [json.dumps(script(m, json.loads(h), r)) for h in hs + ss]
    r.shuffle(scripts)
    out['design_behaviours'] = len(scripts)
    return out, scripts
