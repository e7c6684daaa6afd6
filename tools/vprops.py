"""Which components and scenario foci decide which property."""
COMPONENTS = {
    'runner': dict(module='RunnerTrace', n=4000),
    'engine': dict(module='EngineTrace', n=4000),
    'catacomb': dict(module='CatacombTrace', n=6000),
    'helper': dict(module='HelperTrace', n=4000),
    'panic': dict(module='RunnerTrace', n=24, thorough=4),
    'stub': dict(module='HelperTrace', n=400),
    'graph': dict(module='EngineTrace', n=512),
}
PROPS = {}
for i in range(1, 12):
    PROPS['C%02d' % i] = [('runner', 'C%02d' % i)]
for i in range(12, 22):
    PROPS['C%02d' % i] = [('engine', 'C%02d' % i)]
for i in range(22, 27):
    PROPS['C%02d' % i] = [('catacomb', 'C%02d' % i)]
PROPS['C20'].append(('graph', ''))
PROPS['C27'] = [('helper', 'C27')]
PROPS['C28'] = [('helper', 'C28')]
PROPS['C30'] = [('stub', '')]
PROPS['C34'] = [('runner', 'C34'), ('panic', '')]
PROPS['C33'] = [('runner', 'C03'), ('catacomb', 'C22')]
PROPS['C32'] = [('runner', 'C32'), ('engine', 'C32'), ('catacomb', 'C32'), ('helper', 'C32')]
PROPS['C31'] = [('graph', ''), ('engine', 'C31')]
