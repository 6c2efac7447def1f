"""C22 - objects handed out by the extension stay valid whatever becomes of their owners."""
import hashlib
import json
import os
import subprocess
import sys

from vlib import build, env, gen
from vlib.engine import HarnessError, Outcome

ID = 'C22'
RULE = ('Random programs on the extension, itself built with AddressSanitizer: objects are made (rings, polygons, results, '
        'clippers, ring managers, ...), further objects reached from them (items, attributes, lists), any of them dropped in any '
        'order, rings added and operations run; after every step each object still held is read in full and must '
        'hold what it held when it was reached. Non-trivial: at least three objects reached from others.')
PLAN = {'quick': {'programs': 64}, 'thorough': {'programs': 6000}}
BATCH = 60
UNLIMITED = True
HANG_S = 600.
ASSUMPTIONS = ['a list of local minima is not cleared or copied while parts of it are held (see the known findings)']
_paths = None


def prepare():
    global _paths
    _paths = build.asan_extension(), *build.asan_libraries()


def program(rng):
    pick = rng.random()
    _, subject, clip = (gen.lattice if pick < .6 else gen.crowded if pick < .8 else
                        lambda r: gen.general(r, False))(rng)
    rings = (subject + clip)[:6] + ([gen.degenerate_ring(rng, 4, 60)] if rng.random() < .3 else [])
    some = lambda: [rng.randrange(len(rings)) for _ in range(rng.randint(0 if rng.random() < .1 else 1, 4))]  # noqa
    steps = [['make', rng.choice(('clipper', 'clipper', 'result', 'manager', 'polygon', 'ring', 'multipolygon')), some()]]
    for _ in range(rng.randint(4, 16)):
        pick = rng.random()
        if pick < .55:
            # mostly from what was reached last
            steps.append(['child', -1 - rng.randrange(2) if rng.random() < .7 else rng.randrange(9),
                          rng.randrange(60)])
        elif pick < .6:
            # down to a part of a part, keeping that only
            steps += [['child', -1, rng.randrange(60)] for _ in range(rng.randint(1, 5))] + [['keep', -1]]
        elif pick < .66:
            steps.append(['iterate', -1 - rng.randrange(2) if rng.random() < .7 else rng.randrange(9)])
        elif pick < .8:
            steps.append(['drop', rng.randrange(9) if rng.random() < .5 else 0])
        elif pick < .86:
            steps.append(['make', rng.choice(('clipper', 'result', 'manager', 'polygon', 'ring', 'multipolygon', 'box',
                                              'edge')), some()])
        elif pick < .91:
            steps.append(['add', rng.randrange(3), rng.randrange(len(rings)), rng.randrange(2)])
        else:
            steps.append(['operate', rng.randrange(3), *(rng.randrange(4) for _ in range(3))])
    op, subject_fill, clip_fill = gen.operation(rng)
    return {'rings': rings, 'steps': steps, 'op': op, 'fills': [subject_fill, clip_fill], 'stage': rng.randrange(3)}


def corpus():
    square, triangle = [[0, 0], [4, 0], [4, 4], [0, 4]], [[1, 1], [9, 1], [1, 9]]
    common = {'rings': [square, triangle], 'op': 'unite', 'fills': [0, 0]}
    yield {'programs': [
        {**common, 'stage': 0, 'steps': [['make', 'clipper', [0, 1]], ['child', 0, 0], ['child', 1, which], ['drop', 1],
                                         ['drop', 0]]} for which in range(3)]}
    yield {'programs': [
        {**common, 'stage': stage, 'op': op, 'steps': [['make', 'manager', [0, 1, 0]], ['child', 0, 1], ['child', -1, 0],
                                                       ['child', -1, 5]]}
        for stage in range(3) for op in ('unite', 'intersect', 'subtract', 'symmetric_subtract')]}
    yield {'programs': [
        {**common, 'stage': 0, 'steps': [['make', kind, [0, 1]], ['child', 0, 0], ['iterate', -1], ['drop', 0], ['drop', 0]]}
        for kind in ('clipper', 'result', 'multipolygon', 'polygon')]}


def make(stream, rng):
    return {'programs': [program(rng) for _ in range(BATCH)]}


def run(case):
    if _paths is None:
        prepare()
    extension, *preload = _paths
    environment = {'PATH': '/usr/bin:/bin', 'LD_PRELOAD': ' '.join(preload), 'PYTHONMALLOC': 'malloc',
                   'PYTHONDONTWRITEBYTECODE': '1',
                   'ASAN_OPTIONS': 'detect_leaks=0:handle_abort=1:allocator_may_return_null=1'}
    runner = os.path.join(env.VERIF, 'harness', 'lifetimes.py')
    try:
        done = subprocess.run([sys.executable, '-S', runner, extension], input=json.dumps(case['programs']).encode(),
                              capture_output=True, env=environment, timeout=300)
    except subprocess.TimeoutExpired:
        return Outcome('the extension does not return')
    output = done.stdout.decode(errors='replace').splitlines()
    if done.returncode:
        at = sum(line.startswith('case ') for line in output) - 1
        errors = done.stderr.decode(errors='replace')
        found = [line for line in errors.splitlines() if 'ERROR: AddressSanitizer' in line]
        if at < 0 or not (found or output[-1].startswith('PROBLEM ')) and 'Traceback' in errors:
            raise HarnessError('cannot run the harness: ' + errors[-2000:])
        message = output[-1][8:] if output[-1].startswith('PROBLEM ') else (
            found[0].split('ERROR: ')[1].split(' on ')[0] if found else 'the process died')
        return Outcome(message, case={'programs': [case['programs'][at]]})
    oks = [int(line.split()[1]) for line in output if line.startswith('ok ')]
    if len(oks) != len(case['programs']):
        raise HarnessError('the harness answered %d of %d cases' % (len(oks), len(case['programs'])))
    keys = [hashlib.blake2b(json.dumps(item).encode(), digest_size=8).digest()
            for item, reached in zip(case['programs'], oks) if reached > 2]
    return Outcome(None, labels=('batch',), weight=len(oks), keys=keys)


def shrink(case):
    if len(case['programs']) > 1:
        for item in case['programs']:
            yield {'programs': [item]}
        return
    item = case['programs'][0]
    for index in range(len(item['steps'])):
        yield {'programs': [{**item, 'steps': item['steps'][:index] + item['steps'][index + 1:]}]}
    for index, ring in enumerate(item['rings']):
        for cut in range(len(ring)):
            yield {'programs': [{**item, 'rings': [r if k != index else r[:cut] + r[cut + 1:]
                                                   for k, r in enumerate(item['rings'])]}]}
