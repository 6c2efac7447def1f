"""C07 - the pure-Python port and the native extension are interchangeable."""
import itertools

from vlib import gen
from vlib.engine import Outcome
from vlib.impl import CPP, OPS, PORT, minimums

ID = 'C07'
RULE = ('Crowded unit grids (where crossings share pixels), lattice, arbitrary and degenerate rings, '
        'plus every pair of triangles of a 3x3 grid under one of the operations; both implementations must '
        'give the same acceptance of each ring, bounds, local minima, and the same result vertex '
        'by vertex, or fail with the same error. Non-trivial: the result is non-empty.')
PLAN = {'quick': {'crowded': 36000, 'lattice': 8000, 'general': 5000, 'degenerate': 8000,
                  'triangles': 5776, 'many': 1500, 'long': 400, 'fans': 3000},
        'thorough': {'crowded': 3000000, 'lattice': 500000, 'general': 300000,
                     'degenerate': 500000, 'triangles': 92416, 'many': 100000, 'long': 40000, 'fans': 400000}}

POINTS = list(itertools.product(range(3), range(3)))
TRIANGLES = [t for t in itertools.combinations(POINTS, 3)
             if (t[1][0] - t[0][0]) * (t[2][1] - t[0][1]) != (t[1][1] - t[0][1]) * (t[2][0] - t[0][0])]


def make(stream, rng):
    op, subject_fill, clip_fill = gen.operation(rng)
    if stream == 'crowded':
        _, subject, clip = gen.crowded(rng)
    elif stream == 'lattice':
        _, subject, clip = gen.lattice(rng)
    elif stream == 'many':
        _, subject, clip = gen.many(rng, rng.random() < .5)
    elif stream == 'fans':
        _, subject, clip = gen.fans(rng)
    elif stream == 'long':
        _, subject, clip = gen.long_any(rng)
    elif stream == 'general':
        _, subject, clip = gen.general(rng)
    elif stream == 'degenerate':
        scale = rng.choice((1, 1, 1, 10, 1000))
        size = rng.choice((2, 3, 5))
        subject = [gen.degenerate_ring(rng, size, scale) for _ in range(rng.randint(0, 3))]
        clip = [gen.degenerate_ring(rng, size, scale) for _ in range(rng.randint(0, 3))]
    else:
        subject, clip = [list(rng.choice(TRIANGLES))], [list(rng.choice(TRIANGLES))]
        subject, clip = [gen.flipped(rng, subject[0])], [gen.flipped(rng, clip[0])]
        if rng.random() < .5:
            subject_fill, clip_fill = rng.randrange(2), rng.randrange(2)
    return {'stream': stream, 'subject': subject, 'clip': clip, 'op': op,
            'fills': [subject_fill, clip_fill], 'reverse': rng.random() < .2}


def observe(impl, case):
    clipper = impl.Wagyu(case['reverse'])
    log = []
    for kind, rings in enumerate((case['subject'], case['clip'])):
        for ring in rings:
            log.append(bool(clipper.add_linear_ring(impl.ring(ring), impl.kinds[kind])))
    log.append(impl.bounds(clipper))
    log.append(minimums(impl, clipper))
    log.append([float(value) for value in clipper.minimums.scanbeams])
    try:
        log.append(impl.plain(impl.execute(clipper, case['op'], *case['fills'])))
    except RuntimeError as error:
        log.append('RuntimeError ' + str(error).strip(' .'))
    log.append(impl.bounds(clipper))
    return log


NAMES = ('bounds', 'local minima', 'scanbeams', 'result', 'bounds afterwards')


def run(case):
    native, port = observe(CPP, case), observe(PORT, case)
    if native != port:
        rings = len(case['subject']) + len(case['clip'])
        for index, (a, b) in enumerate(zip(native, port)):
            if a != b:
                what = ('acceptance of ring %d' % index if index < rings
                        else NAMES[index - rings])
                return Outcome('%s (%s): %s differ: extension %s, port %s'
                               % (case['op'], case['fills'], what, a, b))
    result = native[-2]
    return Outcome(None, not isinstance(result, str) and bool(result),
                   [case['stream'], 'both fail' if isinstance(result, str)
                    else ('empty' if not result else 'result')])


def corpus():
    """Inputs on which the two were found to differ (see DESIGN.md)."""
    def case(subject, clip, op, *fills):
        return {'stream': 'corpus', 'subject': subject, 'clip': clip, 'op': op,
                'fills': list(fills), 'reverse': False}
    yield case([], [[[1, 2], [3, 0], [0, 1]], [[0, 1], [1, 2], [0, 0], [2, 2]]],
               'symmetric_subtract', 2, 0)
    yield case([[[3, 1], [1, 3], [3, 0]], [[3, 0], [3, 1], [1, 3]]],
               [[[3, 2], [1, 2], [2, 1], [2, 3]]], 'unite', 0, 0)
    yield case([[[0, 1], [1, 1], [4, 5]]],
               [[[0, 1], [3, 5], [1, 1]], [[5, 1], [1, 2], [4, 2], [3, 5]]], 'unite', 0, 0)
    for op in OPS:
        yield case([], [], op, 0, 0)
