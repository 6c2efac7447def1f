"""C05 - results are valid multipolygons."""
from vlib import gen, geom
from vlib.engine import Outcome
from vlib.impl import BOTH, CPP

ID = 'C05'
RULE = ('Lattice and arbitrary integer rings, any operation, fill rules, and output direction. Every '
        'result: rings closed, at least three vertices, none visited twice, non-zero area, integer '
        'vertices inside the input extent, exteriors one way and holes the other; no two '
        'edges cross, overlap or meet in an edge interior; holes inside their exterior, not '
        'overlapping, polygons disjoint, interiors connected. A stream of crowded unit grids is judged by '
        'everything but collisions of edges. Non-trivial: the result has a hole or '
        'at least two polygons.')
PLAN = {'quick': {'extension': 40000, 'both': 8000, 'many': 3000, 'long': 300, 'fans': 4000, 'crowded': 20000},
        'thorough': {'extension': 2500000, 'both': 400000, 'many': 200000, 'long': 30000, 'fans': 500000, 'crowded': 2000000}}
# what pixels shared by several crossings lead to now and then (see the known findings)
COLLISIONS = ('edges ', 'polygons overlap')


def make(stream, rng):
    if stream == 'crowded':
        family, subject, clip = gen.crowded(rng)
    elif stream == 'many':
        family, subject, clip = gen.many(rng, rng.random() < .5)
    elif stream == 'fans':
        family, subject, clip = gen.fans(rng)
    elif stream == 'long':
        family, subject, clip = gen.long_any(rng)
    else:
        family, subject, clip = (gen.lattice if rng.random() < .55 else gen.general)(rng)
    op, subject_fill, clip_fill = gen.operation(rng)
    return {'family': family, 'subject': subject, 'clip': clip, 'op': op,
            'fills': [subject_fill, clip_fill], 'reverse': rng.random() < .3,
            'port': stream == 'both' or stream in ('many', 'crowded', 'long', 'fans') and rng.random() < .1}


def run(case):
    subject = [list(map(tuple, ring)) for ring in case['subject']]
    clip = [list(map(tuple, ring)) for ring in case['clip']]
    labels = ['family ' + case['family'].split('/')[0]]
    nontrivial = False
    for impl in BOTH if case['port'] else (CPP,):
        try:
            result = impl.clip(subject, clip, case['op'], *case['fills'], case['reverse'])
        except RuntimeError:
            if case['family'] != 'crowded':
                raise
            continue
        problem = geom.validity_problem(result, subject + clip, case['reverse'])
        if problem and case['family'] == 'crowded' and problem.startswith(COLLISIONS):
            continue
        if problem:
            return Outcome('%s: %s (%s): %s: %s' % (impl.name, case['op'], case['fills'],
                                                    problem, result))
        holes = sum(len(polygon) - 1 for polygon in result)
        if holes:
            labels.append('holes')
            if len(result) > 1:
                labels.append('holes and several polygons')
        nontrivial = bool(holes) or len(result) > 1
    return Outcome(None, nontrivial, set(labels))
