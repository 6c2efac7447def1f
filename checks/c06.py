"""C06 - reverse_output only reverses the direction of the rings."""
from vlib import gen
from vlib.engine import Outcome
from vlib.impl import BOTH, CPP

ID = 'C06'
RULE = ('Lattice and arbitrary integer rings, any operation and fill rules, evaluated with both output '
        'directions: same polygons in the same order, each ring the exact reverse of its '
        'counterpart. Non-trivial: the result has a hole or at least two polygons.')
PLAN = {'quick': {'extension': 40000, 'both': 7000, 'many': 3000, 'long': 300},
        'thorough': {'extension': 2000000, 'both': 400000, 'many': 200000, 'long': 30000}}


def make(stream, rng):
    if stream == 'many':
        family, subject, clip = gen.many(rng, rng.random() < .5)
    elif stream == 'long':
        family, subject, clip = gen.long_any(rng)
    else:
        family, subject, clip = (gen.lattice if rng.random() < .6 else gen.general)(rng)
    op, subject_fill, clip_fill = gen.operation(rng)
    return {'family': family, 'subject': subject, 'clip': clip, 'op': op,
            'fills': [subject_fill, clip_fill], 'port': stream == 'both' or stream in ('many', 'long') and rng.random() < .1}


def turned(polygons):
    return [[ring[::-1] for ring in polygon] for polygon in polygons]


def run(case):
    nontrivial = False
    for impl in BOTH if case['port'] else (CPP,):
        forward = impl.clip(case['subject'], case['clip'], case['op'], *case['fills'], False)
        backward = impl.clip(case['subject'], case['clip'], case['op'], *case['fills'], True)
        if turned(forward) != backward:
            return Outcome('%s: %s (%s): reversed output of %s is %s'
                           % (impl.name, case['op'], case['fills'], forward, backward))
        nontrivial = len(forward) > 1 or any(len(polygon) > 1 for polygon in forward)
    return Outcome(None, nontrivial, ['family ' + case['family'].split('/')[0]])
