"""C02 - general integer input: the result is right away from the input edges."""
from vlib import gen, geom, ref
from vlib.engine import Outcome
from vlib.impl import BOTH, CPP

ID = 'C02'
TOLERANCE = .75
RULE = ('Arbitrary integer rings (self-intersecting grid tangles scaled by 60..9973, uniform up to '
        '10^7, many-vertex stars, clips sharing vertices and edges with the subject), any '
        'operation and fill rules. Every place where the result and the fill-rule combination '
        'differ must lie within 0.75 (half a pixel diagonal is 0.7072) of an input edge, and every '
        'result vertex within 0.7072. Non-trivial: the expected region has positive area and '
        'the result differs from it or has a vertex that is no input vertex.')
PLAN = {'quick': {'extension': 40000, 'both': 6000, 'busy': 3000, 'long': 200},
        'thorough': {'extension': 3000000, 'both': 400000, 'busy': 200000, 'long': 20000}}
ASSUMPTIONS = ['coordinates up to about 2^24', 'inputs are not crowded into a unit grid of a '
               'few pixels, where 0.75 would cover everything']


def prepare():
    ref.library()


def make(stream, rng):
    family, subject, clip = {'busy': gen.busy, 'long': gen.tangled}.get(stream, gen.general)(rng)
    op, subject_fill, clip_fill = gen.operation(rng)
    return {'family': family, 'subject': subject, 'clip': clip, 'op': op,
            'fills': [subject_fill, clip_fill], 'port': stream == 'both' or stream in ('busy', 'long') and rng.random() < .1}


def run(case):
    subject = [list(map(tuple, ring)) for ring in case['subject']]
    clip = [list(map(tuple, ring)) for ring in case['clip']]
    op = case['op']
    subject_fill, clip_fill = case['fills']
    labels = ['family ' + case['family'], 'op ' + op]
    nontrivial = False
    edges = geom.edges_of(subject + clip)
    vertices = {point for ring in subject + clip for point in ring}
    for impl in BOTH if case['port'] else (CPP,):
        result = impl.clip(subject, clip, op, subject_fill, clip_fill)
        rings = geom.int_rings(result)
        worst, x, y, count, area = ref.worst_difference(
            subject, clip, op, subject_fill, clip_fill, rings)
        if worst > TOLERANCE:
            return Outcome('%s: %s (%d, %d) is wrong at (%r, %r), %.3f from every input edge: %s'
                           % (impl.name, op, subject_fill, clip_fill, x, y, worst, result))
        fresh = {point for ring in rings for point in ring} - vertices
        for point in fresh:
            if min(geom.distance2(point, a, b) for a, b in edges) > .50001:
                return Outcome('%s: %s (%d, %d): vertex %s is on no input edge: %s'
                               % (impl.name, op, subject_fill, clip_fill, point, result))
        if area > 0 and (count or fresh):
            nontrivial = True
    return Outcome(None, nontrivial, labels)
