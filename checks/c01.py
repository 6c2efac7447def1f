"""C01 - the result region is exactly the fill-rule combination (lattice-exact input)."""
from vlib import gen, geom
from vlib.engine import HarnessError, Outcome
from vlib.impl import BOTH, CPP, OPS

ID = 'C01'
RULE = ('Rings with slopes 0/1/-1/infinity on an even lattice (rectilinear, octilinear, blocks, '
        'nested, checkerboards, frames with chained holes, cell mosaics, combs, spirals; '
        'scaled, shifted, transposed, with redundant vertices), any operation and pair of fill '
        'rules, on both implementations; plus chains of two or three operations feeding '
        'results back in; plus crowds of up to 310 rings (stacks, copies, staircases, islands, '
        'sieves), and rings of up to 2800 vertices (saws, staircases, spirals, walks). Some inputs are placed as far out as 2^40. Non-trivial: some step has a non-empty result '
        'whose boundary differs from its subject.')
PLAN = {'quick': {'single': 24000, 'chain': 5000, 'crowd': 240, 'long': 300},
        'thorough': {'single': 1500000, 'chain': 300000, 'crowd': 12000, 'long': 20000}}
ASSUMPTIONS = ['integer coordinates up to 2^40; crossings of the input are '
               'lattice points, so no rounding is involved']


def make(stream, rng):
    family, subject, clip = {'crowd': gen.crowd, 'long': gen.long}.get(stream, gen.lattice)(rng)
    op, subject_fill, clip_fill = gen.operation(rng)
    steps = [[clip, op, subject_fill, clip_fill]]
    if stream == 'chain':
        # further operands on the same lattice placement
        for _ in range(rng.randint(1, 2)):
            rings = []
            source = subject + clip
            for ring in rng.sample(source, min(len(source), rng.randint(1, 3))):
                # moves that keep every supporting line on the even lattice
                step = 2 * rng.randint(-3, 3)
                dx, dy = rng.choice(((step, 0), (0, step), (step, step)))
                rings.append([(x + dx, y + dy) for x, y in ring])
            op, _, clip_fill = gen.operation(rng)
            steps.append([rings, op, rng.choice((0, 1)), clip_fill])
    return {'family': family, 'subject': subject, 'steps': steps,
            'port': stream != 'crowd' or len(subject + clip) <= 160 and rng.random() < .4}


def run(case):
    subject, steps = case['subject'], case['steps']
    labels = {'family ' + case['family'].split('/')[0]}
    subject = [list(map(tuple, ring)) for ring in subject]
    nontrivial = False
    for impl in BOTH if case.get('port', True) else (CPP,):
        current = subject
        for number, (clip, op, subject_fill, clip_fill) in enumerate(steps):
            clip = [list(map(tuple, ring)) for ring in clip]
            if not geom.on_even_lattice(geom.edges_of(current + clip)):
                raise HarnessError('case outside the domain')
            result = impl.clip(current, clip, op, subject_fill, clip_fill)
            rings = geom.int_rings(result)
            if not geom.is_octilinear(geom.edges_of(rings)):
                return Outcome('%s: step %d: %s (%d, %d) has an edge along no input edge: %s'
                               % (impl.name, number, op, subject_fill, clip_fill, result))
            where = geom.lattice_region_difference(current, clip, op, subject_fill,
                                                   clip_fill, rings)
            if where is not None:
                return Outcome(
                    '%s: step %d: %s (%d, %d) is wrong around %s: %s'
                    % (impl.name, number, op, subject_fill, clip_fill, where,
                       result))
            if rings:
                labels.add('op ' + op)
                if any(len(polygon) > 1 for polygon in result):
                    labels.add('holes')
                if len(result) > 1:
                    labels.add('several polygons')
                if len(rings) != len(current) or geom.chain(rings) != geom.chain(current):
                    nontrivial = True
            current = rings
    return Outcome(None, nontrivial, labels)


def corpus():
    square = [[0, 0], [8, 0], [8, 8], [0, 8]]
    for op in OPS:
        for subject_fill in range(4):
            for clip_fill in range(4):
                yield {'family': 'corpus', 'subject': [square],
                       'steps': [[[[[4, 4], [12, 4], [12, 12], [4, 12]]], op,
                                  subject_fill, clip_fill]]}
