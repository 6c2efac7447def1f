"""C12 - bounds is the exact extent of the accepted rings."""
from vlib import gen
from vlib.engine import Outcome
from vlib.impl import BOTH, CPP

ID = 'C12'
RULE = ('Histories: any integer rings, degenerate ones included, of either kind are added one by one or as polygons, bounds '
        'asked at any moment, the clipper cleared, operations run in between. bounds '
        'must each time be the smallest box around what remains of the rings held once parts that enclose '
        'nothing are dropped, and (0, 0, 0, 0) when nothing remains. The reference cleans rings by '
        'itself. Non-trivial: at least one ring is accepted.')
PLAN = {'quick': {'all': 60000, 'history': 40000, 'long': 300}, 'thorough': {'all': 4000000, 'history': 3000000, 'long': 30000}}


def make(stream, rng):
    pick = rng.random()
    if stream == 'long':
        _, subject, clip = gen.long_any(rng)
        rings = subject + clip
    elif pick < .35:
        size, scale = rng.choice((2, 3, 5)), rng.choice((1, 1, 60))
        rings = [gen.degenerate_ring(rng, size, scale) for _ in range(rng.randint(0, 4))]
    elif pick < .6:
        extent = rng.choice((3, 20, 10 ** 6, 10 ** 8))
        rings = [[(rng.randint(-extent, extent), rng.randint(-extent, extent))
                  for _ in range(rng.randint(0, 8))] for _ in range(rng.randint(1, 3))]
    elif pick < .95:
        _, subject, clip = (gen.lattice if rng.random() < .6 else gen.general)(rng)
        rings = subject + clip
    else:
        _, subject, clip = gen.many(rng, rng.random() < .5)
        rings = subject + clip
    dx, dy = ((0, 0) if rng.random() < .3 else gen.far(rng) if rng.random() < .1 else
              (rng.choice((0, -100, 100, 10 ** 5, -10 ** 5)) for _ in range(2)))
    rings = [[(x + dx, y + dy) for x, y in ring] for ring in rings]
    steps = []
    if stream != 'history':
        clear_at = rng.randrange(len(rings) + 1) if rings and rng.random() < .15 else -1
        for index in range(len(rings)):
            if index == clear_at:
                steps.append(['clear'])
            steps.append(['ring', index, rng.randrange(2)])
        if rng.random() < .1 and pick >= .6:
            steps.append(['execute', *gen.operation(rng)])
        steps += [['bounds'], ['bounds']]
    else:
        rings = rings[:6]
        for index in range(len(rings)):
            if rng.random() < .5:
                # as many local minima elsewhere
                dx, dy = rng.randint(-9, 9) * 100, rng.randint(-9, 9) * 100
                rings.append([(x + dx, y + dy) for x, y in rings[index]])
        for _ in range(rng.randint(2, 12)):
            pick_step = rng.random()
            if pick_step < .5 and rings:
                steps.append(['ring', rng.randrange(len(rings)), rng.randrange(2)])
            elif pick_step < .57:
                steps.append(['polygon', [rng.randrange(len(rings)) for _ in range(rng.randint(0, 3))]
                              if rings else [], rng.randrange(2)])
            elif pick_step < .7:
                steps.append(['clear'])
            elif pick_step < .75 and pick >= .6:
                steps.append(['execute', *gen.operation(rng)])
            else:
                steps.append(['bounds'])
        steps.append(['bounds'])
    return {'rings': rings, 'steps': steps, 'port': rng.random() < .4}


def cleaned(ring):
    """The ring without repeats, collinear vertices and retraced strokes."""
    points = [tuple(point) for point in ring]
    changed = True
    while changed and len(points) >= 3:
        changed = False
        index = 0
        while index < len(points) and len(points) >= 3:
            a, b, c = points[index - 1], points[index], points[(index + 1) % len(points)]
            if a == b or (b[0] - a[0]) * (c[1] - b[1]) == (b[1] - a[1]) * (c[0] - b[0]):
                del points[index]
                changed = True
                index = max(0, index - 1)
            else:
                index += 1
    return points if len(points) >= 3 else []


def extent(rings):
    points = [point for ring in rings for point in ring]
    if not points:
        return (0, 0, 0, 0)
    return (min(x for x, _ in points), min(y for _, y in points),
            max(x for x, _ in points), max(y for _, y in points))


def run(case):
    clean = [cleaned(ring) for ring in case['rings']]
    any_held = False
    for impl in BOTH if case['port'] else (CPP,):
        clipper = impl.Wagyu()
        held = []
        for number, (what, *arguments) in enumerate(case['steps']):
            if what == 'clear':
                clipper.clear()
                held = []
            elif what == 'execute':
                impl.execute(clipper, *arguments)
            elif what == 'bounds':
                got, expected = impl.bounds(clipper), extent([clean[index] for index in held])
                if got != expected:
                    return Outcome('%s: step %d: bounds %s, expected %s' % (impl.name, number, got, expected))
                any_held = any_held or any(clean[index] for index in held)
            else:
                index, kind = arguments
                indices = index if what == 'polygon' else [index]
                added = (clipper.add_polygon(impl.polygon([case['rings'][index] for index in indices]),
                                             impl.kinds[kind]) if what == 'polygon' else
                         clipper.add_linear_ring(impl.ring(case['rings'][index]), impl.kinds[kind]))
                held += indices
                if added != any(clean[index] for index in indices):
                    return Outcome('%s: step %d: adding %s returned %r'
                                   % (impl.name, number, [case['rings'][index] for index in indices], added))
    return Outcome(None, any_held, ['cleared'] if ['clear'] in case['steps'] else [])


def shrink(case):
    steps = case['steps']
    for index in range(len(steps)):
        yield {**case, 'steps': steps[:index] + steps[index + 1:]}
    for index, ring in enumerate(case['rings']):
        for cut in range(len(ring)):
            yield {**case, 'rings': [r if k != index else r[:cut] + r[cut + 1:]
                                     for k, r in enumerate(case['rings'])]}
