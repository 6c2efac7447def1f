"""C15 - no vertex is invented: hot pixels and results consist of rounded vertices and crossings."""
from fractions import Fraction

from vlib import gen, geom
from vlib.engine import Outcome
from vlib.impl import BOTH, CPP, OPS

ID = 'C15'
RULE = ('General, crowded and lattice inputs. By exact rational arithmetic the set of points (input vertices kept by the '
        'edge cleanup, common points of two edges) is computed; the hot pixels must be their rounding (ties, '
        'where floating evaluation is exact: up, away from zero along horizontal edges; either neighbour allowed '
        'within 1e-6 of any other tie), sorted and unique, and every vertex of a result a hot pixel. Non-trivial: some crossing is not an input vertex.')
PLAN = {'quick': {'general': 5000, 'crowded': 12000, 'lattice': 4000, 'many': 300, 'long': 100},
        'thorough': {'general': 600000, 'crowded': 1200000, 'lattice': 300000, 'many': 20000, 'long': 6000}}
EPS = Fraction(1, 10 ** 6)


def make(stream, rng):
    _, subject, clip = {'general': gen.general, 'crowded': gen.crowded, 'lattice': gen.lattice,
                        'long': gen.long_any,
                        'many': lambda rng: gen.many(rng, rng.random() < .3)}[stream](rng)
    return {'subject': subject, 'clip': clip, 'requests': [list(gen.operation(rng)) for _ in range(2)],
            'stream': stream}


def fraction(edge, point):
    """How far along the edge the point of it lies."""
    (ax, ay), (bx, by) = edge
    return (point[0] - ax) / Fraction(bx - ax) if bx != ax else (point[1] - ay) / Fraction(by - ay)


def tie_rule(first, second, point):
    """Which way ties go, where evaluation in floating point is exact, else None."""
    if any(abs(value) > 2 ** 24 for edge in (first, second) for end in edge for value in end):
        return None
    slanted = [edge for edge in (first, second) if edge[0][1] != edge[1][1]]
    if len(slanted) == 2:
        # both parameters of the crossing are representable, a multiple of an end then is the point itself
        if all(is_short(fraction(edge, point)) for edge in slanted):
            return 'up'
    elif slanted:
        (ax, ay), (bx, by) = slanted[0]
        # the position of an edge on a scanline
        if is_short(Fraction(bx - ax, by - ay)):
            return 'away'
    return None


def is_short(value):
    return value.denominator & (value.denominator - 1) == 0 and value.denominator <= 2 ** 20


def candidates(value, rule):
    """Integers the coordinate may be rounded to."""
    floor = value.numerator // value.denominator
    rest = value - floor
    half = Fraction(1, 2)
    if rest == half and rule is not None:
        return (floor,) if rule == 'away' and value < 0 else (floor + 1,)
    if rest < half - EPS:
        return (floor,)
    if rest > half + EPS:
        return (floor + 1,)
    return (floor, floor + 1)


def run(case):
    subject = [[tuple(p) for p in ring] for ring in case['subject']]
    clip = [[tuple(p) for p in ring] for ring in case['clip']]
    edges = [tuple((int(x), int(y)) for x, y in edge)
             for ring in subject + clip for edge in CPP.edges(ring)]
    exact = {point for edge in edges for point in edge}
    allowed = set(exact)
    required = [frozenset((point,)) for point in exact]
    boxes = [(min(a[0], b[0]), max(a[0], b[0]), min(a[1], b[1]), max(a[1], b[1])) for a, b in edges]
    crossed = False
    for i, (a, b) in enumerate(edges):
        x0, x1, y0, y1 = boxes[i]
        for j in range(i):
            other = boxes[j]
            if other[0] > x1 or other[1] < x0 or other[2] > y1 or other[3] < y0:
                continue
            point = geom.crossing(a, b, *edges[j])
            if point is None:
                continue
            rule = tie_rule((a, b), edges[j], point)
            options = frozenset((x, y) for x in candidates(point[0], rule) for y in candidates(point[1], rule))
            allowed |= options
            required.append(options)
            crossed = crossed or point not in exact
    for impl in BOTH:
        manager = impl.manager()
        clipper = impl.new(subject, clip)
        if not len(clipper.minimums):
            continue
        manager.build_hot_pixels(clipper.minimums)
        pixels = [(int(p.x), int(p.y)) for p in manager.hot_pixels]
        order = [(-y, x) for x, y in pixels]
        if any(a >= b for a, b in zip(order, order[1:])):
            return Outcome('%s: hot pixels %s are not in order or not unique' % (impl.name, pixels))
        pixels = set(pixels)
        if not pixels <= allowed:
            return Outcome('%s: hot pixels %s are no vertices or crossings' % (impl.name, sorted(pixels - allowed)))
        for options in required:
            if not options & pixels:
                return Outcome('%s: %s is not a hot pixel' % (impl.name, sorted(options)))
        for request in case['requests']:
            try:
                result = impl.clip(subject, clip, *request)
            except RuntimeError:
                # crowded inputs the algorithm gives up on are C08's business
                if case['stream'] == 'crowded':
                    continue
                raise
            for polygon in result:
                for ring in polygon:
                    for x, y in ring:
                        if (int(x), int(y)) not in pixels or x != int(x) or y != int(y):
                            return Outcome('%s: %s: vertex %s of the result is no vertex or crossing of the input'
                                           % (impl.name, request, (x, y)))
    return Outcome(None, crossed)
