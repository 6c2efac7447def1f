"""C14 - the local minima list is a faithful decomposition of the rings added."""
from fractions import Fraction
from math import gcd

from vlib import gen, geom
from vlib.engine import Outcome
from vlib.impl import BOTH

ID = 'C14'
RULE = ('Rings of every family (horizontals at bottoms, tops and shoulders, plateaus, decorations, needles of two nearly parallel edges) are added under random '
        'kinds and the list of local minima read. Monotonicity and joints of bounds, their pairing at '
        'bottoms and tops, kind, side, left-right order, flags, and (by exact 1-chain arithmetic) that bounds directed by '
        'winding_delta retrace every ring exactly once, are decided independently; what adding rings and polygons answers is compared with it. Non-trivial: at least two '
        'local minima or a horizontal edge at one.')
PLAN = {'quick': {'rings': 24000, 'horizontal': 16000, 'thin': 16000, 'long': 300},
        'thorough': {'rings': 1500000, 'horizontal': 1000000, 'thin': 1000000, 'long': 30000}}


def make(stream, rng):
    rings = []
    if stream == 'long':
        _, subject, clip = gen.long_any(rng)
        return {'rings': [[ring, rng.randrange(2)] for ring in subject + clip]}
    for _ in range(rng.choice((1, 2, 3, 4)) if rng.random() < .96 else rng.randint(8, 30)):
        pick = rng.random()
        if stream == 'horizontal':
            # few different ordinates: long staircases and plateaus
            levels = rng.choice((2, 2, 3, 4))
            ring = [(rng.randint(0, 8), rng.randint(0, levels)) for _ in range(rng.randint(4, 14))]
            if rng.random() < .7:
                ring = [p for a, b in zip(ring, ring[1:]) for p in (a, (b[0], a[1]))]
        elif stream == 'thin':
            ring = gen.thin_ring(rng, 2 ** rng.randint(3, 22))
        elif pick < .4:
            ring = rng.choice(gen.lattice(rng)[1] or [[]])
        elif pick < .7:
            ring = rng.choice(gen.general(rng)[1] or [[]])
        else:
            ring = gen.degenerate_ring(rng, 3, rng.choice((1, 100)))
        if ring and rng.random() < .3:
            ring = gen.decorated(rng, ring)
        rings.append([ring, rng.randrange(2)])
    return {'rings': rings}


def read(impl, bound):
    edges = [((int(e.bottom.x), int(e.bottom.y)), (int(e.top.x), int(e.top.y))) for e in bound.edges]
    return edges, int(bound.winding_delta), bound.polygon_kind, bound.side


def run(case):
    nontrivial = False
    for impl in BOTH:
        clipper = impl.Wagyu()
        listed = 0
        answers = []
        for ring, kind in case['rings']:
            ring = [tuple(point) for point in ring]
            edges = [tuple((int(x), int(y)) for x, y in edge) for edge in impl.edges(ring)]
            before = listed
            added = clipper.add_linear_ring(impl.ring(ring), impl.kinds[kind])
            minimums = list(clipper.minimums)
            listed = len(minimums)
            if added is not bool(edges):
                return Outcome('%s: add_linear_ring said %r of %d edges' % (impl.name, added, len(edges)))
            answers.append((added, len(minimums) - before))
            problem = examine(impl, minimums[before:], ring, edges, impl.kinds[kind])
            if problem:
                return Outcome('%s: %s (ring %s)' % (impl.name, problem, ring))
            nontrivial = nontrivial or listed - before > 1 or any(
                m.minimum_has_horizontal for m in minimums[before:])
        beams = clipper.minimums.scanbeams
        if list(beams) != sorted(minimum.y for minimum in clipper.minimums):
            return Outcome('%s: scanbeams %s' % (impl.name, list(beams)))
        # (the polygon of all of them)
        other = impl.Wagyu()
        added = other.add_polygon(impl.polygon([[tuple(point) for point in ring] for ring, _ in case['rings']]),
                                  impl.kinds[0])
        if added is not any(answer for answer, _ in answers):
            return Outcome('%s: add_polygon said %r, its rings %s' % (impl.name, added, [answer for answer, _ in answers]))
        if len(other.minimums) != sum(count for _, count in answers):
            return Outcome('%s: add_polygon gave %d local minima, its rings %s' % (
                impl.name, len(other.minimums), [count for _, count in answers]))
    return Outcome(None, nontrivial)


def examine(impl, minimums, ring, edges, kind):
    left_side, right_side = impl.enums.EdgeSide.LEFT, impl.enums.EdgeSide.RIGHT
    strokes = []
    pieces = []
    tops = {}
    for number, minimum in enumerate(minimums):
        sides = []
        for bound, side in ((minimum.left_bound, left_side), (minimum.right_bound, right_side)):
            bound_edges, delta, bound_kind, bound_side = read(impl, bound)
            if bound_side != side:
                return 'minimum %d: a bound is on side %s' % (number, bound_side)
            if bound_kind != kind:
                return 'minimum %d: a bound is of kind %s' % (number, bound_kind)
            if not bound_edges:
                return 'minimum %d: a bound is empty' % number
            if delta not in (-1, 1):
                return 'minimum %d: winding delta %s' % (number, delta)
            for (_, upper), (lower, _) in zip(bound_edges, bound_edges[1:]):
                if upper != lower:
                    return 'minimum %d: bound %s is not connected' % (number, bound_edges)
            for lower, upper in bound_edges:
                if lower[1] < upper[1]:
                    return 'minimum %d: bound %s goes down' % (number, bound_edges)
                pieces.append(frozenset((lower, upper)))
                strokes.append((lower, upper) if delta > 0 else (upper, lower))
            if all(lower[1] == upper[1] for lower, upper in bound_edges):
                return 'minimum %d: bound %s never rises' % (number, bound_edges)
            sides.append((bound_edges, delta))
            partner = bound.maximum_bound
            if partner is None:
                return 'minimum %d: a bound has no partner at its maximum' % number
            partner_edges, partner_delta, _, _ = read(impl, partner)
            if partner_edges[-1][1] != bound_edges[-1][1] or partner_delta + delta:
                return 'minimum %d: bound %s peaks with %s' % (number, bound_edges, partner_edges)
            if read(impl, partner.maximum_bound) != read(impl, bound):
                return 'minimum %d: partners at a maximum disagree' % number
            tops.setdefault(bound_edges[-1][1], []).append(delta)
        (left, left_delta), (right, right_delta) = sides
        if left_delta + right_delta:
            return 'minimum %d: both bounds wind the same way' % number
        if left[0][0] != right[0][0]:
            return 'minimum %d: bounds start in %s and %s' % (number, left[0][0], right[0][0])
        if minimum.y != left[0][0][1]:
            return 'minimum %d at %s: y is %s' % (number, left[0][0], minimum.y)
        flag = left[0][0][1] == left[0][1][1] or right[0][0][1] == right[0][1][1]
        if bool(minimum.minimum_has_horizontal) is not flag:
            return 'minimum %d: minimum_has_horizontal is %s' % (number, minimum.minimum_has_horizontal)
        # left of each other just above the minimum
        (lx, ls), (rx, rs) = rising(left), rising(right)
        if (lx, -ls) > (rx, -rs):
            return 'minimum %d: left bound %s is to the right of %s' % (number, left, right)
    if sorted(map(sorted, pieces)) != sorted(map(sorted, edges)):
        # horizontal edges keep their ends, too
        return 'bounds are made of %s, the ring of %s' % (sorted(map(sorted, pieces)), sorted(map(sorted, edges)))
    for point, deltas in tops.items():
        if sum(deltas):
            return 'as many bounds rise as fall to %s: %s' % (point, deltas)
    chain = geom.chain([ring])
    for lower, upper in strokes:
        add_segment(chain, upper, lower)
    if geom.chain_residue(chain) is not None:
        return 'bounds directed by winding_delta do not retrace the ring'
    return None


def rising(edges):
    """x where the bound leaves the level of its minimum, and dx/dy there (y grows downwards)."""
    for lower, upper in edges:
        if lower[1] != upper[1]:
            return lower[0], Fraction(upper[0] - lower[0], upper[1] - lower[1])
    raise ValueError


def add_segment(chain, a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    divisor = gcd(dx, dy)
    dx //= divisor
    dy //= divisor
    weight = 1
    if dx < 0 or (dx == 0 and dy < 0):
        dx, dy, weight = -dx, -dy, -1
        a, b = b, a
    line = chain.setdefault((dx, dy, dx * a[1] - dy * a[0]), {})
    start, end = a[0] * dx + a[1] * dy, b[0] * dx + b[1] * dy
    line[start] = line.get(start, 0) + weight
    line[end] = line.get(end, 0) - weight


def shrink(case):
    rings = case['rings']
    for index in range(len(rings)):
        yield {'rings': rings[:index] + rings[index + 1:]}
    for index, (ring, kind) in enumerate(rings):
        for cut in range(len(ring)):
            yield {'rings': rings[:index] + [[ring[:cut] + ring[cut + 1:], kind]] + rings[index + 1:]}
