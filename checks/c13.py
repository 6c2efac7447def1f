"""C13 - the edges of a ring are its tightest closed chain."""
from vlib import gen, geom
from vlib.engine import HarnessError, Outcome
from vlib.impl import BOTH, CPP, PORT

ID = 'C13'
RULE = ('Rings with repeated points, runs of collinear points, spikes and retraced strokes in every position '
        '(including the start), long walks among few points, and clean rings. The oracle reduces the cyclic point sequence on its own '
        '(dropping repeats and middle points of collinear triples until none is left) and demands the very same closed '
        'chain, each edge from its lower end (greater y) to its upper. Non-trivial: something had to be dropped or '
        'the ring collapses.')
PLAN = {'quick': {'dirty': 120000, 'decorated': 40000, 'clean': 20000, 'line': 15000,
                  'wandering': 40000, 'long': 600},
        'thorough': {'dirty': 6000000, 'decorated': 2000000, 'clean': 600000, 'line': 600000, 'wandering': 2000000, 'long': 60000}}


def make(stream, rng):
    scale = rng.choice((1, 1, 1, 7, 1000, 10 ** 6, 2 ** 25))
    if stream == 'dirty':
        ring = gen.degenerate_ring(rng, rng.choice((1, 2, 2, 3, 5)), scale)
    elif stream == 'wandering':
        ring = gen.wandering_ring(rng, rng.choice((1, 1, 2)), scale, rng.choice((12, 24, 32)))
    elif stream == 'long':
        _, subject, clip = gen.long_any(rng)
        ring = max(subject + clip, key=len)
        if rng.random() < .7:
            ring = gen.decorated(rng, ring)
    elif stream == 'decorated':
        _, subject, _ = gen.lattice(rng)
        ring = rng.choice(subject or [[(0, 0), (2, 0), (0, 2)]])
        for _ in range(rng.randint(1, 3)):
            ring = gen.decorated(rng, ring)
        ring = gen.flipped(rng, ring)
    elif stream == 'clean':
        _, subject, _ = gen.general(rng, False)
        ring = rng.choice(subject or [[(0, 0), (2, 0), (0, 2)]])
    else:
        # everything on one line, with an excursion now and then
        dx, dy = rng.choice(gen.DIRECTIONS)
        ring = [(dx * step * scale, dy * step * scale)
                for step in (rng.randint(-3, 3) for _ in range(rng.randint(0, 9)))]
        for _ in range(rng.choice((0, 0, 1, 2))):
            ring.insert(rng.randint(0, len(ring)), (rng.randint(-3, 3) * scale, rng.randint(-3, 3) * scale))
    turn = rng.randrange(len(ring)) if ring else 0
    return {'ring': ring[turn:] + ring[:turn]}


def tightest(ring):
    """The cyclic sequence of corners, or [] when nothing is left."""
    points = [tuple(point) for point in ring]
    if len(points) < 3:
        return []
    index = 0
    clean = 0
    while clean < len(points):
        size = len(points)
        if size < 3:
            return []
        a, b, c = points[index - 1], points[index], points[(index + 1) % size]
        if b == c or a == b or geom._orient(a, b, c) == 0:
            del points[index]
            if points:
                index = (index - 1) % len(points)
            # the neighbours have to be looked at again
            clean = 0
        else:
            clean += 1
            index = (index + 1) % size
    return points


def corners(edges):
    """Vertices of the chain of edges, in order; None when they do not form one."""
    size = len(edges)
    result = []
    for index in range(size):
        common = set(edges[index]) & set(edges[(index + 1) % size])
        if len(common) != 1:
            return None
        result.append(common.pop())
    return result


def rotated(points):
    start = points.index(min(points))
    options = [points[i:] + points[:i] for i, point in enumerate(points) if point == points[start]]
    return min(options)


def run(case):
    ring = [tuple(point) for point in case['ring']]
    expected = tightest(ring)
    for impl in BOTH:
        edges = impl.edges(ring)
        name = impl.name + ': '
        if not expected:
            if edges:
                return Outcome(name + 'edges %s of a ring that encloses nothing' % edges)
            continue
        if not edges:
            return Outcome(name + 'no edges, expected corners %s' % expected)
        for (bx, by), (tx, ty) in edges:
            if by < ty:
                return Outcome(name + 'edge %s is upside down' % (((bx, by), (tx, ty)),))
        got = corners([tuple((int(x), int(y)) for x, y in edge) for edge in edges])
        if got is None:
            return Outcome(name + 'edges %s are not a closed chain' % edges)
        if rotated(got) != rotated(expected):
            return Outcome(name + 'corners %s, expected %s' % (got, expected))
        if geom.chain_residue(geom.chain([got], -1, geom.chain([ring]))) is not None:
            raise HarnessError('the oracle contradicts itself')
        clipper = impl.Wagyu()
        if clipper.add_linear_ring(impl.ring(ring), impl.kinds[0]) is not True:
            return Outcome(name + 'ring with edges was rejected')
    if not expected:
        for impl in BOTH:
            clipper = impl.Wagyu()
            if clipper.add_linear_ring(impl.ring(ring), impl.kinds[1]) is not False:
                return Outcome(impl.name + ': ring without edges was accepted')
            if len(clipper.minimums):
                return Outcome(impl.name + ': a rejected ring left local minima behind')
    return Outcome(None, len(expected) != len(ring), ['collapses'] if ring and not expected else [])


def shrink(case):
    ring = case['ring']
    for index in range(len(ring)):
        yield {'ring': ring[:index] + ring[index + 1:]}
    for index, (x, y) in enumerate(ring):
        for smaller in ((x // 2, y), (x, y // 2)):
            if smaller != (x, y):
                yield {'ring': ring[:index] + [list(smaller)] + ring[index + 1:]}
