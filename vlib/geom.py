"""Exact reference geometry.  No code of the repository is used here.

Orientation follows the repository's y-down convention: the winding number reported for the
POSITIVE / NEGATIVE fill rules is the negated mathematical (y-up) one.
"""
from fractions import Fraction
from math import gcd


def ring_edges(ring):
    size = len(ring)
    return [(ring[i], ring[(i + 1) % size]) for i in range(size)
            if ring[i] != ring[(i + 1) % size]]


def edges_of(rings):
    return [edge for ring in rings for edge in ring_edges(ring)]


def int_rings(multipolygon):
    """All rings of a result, with integer coordinates, without the closing point."""
    return [int_ring(ring) for polygon in multipolygon for ring in polygon]


def int_ring(ring):
    result = [(int(x), int(y)) for x, y in ring]
    if len(result) > 1 and result[0] == result[-1]:
        del result[-1]
    return result


def filled(rule, winding):
    if rule == 0:
        return winding % 2 == 1
    if rule == 1:
        return winding != 0
    if rule == 2:
        return winding < 0
    return winding > 0


def combine(op, left, right):
    if op == 'intersect':
        return left and right
    if op == 'unite':
        return left or right
    if op == 'subtract':
        return left and not right
    return left != right


def area2(ring):
    return sum(a[0] * b[1] - a[1] * b[0] for a, b in ring_edges(ring))


# --------------------------------------------------------------- slab decompositions
def slabs(layers, exact=True):
    """Yields (y0, y1, [(x at mid, slope, low point, layer, sign), ...]) for every
    horizontal slab free of vertices and crossings."""
    edges = []
    for layer, layer_edges in enumerate(layers):
        for a, b in layer_edges:
            if a[1] != b[1]:
                if a[1] < b[1]:
                    edges.append((a[0], a[1], b[0], b[1], layer, 1))
                else:
                    edges.append((b[0], b[1], a[0], a[1], layer, -1))
    ys = set()
    count = len(edges)
    for i in range(count):
        ax, ay, bx, by, _, _ = edges[i]
        ys.add(ay)
        ys.add(by)
        dx, dy = bx - ax, by - ay
        if ax < bx:
            lo_x, hi_x = ax, bx
        else:
            lo_x, hi_x = bx, ax
        for j in range(i):
            cx, cy, ex, ey, _, _ = edges[j]
            if cy >= by or ey <= ay:
                continue
            if cx < ex:
                if ex < lo_x or cx > hi_x:
                    continue
            elif cx < lo_x or ex > hi_x:
                continue
            fx, fy = ex - cx, ey - cy
            den = dx * fy - dy * fx
            if den == 0:
                continue
            t = (cx - ax) * fy - (cy - ay) * fx
            u = (cx - ax) * dy - (cy - ay) * dx
            if den < 0:
                t, u, den = -t, -u, -den
            if 0 <= t <= den and 0 <= u <= den:
                num = t * dy
                if num % den == 0:
                    ys.add(ay + num // den)
                else:
                    ys.add((Fraction(ay) + Fraction(num, den)) if exact
                           else ay + num / den)
    ys = sorted(ys)
    for y0, y1 in zip(ys, ys[1:]):
        if exact:
            ym = Fraction(y0 + y1) / 2
        else:
            ym = (y0 + y1) / 2
            if y1 - y0 < 1e-9:
                continue
        active = []
        for ax, ay, bx, by, layer, sign in edges:
            if ay <= y0 and by >= y1:
                if ax == bx:
                    active.append((ax, 0, (ax, ay), layer, sign))
                else:
                    slope = (Fraction(bx - ax, by - ay) if exact
                             else (bx - ax) / (by - ay))
                    active.append((ax + slope * (ym - ay), slope, (ax, ay),
                                   layer, sign))
            elif not exact and ay < ym < by:
                slope = (bx - ax) / (by - ay)
                active.append((ax + slope * (ym - ay), slope, (ax, ay),
                               layer, sign))
        active.sort(key=_first)
        yield y0, y1, active


def _first(item):
    return item[0]


def trapezoids(layers, predicate, exact=True):
    """Maximal x-runs between consecutive edges of every slab for which `predicate` holds
    of the list of winding numbers (one per layer)."""
    for y0, y1, active in slabs(layers, exact):
        winding = [0] * len(layers)
        for index in range(len(active) - 1):
            item = active[index]
            following = active[index + 1]
            winding[item[3]] += item[4]
            if following[0] != item[0] and predicate(winding):
                yield y0, y1, item, following


def first_difference(layers, predicate):
    for y0, y1, left, right in trapezoids(layers, predicate):
        return (float(left[0] + right[0]) / 2, float(y0 + y1) / 2)
    return None


def region_difference(subject, clip, op, subject_fill, clip_fill, result_rings):
    """None, or a point where the result and the fill-rule combination differ."""
    def differs(winding):
        return (combine(op, filled(subject_fill, winding[0]),
                        filled(clip_fill, winding[1]))
                != bool(winding[2] % 2))
    return first_difference([edges_of(subject), edges_of(clip),
                             edges_of(result_rings)], differs)


# --------------------------------------------------------------- octilinear, integer only
def lattice_difference(layers, predicate):
    """Like `first_difference` for edges of slope 0, 1, -1 or infinity whose vertices have
    even coordinates: everything stays integral (in half units)."""
    edges = []
    for layer, layer_edges in enumerate(layers):
        for a, b in layer_edges:
            if a[1] != b[1]:
                if a[1] < b[1]:
                    lo, hi, sign = a, b, 1
                else:
                    lo, hi, sign = b, a, -1
                run = hi[0] - lo[0]
                slope = 0 if run == 0 else (1 if run > 0 else -1)
                edges.append((lo[1], hi[1], lo[0], slope, layer, sign,
                              lo[0] - slope * lo[1]))
    ys = {edge[0] for edge in edges} | {edge[1] for edge in edges}
    # crossings of distinct lines x - s*y = k
    by_slope = {-1: [], 0: [], 1: []}
    for edge in edges:
        by_slope[edge[3]].append(edge)
    for first, second in ((-1, 0), (-1, 1), (0, 1)):
        for e in by_slope[first]:
            for f in by_slope[second]:
                num = f[6] - e[6]
                den = first - second
                # s1*y + k1 = s2*y + k2
                y = num // den if num % den == 0 else None
                if y is None:
                    # an odd numerator over 2: half integer, cannot happen on the even lattice
                    raise AssertionError('not a lattice input')
                if e[0] <= y <= e[1] and f[0] <= y <= f[1]:
                    ys.add(y)
    ys = sorted(ys)
    count = len(layers)
    starts = sorted(edges)
    active = []
    position = 0
    for y0, y1 in zip(ys, ys[1:]):
        active = [edge for edge in active if edge[1] > y0]
        while position < len(starts) and starts[position][0] <= y0:
            if starts[position][1] > y0:
                active.append(starts[position])
            position += 1
        ym2 = y0 + y1  # twice the middle
        row = sorted((2 * edge[6] + edge[3] * ym2, edge[4], edge[5])
                     for edge in active)
        winding = [0] * count
        for index in range(len(row) - 1):
            x2, layer, sign = row[index]
            winding[layer] += sign
            if row[index + 1][0] != x2 and predicate(winding):
                return ((x2 + row[index + 1][0]) / 4, ym2 / 2)
    return None


def lattice_region_difference(subject, clip, op, subject_fill, clip_fill,
                              result_rings):
    def differs(winding):
        return (combine(op, filled(subject_fill, winding[0]),
                        filled(clip_fill, winding[1]))
                != bool(winding[2] % 2))
    return lattice_difference([edges_of(subject), edges_of(clip),
                               edges_of(result_rings)], differs)


def is_octilinear(edges):
    return all(a[0] == b[0] or a[1] == b[1]
               or abs(a[0] - b[0]) == abs(a[1] - b[1]) for a, b in edges)


def on_even_lattice(edges):
    """Whether all crossings of these edges are integer points and no edge comes closer than
    a unit to a vertex or crossing it does not pass (the answer is then exact: nothing gets
    rounded or snapped)."""
    if not is_octilinear(edges):
        return False
    columns, rows, diagonals = set(), set(), set()
    for a, b in edges:
        if a == b:
            continue
        if a[0] == b[0]:
            columns.add(a[0] % 2)
        elif a[1] == b[1]:
            rows.add(a[1] % 2)
        else:
            diagonals.add((a[0] + a[1]) % 2)
    if not diagonals:
        return True
    if len(diagonals) > 1 or len(columns) > 1 or len(rows) > 1:
        return False
    return not (columns and rows) or (min(columns) + min(rows)) % 2 == min(diagonals)


# --------------------------------------------------------------- boundary chains
def chain(rings, coefficient=1, into=None):
    """The directed boundary of `rings` as a canonical 1-chain: per supporting line, the
    multiplicity jumps along it.  Two sets of rings have equal chains iff they traverse
    every piece of every line the same net number of times in the same direction."""
    result = {} if into is None else into
    for ring in rings:
        for (ax, ay), (bx, by) in ring_edges(ring):
            dx, dy = bx - ax, by - ay
            divisor = gcd(dx, dy)
            dx //= divisor
            dy //= divisor
            weight = coefficient
            if dx < 0 or (dx == 0 and dy < 0):
                dx, dy = -dx, -dy
                weight = -weight
                start, end = bx * dx + by * dy, ax * dx + ay * dy
            else:
                start, end = ax * dx + ay * dy, bx * dx + by * dy
            line = result.setdefault((dx, dy, dx * ay - dy * ax), {})
            line[start] = line.get(start, 0) + weight
            line[end] = line.get(end, 0) - weight
    return result


def is_zero_chain(value):
    return not any(jump for line in value.values() for jump in line.values())


def chain_residue(value):
    for line, jumps in value.items():
        for position, jump in jumps.items():
            if jump:
                return line, position, jump
    return None


# --------------------------------------------------------------- distances, crossings
def distance2(p, a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    length = dx * dx + dy * dy
    if not length:
        return (p[0] - a[0]) ** 2 + (p[1] - a[1]) ** 2
    t = ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / length
    t = 0 if t < 0 else (1 if t > 1 else t)
    return (a[0] + t * dx - p[0]) ** 2 + (a[1] + t * dy - p[1]) ** 2


def crossing(a, b, c, d):
    """Exact common point of two non-parallel segments, or None."""
    den = (b[0] - a[0]) * (d[1] - c[1]) - (b[1] - a[1]) * (d[0] - c[0])
    if den == 0:
        return None
    t = (c[0] - a[0]) * (d[1] - c[1]) - (c[1] - a[1]) * (d[0] - c[0])
    u = (c[0] - a[0]) * (b[1] - a[1]) - (c[1] - a[1]) * (b[0] - a[0])
    if den < 0:
        t, u, den = -t, -u, -den
    if not (0 <= t <= den and 0 <= u <= den):
        return None
    return (Fraction(a[0]) + Fraction(t * (b[0] - a[0]), den),
            Fraction(a[1]) + Fraction(t * (b[1] - a[1]), den))


# --------------------------------------------------------------- validity
def _orient(p, q, r):
    return (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])


def edge_conflict(a, b, c, d):
    """'cross', 'overlap' or 'T' when two edges meet otherwise than in common endpoints."""
    o1, o2 = _orient(a, b, c), _orient(a, b, d)
    if (o1 > 0 and o2 > 0) or (o1 < 0 and o2 < 0):
        return None
    if o1 == 0 and o2 == 0:
        axis = 0 if a[0] != b[0] else 1
        lo = max(min(a[axis], b[axis]), min(c[axis], d[axis]))
        hi = min(max(a[axis], b[axis]), max(c[axis], d[axis]))
        return 'overlap' if lo < hi else None
    o3, o4 = _orient(c, d, a), _orient(c, d, b)
    if (o3 > 0 and o4 > 0) or (o3 < 0 and o4 < 0):
        return None
    if o1 and o2 and o3 and o4:
        return 'cross'
    for zero, r, p, q in ((o1, c, a, b), (o2, d, a, b), (o3, a, c, d),
                          (o4, b, c, d)):
        if (zero == 0 and r != p and r != q
                and min(p[0], q[0]) <= r[0] <= max(p[0], q[0])
                and min(p[1], q[1]) <= r[1] <= max(p[1], q[1])):
            return 'T'
    return None


def conflicts(edges):
    boxes = [(min(a[0], b[0]), max(a[0], b[0]), min(a[1], b[1]),
              max(a[1], b[1]), a, b) for a, b in edges]
    boxes.sort()
    active = []
    for item in boxes:
        x0, _, y0, y1, a, b = item
        kept = []
        for other in active:
            if other[1] >= x0:
                kept.append(other)
                if other[2] <= y1 and other[3] >= y0:
                    kind = edge_conflict(other[4], other[5], a, b)
                    if kind:
                        return kind, (other[4], other[5]), (a, b)
        kept.append(item)
        active = kept
    return None


def contains(ring, x2, y2):
    """Even-odd membership of the point (x2/2, y2/2) in `ring` (not on its boundary)."""
    inside = False
    for (ax, ay), (bx, by) in ring_edges(ring):
        if (2 * ay > y2) != (2 * by > y2):
            # compare x2/2 with the crossing abscissa exactly
            left = (x2 - 2 * ax) * (by - ay)
            right = (bx - ax) * (y2 - 2 * ay)
            if (left < right) == (by > ay):
                inside = not inside
    return inside


def validity_problem(result, inputs, reverse=False, allow_fraction=False):
    """None, or the first way in which `result` is not a valid multipolygon."""
    xs = [x for ring in inputs for x, _ in ring]
    ys = [y for ring in inputs for _, y in ring]
    if result and not xs:
        return 'non-empty result of no input'
    for number, polygon in enumerate(result):
        if not polygon:
            return 'polygon %d has no rings' % number
        for position, ring in enumerate(polygon):
            where = 'polygon %d ring %d' % (number, position)
            if len(ring) < 4:
                return where + ' has fewer than three vertices'
            if ring[0] != ring[-1]:
                return where + ' is not closed'
            for x, y in ring:
                if x != int(x) or y != int(y):
                    return where + ' has a vertex off the integer grid'
                if not (min(xs) <= x <= max(xs) and min(ys) <= y <= max(ys)):
                    return where + ' leaves the extent of the input'
            points = int_ring(ring)
            if len(set(points)) != len(points):
                return where + ' visits a vertex twice'
            area = area2(points)
            if area == 0:
                return where + ' has no area'
            # extension and port put exteriors this way round by default
            if (area > 0) != ((position == 0) != reverse):
                return where + ' is wrongly oriented'
    conflict = conflicts(edges_of(int_rings(result)))
    if conflict:
        return 'edges %s: %s and %s' % conflict
    for number, polygon in enumerate(result):
        problem = _polygon_problem([int_ring(ring) for ring in polygon])
        if problem:
            return 'polygon %d: %s' % (number, problem)
    return _overlap_problem([[int_ring(ring) for ring in polygon]
                             for polygon in result])


def _polygon_problem(rings):
    if len(rings) == 1:
        return None
    exterior = edges_of(rings[:1])
    holes = edges_of(rings[1:])
    for _ in trapezoids([exterior, holes], lambda w: w[1] and not w[0]):
        return 'a hole lies outside its exterior'
    for _ in trapezoids([holes], lambda w: abs(w[0]) > 1):
        return 'holes overlap'
    # connected interior: rings touch each other in a forest
    touching = {}
    for index, ring in enumerate(rings):
        for point in ring:
            touching.setdefault(point, []).append(index)
    parents = {}

    def find(key):
        parents.setdefault(key, key)
        while parents[key] != key:
            key = parents[key]
        return key

    for point, indices in touching.items():
        if len(indices) > 1:
            for index in indices:
                a, b = find(point), find(index)
                if a == b:
                    return 'touching rings disconnect the interior'
                parents[a] = b
    return None


def _overlap_problem(polygons):
    rings = [ring for polygon in polygons for ring in polygon]
    if len(rings) < 2:
        return None
    signs = set()
    for _ in trapezoids([edges_of(rings)],
                        lambda w: signs.add(w[0]) or abs(w[0]) > 1):
        return 'polygons overlap'
    if 1 in signs and -1 in signs:
        return 'polygons overlap or a hole is uncovered'
    return None
