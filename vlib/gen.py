"""Structured generators.  A case's geometry is (subject rings, clip rings), rings being lists
of integer (x, y) pairs.  Every random choice comes from the `rng` passed in.

Families come in two groups:

* lattice - slopes 0, 1, -1, infinity on an even lattice, so that every vertex and crossing
  is an integer point and the right answer is exact;
* general - arbitrary integer rings, kept away from the crowded unit grids on which distinct
  crossings share a pixel (see DESIGN.md, known findings).
"""
import math

DIRECTIONS = ((1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1))


# ------------------------------------------------------------------ lattice rings
def rectilinear(rng, size, turns=None):
    turns = turns or rng.randint(3, 8)
    x, y = rng.randint(0, size), rng.randint(0, size)
    first_y = y
    points = []
    for index in range(turns):
        points.append((2 * x, 2 * y))
        if index % 2 == 0:
            x = rng.randint(0, size)
        else:
            y = rng.randint(0, size)
    points.append((2 * x, 2 * y))
    points.append((points[-1][0], 2 * first_y))
    return points


def octilinear(rng, size, turns=None):
    turns = turns or rng.randint(3, 8)
    x, y = rng.randint(0, size) * 2, rng.randint(0, size) * 2
    points = [(x, y)]
    for _ in range(turns):
        dx, dy = rng.choice(DIRECTIONS)
        step = 2 * rng.randint(1, size)
        x += dx * step
        y += dy * step
        points.append((x, y))
    # close by one horizontal and one vertical stroke
    points.append((points[-1][0], points[0][1]))
    return points


def rectangle(x0, y0, x1, y1):
    return [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]


def diamond(x, y, r):
    return [(x - r, y), (x, y - r), (x + r, y), (x, y + r)]


def octagon(x, y, r):
    r += r % 2
    h = (r // 2) - (r // 2) % 2
    return [(x - r, y - h), (x - h, y - r), (x + h, y - r), (x + r, y - h),
            (x + r, y + h), (x + h, y + r), (x - h, y + r), (x - r, y + h)]


def flipped(rng, ring):
    return ring[::-1] if rng.random() < .5 else ring


def blocks(rng, size):
    result = []
    for _ in range(rng.randint(1, 8)):
        x0, y0 = rng.randint(0, size - 1), rng.randint(0, size - 1)
        x1, y1 = rng.randint(x0 + 1, size), rng.randint(y0 + 1, size)
        result.append(flipped(rng, rectangle(2 * x0, 2 * y0, 2 * x1, 2 * y1)))
    return result


def nested(rng):
    depth = rng.randint(2, 7)
    kind = rng.choice((0, 0, 1, 2))
    x, y = 2 * rng.randint(-6, 6), 2 * rng.randint(-6, 6)
    alternate = rng.random() < .5
    result = []
    for level in range(depth):
        r = 4 * (level + 1)
        ring = (rectangle(x - r, y - r, x + r, y + r) if kind == 0 else
                diamond(x, y, r) if kind == 1 else octagon(x, y, r))
        if alternate:
            ring = ring if level % 2 else ring[::-1]
        else:
            ring = flipped(rng, ring)
        result.append(ring)
    if rng.random() < .5:
        rng.shuffle(result)
    return result


def checkerboard(rng):
    """Cells meeting in corners: the shape ring chaining has to untangle."""
    columns, rows = rng.randint(2, 5), rng.randint(2, 5)
    diamonds = rng.random() < .5
    ratio = rng.choice((.4, .6, .8, 1))
    result = []
    for i in range(columns):
        for j in range(rows):
            if (diamonds or (i + j) % 2 == 0) and rng.random() < ratio:
                if diamonds:
                    result.append(flipped(rng, diamond(4 * i, 4 * j, 2)))
                else:
                    result.append(flipped(rng, rectangle(
                        4 * i, 4 * j, 4 * i + 4, 4 * j + 4)))
    return result or [rectangle(0, 0, 4, 4)]


def frame_with_chain(rng):
    """A frame whose holes touch each other and the frame in vertices."""
    columns, rows = rng.randint(2, 4), rng.randint(2, 4)
    result = [rectangle(-4, -4, 4 * columns, 4 * rows)]
    if rng.random() < .5:
        result = [rectangle(-2, -2, 4 * columns - 2, 4 * rows - 2)]
    for i in range(columns):
        for j in range(rows):
            if rng.random() < .7:
                ring = diamond(4 * i, 4 * j, 2)
                result.append(ring[::-1])
                if rng.random() < .2:
                    result.append(diamond(4 * i, 4 * j, 1 * 2))
    return result


def cells(rng, size):
    """Random set of unit lattice cells, each its own ring (many shared edges)."""
    result = []
    ratio = rng.choice((.2, .4, .6, .8))
    split = rng.random() < .5
    for i in range(size):
        for j in range(size):
            x, y = 2 * i, 2 * j
            if not split:
                if rng.random() < ratio:
                    result.append(rectangle(x, y, x + 2, y + 2))
            else:
                corners = rectangle(x, y, x + 2, y + 2)
                # two triangles on a diagonal
                if rng.random() < .5:
                    corners = corners[1:] + corners[:1]
                for ring in ([corners[0], corners[1], corners[2]],
                             [corners[2], corners[3], corners[0]]):
                    if rng.random() < ratio:
                        result.append(ring)
    rng.shuffle(result)
    if rng.random() < .3:
        result = [flipped(rng, ring) for ring in result]
    return result[:rng.choice((6, 12, 24))] or [rectangle(0, 0, 2, 2)]


def mosaic(rng):
    """Random faces of a tiling by squares or triangles, perhaps within a frame: holes and
    islands which touch each other in many vertices."""
    size = rng.choice((2, 3, 3, 4, 4, 5, 6, 8))
    style = rng.randrange(4)
    ratio = rng.choice((.3, .4, .5, .6, .7, .85))
    result = []
    for i in range(size):
        for j in range(size):
            corners = rectangle(4 * i, 4 * j, 4 * i + 4, 4 * j + 4)
            if style == 0:
                faces = [corners]
            elif style == 1:
                # every second square, other squares give their corners
                faces = ([corners] if (i + j) % 2 else
                         [[corners[k], corners[k - 1], (4 * i + 2, 4 * j + 2)] for k in (0, 2)])
            elif style == 2:
                faces = [[corners[k], corners[k - 1], (4 * i + 2, 4 * j + 2)] for k in range(4)]
            else:
                # squares on the middles of sides, and the triangles around them
                middles = [(4 * i + 2, 4 * j), (4 * i + 4, 4 * j + 2),
                           (4 * i + 2, 4 * j + 4), (4 * i, 4 * j + 2)]
                faces = [middles] + [[middles[k - 1], corners[k], middles[k]] for k in range(4)]
            result.extend(face for face in faces if rng.random() < ratio)
    rng.shuffle(result)
    if rng.random() < .6:
        margin = rng.choice((0, 0, 2, 4))
        frame = rectangle(-margin, -margin, 4 * size + margin, 4 * size + margin)
        result = [frame] + [face[::-1] for face in result]
    elif rng.random() < .2:
        result = [flipped(rng, face) for face in result]
    return result or [rectangle(0, 0, 4, 4)]


def comb(rng):
    teeth = rng.randint(2, 7)
    slanted = rng.random() < .5
    base = 2 * rng.randint(-3, 0)
    points = []
    x = 2 * rng.randint(-3, 3)
    points.append((x, base))
    for index in range(teeth):
        height = 2 * rng.randint(1, 6)
        if slanted:
            points += [(x, 0), (x + height, height), (x + 2 * height, 0)]
            x += 2 * height
        else:
            width, gap = 2 * rng.randint(1, 3), 2 * rng.randint(0, 2)
            points += [(x, 0), (x, height), (x + width, height),
                       (x + width, 0)]
            x += width + gap
    points.append((points[-1][0], base))
    if rng.random() < .5:
        points = [(q, p) for p, q in points]
    if rng.random() < .5:
        points = [(p, -q) for p, q in points]
    return flipped(rng, points)


def spiral(rng):
    turns = rng.randint(4, 12)
    x = y = 0
    outward = [(0, 0)]
    step = 4
    for index in range(turns):
        dx, dy = ((1, 0), (0, 1), (-1, 0), (0, -1))[index % 4]
        x += dx * step
        y += dy * step
        outward.append((x, y))
        if index % 2:
            step += 4
    thickness = 2
    inward = []
    for index in range(turns, -1, -1):
        px, py = outward[index]
        # shift towards the inside of the turn
        dx, dy = ((1, 1), (-1, 1), (-1, -1), (1, -1))[index % 4]
        inward.append((px + dx * thickness, py + dy * thickness))
    return flipped(rng, outward + inward)


def lattice_side(rng):
    """(family name, rings)"""
    pick = rng.randrange(22)
    if pick > 19:
        return 'mosaic', mosaic(rng)
    if pick < 4:
        size = rng.choice((3, 6, 6, 12))
        return 'rect', [rectilinear(rng, size) for _ in range(rng.randint(1, 3))]
    if pick < 9:
        size = rng.choice((2, 3, 3, 5))
        return 'oct', [octilinear(rng, size) for _ in range(rng.randint(1, 3))]
    if pick < 11:
        return 'blocks', blocks(rng, rng.choice((3, 5, 8)))
    if pick < 13:
        return 'nested', nested(rng)
    if pick < 15:
        return 'checker', checkerboard(rng)
    if pick < 16:
        return 'frame', frame_with_chain(rng)
    if pick < 18:
        return 'cells', cells(rng, rng.randint(2, 4))
    if pick < 19:
        return 'comb', [comb(rng) for _ in range(rng.randint(1, 2))]
    return 'long', [rng.choice((rectilinear, octilinear))(rng, rng.choice((4, 8)),
                                                          rng.randint(10, 24)),
                    *([spiral(rng)] if rng.random() < .5 else [])]


FAR = True


def far(rng, powers=(17, 20, 24, 25, 26, 30, 31, 32, 34, 40)):
    """A distant place: coordinates beyond what narrow numbers hold."""
    reach = 2 ** rng.choice(powers)
    return tuple(rng.choice((0, 1, -1, 1, -1)) * (reach + rng.randint(-40, 40)) for _ in range(2))


def lattice_transform(rng):
    """A random exactness-preserving placement."""
    scale = rng.choice((1, 1, 1, 1, 3, 50, 1001))
    place = rng.random()
    if place < .5:
        dx, dy = rng.randint(-20, 5), rng.randint(-20, 5)
    elif place < .75:
        dx = dy = 0
    elif place < .93 or not FAR:
        dx, dy = rng.randint(-10 ** 5, 10 ** 5), rng.randint(-10 ** 5, 10 ** 5)
    else:
        dx, dy = far(rng)
        if rng.random() < .5:
            scale = rng.choice((1, 1001, 10 ** 4, 10 ** 5))
    swap = rng.random() < .5

    def transform(rings):
        result = []
        for ring in rings:
            points = [(x * scale + dx, y * scale + dy) for x, y in ring]
            if swap:
                points = [(y, x) for x, y in points]
            result.append(points)
        return result
    return transform


def lattice(rng):
    """(family, subject, clip) on which the exact answer is known."""
    subject_family, subject = lattice_side(rng)
    kind = rng.randrange(12)
    if kind == 0:
        clip_family, clip = 'none', []
    elif kind == 1:
        # the subject again, shifted: shared and overlapping edges
        dx, dy = 2 * rng.randint(-2, 2), 2 * rng.randint(-2, 2)
        clip_family = 'shifted'
        clip = [flipped(rng, [(x + dx, y + dy) for x, y in ring])
                for ring in subject]
    else:
        clip_family, clip = lattice_side(rng)
    if rng.random() < .15:
        subject, clip = clip, subject
        subject_family, clip_family = clip_family, subject_family
    transform = lattice_transform(rng)
    subject, clip = transform(subject), transform(clip)
    if rng.random() < .3:
        subject = [decorated(rng, ring) for ring in subject]
        clip = [decorated(rng, ring) for ring in clip]
    return subject_family + '/' + clip_family, subject, clip


def crowd(rng, sizes=(40, 80, 150, 260, 310)):
    """(family, subject, clip): far more rings than the other families, on the lattice."""
    pick = rng.randrange(6)
    many = rng.choice(sizes)
    kind = rng.randrange(3)

    def shape(x, y, r):
        return (rectangle(x - r, y - r, x + r, y + r) if kind == 0 else
                diamond(x, y, r) if kind == 1 else octagon(x, y, r + r % 2))
    if pick == 0:
        # the winding number climbs to the number of rings
        family = 'stack'
        subject = [shape(0, 0, 4 * (level + 1)) for level in range(many)]
    elif pick == 1:
        family = 'copies'
        # (crossing copies cross each other quadratically often)
        ring = rng.choice((shape(0, 0, 8), rectilinear(rng, 6, 4), octilinear(rng, 3, 4)))
        subject = [ring] * (many if len(ring) == 4 else min(many, 60))
    elif pick == 2:
        # a staircase of overlapping rings
        family = 'stairs'
        many = min(many, 40)
        dx, dy = 2 * rng.randint(0, 2), 2 * rng.randint(0, 2)
        subject = [shape(dx * k, dy * k, 4 * many) for k in range(many)]
    elif pick == 3:
        # islands within holes within islands
        family = 'islands'
        many = min(many, 100)
        subject = [shape(0, 0, 4 * (level + 1))[::(-1) ** level] for level in range(many)]
    elif pick == 4:
        # one frame, many holes, some with islands
        family = 'sieve'
        side = rng.randint(5, 12) if many > 39 else rng.randint(3, 5)
        subject = [rectangle(-8, -8, 16 * side, 16 * side)]
        for i in range(side):
            for j in range(side):
                if rng.random() < .8:
                    subject.append(shape(16 * i, 16 * j, 4)[::-1])
                    if rng.random() < .3:
                        subject.append(shape(16 * i, 16 * j, 2))
    else:
        # columns of nested rings next to each other
        family = 'columns'
        subject = [shape(60 * column, 0, 4 * (level + 1))
                   for column in range(rng.randint(2, 6)) for level in range(rng.randint(2, 7))]
    if family in ('stack', 'copies', 'stairs') and rng.random() < .3:
        # a few wind the other way
        subject = [ring[::-1] if rng.random() < .1 else ring for ring in subject]
    if rng.random() < .3:
        rng.shuffle(subject)
    extent = max(abs(v) for ring in subject for point in ring for v in point)
    side = extent // 2 * 2
    clip = rng.choice(([], [rectangle(0, -side, side + 4, side)], [rectangle(-side, 0, side, 2)],
                       [ring for ring in subject[::2]][:60]))
    if rng.random() < .3:
        subject, clip = clip, subject
    transform = lattice_transform(rng)
    return family, transform(subject), transform(clip)


def long_ring(rng, size):
    """(family, ring) of about `size` vertices, with slopes 0, 1, -1 and infinity, on the even lattice."""
    pick = rng.randrange(6)
    if pick == 0:
        # a saw: as many local minima as teeth
        family, x, points = 'saw', 0, []
        for _ in range(size // 2):
            height = 2 * rng.choice((1, 1, 2, 5))
            points += [(x, 0), (x + height, height)]
            x += 2 * height
        points += [(x, 0), (x, -12), (0, -12)]
    elif pick == 1:
        # two bounds of hundreds of edges
        family, x, points = 'staircase', 0, [(0, 0)]
        y = 0
        slanted = rng.random() < .5
        for _ in range(size // 4):
            step = 2 * rng.randint(1, 3)
            points += [(x + step, y), (x + step, y + 2)] if not slanted else [(x, y + 2), (x + step, y + 2 + step)]
            x, y = points[-1]
        back = [(px - 10, py + 10) for px, py in points]
        points += back[::-1]
    elif pick == 2:
        family, points = 'comb', [(0, -4)]
        for index in range(size // 4):
            height = 2 * rng.choice((1, 2, 2, 6))
            points += [(4 * index, 0), (4 * index, height), (4 * index + 2, height), (4 * index + 2, 0)]
        points.append((points[-1][0], -4))
    elif pick == 3:
        # most vertices are in the middle of a side
        family = 'subdivided'
        side = 2 * (size // 4)
        points = ([(2 * k, 0) for k in range(side // 2)] + [(side, 2 * k) for k in range(side // 2)]
                  + [(side - 2 * k, side) for k in range(side // 2)] + [(0, side - 2 * k) for k in range(side // 2)])
        points = [(x, y) for x, y in points for _ in range(rng.choice((1, 1, 1, 2)))]
    elif pick == 4:
        family = 'spiral'
        x, y, step, outward = 0, 0, 4, [(0, 0)]
        turns = min(size // 2, 160)
        for index in range(turns):
            dx, dy = ((1, 0), (0, 1), (-1, 0), (0, -1))[index % 4]
            x, y = x + dx * step, y + dy * step
            outward.append((x, y))
            step += 4 * (index % 2)
        points = outward + [(outward[k][0] + 2 * (1, -1, -1, 1)[k % 4], outward[k][1] + 2 * (1, 1, -1, -1)[k % 4])
                            for k in range(turns, -1, -1)]
    else:
        # a walk that visits and crosses itself
        family, x, y, points = 'walk', 0, 0, [(0, 0)]
        reach = rng.choice((8, 16, 40))
        while len(points) < min(size, 300):
            dx, dy = rng.choice(((1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (-1, -1), (1, -1), (-1, 1)))
            length = 2 * rng.randint(1, 6)
            if abs(x + dx * length) <= reach and abs(y + dy * length) <= reach:
                x, y = x + dx * length, y + dy * length
                points.append((x, y))
        points.append((0, y))
    return family, flipped(rng, points)


def long(rng, sizes=(130, 260, 520, 1100)):
    """(family, subject, clip): rings of far more vertices than the other families, on the lattice."""
    family, ring = long_ring(rng, rng.choice(sizes))
    subject = [ring]
    xs, ys = [x for x, _ in ring], [y for _, y in ring]
    left, right, low, high = min(xs), max(xs), min(ys), max(ys)
    middle = (left + right) // 4 * 2
    clip = rng.choice(([], [rectangle(left - 2, low + 2, right + 2, low + 6)], [rectangle(left, low, middle, high)],
                       [rectangle(middle, low - 2, right + 4, high + 2)], [rectangle(left, low, right, high)],
                       [[(x + 2, y) for x, y in ring]], [ring[::-1]],
                       [long_ring(rng, rng.choice(sizes))[1]] if family != 'walk' else []))
    if family in ('walk', 'spiral', 'saw') and len(clip) == 1 and len(clip[0]) > 400:
        clip = []
    if rng.random() < .3:
        subject, clip = clip, subject
    transform = lattice_transform(rng)
    return 'long ' + family, transform(subject), transform(clip)


def tangled(rng, sizes=(150, 300, 600)):
    """(family, subject, clip): arbitrary integer rings of hundreds of vertices."""
    most = rng.choice(sizes)
    radius = rng.choice((300, 10 ** 4, 10 ** 6))
    pick = rng.randrange(3)
    if pick == 0:
        family, subject = 'long star', [star(rng, radius, most)]
    elif pick == 1:
        # two ragged shores
        family = 'long shore'
        width = 2 * radius // most + 2
        subject = [flipped(rng, [(width * k - radius, rng.randint(0, radius // 2)) for k in range(most // 2)]
                           + [(width * k - radius, -rng.randint(1, radius // 2)) for k in range(most // 2)][::-1])]
    else:
        family, subject = 'long tangle', [[(rng.randint(-radius, radius), rng.randint(-radius, radius))
                                           for _ in range(most // 9)]]
    clip = rng.choice(([], [rectangle(-radius // 2, -radius // 3, radius // 3, radius // 2)],
                       [star(rng, radius, most // 2)], [(star(rng, radius, 12))]))
    if rng.random() < .3:
        subject, clip = clip, subject
    return family, subject, clip


def fans(rng):
    """(family, subject, clip): rings that share an edge, on a coarse grid where many crossings coincide."""
    size, scale = rng.choice((3, 4, 5, 6)), rng.choice((60, 420, 2520))
    first, second = ((rng.randrange(size) * scale, rng.randrange(size) * scale) for _ in range(2))
    sides = [], []
    for _ in range(rng.randint(2, 9)):
        rest = [(rng.randrange(size) * scale, rng.randrange(size) * scale) for _ in range(rng.choice((1, 1, 1, 2, 3)))]
        ring = rest if len(rest) == 3 else [first, second] + rest
        rng.choice(sides).append(flipped(rng, ring))
    return 'fans', *sides


def long_any(rng):
    return (long if rng.random() < .5 else tangled)(rng)


def decorated(rng, ring):
    """The same ring presented with closing points, repeats, lattice midpoints, spikes."""
    result = []
    size = len(ring)
    for index, point in enumerate(ring):
        result.append(point)
        following = ring[(index + 1) % size]
        pick = rng.random()
        if pick < .1:
            result += [point] * rng.randint(1, 2)
        elif pick < .2:
            mid = ((point[0] + following[0]), (point[1] + following[1]))
            if mid[0] % 2 == 0 and mid[1] % 2 == 0:
                result.append((mid[0] // 2, mid[1] // 2))
        elif pick < .26:
            # a retraced stroke encloses nothing
            dx, dy = rng.choice(DIRECTIONS)
            step = 2 * rng.randint(1, 4)
            result += [(point[0] + dx * step, point[1] + dy * step), point]
    if rng.random() < .5:
        result.append(result[0])
    turn = rng.randrange(len(result))
    if result[0] != result[-1]:
        result = result[turn:] + result[:turn]
    return result


# ------------------------------------------------------------------ general rings
SCALES = (60, 97, 100, 333, 997, 1000, 1001, 9973)


def grid_ring(rng, size, scale, most=8):
    return [(rng.randint(0, size) * scale, rng.randint(0, size) * scale)
            for _ in range(rng.randint(3, most))]


def star(rng, radius, most=40):
    count = rng.randint(5, most)
    cx, cy = rng.randint(-radius // 2, radius // 2), rng.randint(-radius // 2, radius // 2)
    spread = rng.choice((.2, .5, .9))
    points = []
    for index in range(count):
        angle = 2 * math.pi * index / count
        r = radius * (1 - spread * rng.random())
        points.append((cx + int(r * math.cos(angle)), cy + int(r * math.sin(angle))))
    return flipped(rng, points)


def general(rng, big=True):
    """(family, subject, clip): arbitrary integer rings."""
    pick = rng.randrange(24)
    if pick > 21:
        family, subject, clip = tees(rng)
    elif pick > 19:
        family, subject, clip = thin(rng)
    elif pick < 9:
        size, scale = rng.randint(3, 8), rng.choice(SCALES)
        family = 'grid'
        make = lambda: grid_ring(rng, size, scale)  # noqa: E731
        subject = [make() for _ in range(rng.randint(1, 3))]
        clip = [make() for _ in range(rng.randint(0 if rng.random() < .2 else 1, 3))]
    elif pick < 14:
        family = 'wide'
        extent = 10 ** rng.choice((3, 4, 5, 6, 3, 4, 5, 6, 7))
        most = rng.choice((5, 8, 12))
        make = lambda: [(rng.randint(-extent, extent), rng.randint(-extent, extent))  # noqa: E731
                        for _ in range(rng.randint(3, most))]
        subject = [make() for _ in range(rng.randint(1, 3))]
        clip = [make() for _ in range(rng.randint(1, 2))]
    elif pick < 16:
        family = 'star'
        radius = rng.choice((1000, 10 ** 4, 10 ** 6))
        subject = [star(rng, radius) for _ in range(rng.randint(1, 2))]
        clip = [star(rng, radius) for _ in range(rng.randint(1, 2))]
    elif pick < 19:
        # clip shares vertices and edges with the subject
        family = 'shared'
        size, scale = rng.randint(3, 8), rng.choice(SCALES)
        subject = [grid_ring(rng, size, scale) for _ in range(rng.randint(1, 2))]
        clip = []
        for ring in subject:
            points = [point if rng.random() < .6 else
                      (rng.randint(0, size) * scale, rng.randint(0, size) * scale)
                      for point in ring]
            clip.append(flipped(rng, points))
    else:
        family = 'tangle' if big else 'wide'
        extent = 10 ** rng.randint(4, 6)
        count = rng.randint(16, 26) if big else 8
        subject = [[(rng.randint(-extent, extent), rng.randint(-extent, extent))
                    for _ in range(count)]]
        clip = [[(rng.randint(-extent, extent), rng.randint(-extent, extent))
                 for _ in range(rng.randint(3, 6))]]
    if rng.random() < .5:
        dx, dy = rng.randint(-10 ** 4, 10 ** 4), rng.randint(-10 ** 4, 10 ** 4)
        if FAR and rng.random() < .15:
            # (edges of any direction are found to cross reliably up to here)
            dx, dy = far(rng, (17, 20, 23, 24))
        subject = [[(x + dx, y + dy) for x, y in ring] for ring in subject]
        clip = [[(x + dx, y + dy) for x, y in ring] for ring in clip]
    return family, subject, clip


def crowded(rng):
    """Small unit grids, on which several crossings share a pixel."""
    size = rng.choice((2, 3, 3, 3, 4, 4, 5, 6, 8, 12, 20))
    most = rng.choice((4, 6, 8, 8, 10))
    dx = rng.choice((0, 0, -size // 2, rng.randint(-30, 30)))

    def make():
        return [(rng.randint(0, size) + dx, rng.randint(0, size) + dx)
                for _ in range(rng.randint(3, most))]
    subject = [make() for _ in range(rng.randint(1, 3))]
    clip = [make() for _ in range(rng.randint(0, 2))]
    return 'crowded', subject, clip


def busy(rng):
    """(family, subject, clip): dozens of small rings of any direction, overlapping a few others each."""
    extent = 10 ** rng.randint(4, 6)
    count = rng.choice((10, 18, 18, 25, 40))
    reach = int(extent * rng.choice((.3, .5, .8)) / count ** .5)
    level = [rng.randint(-extent, extent) for _ in range(3)]

    def make():
        # (some share the heights of their bottoms)
        x = rng.randint(-extent // 2, extent // 2)
        y = rng.choice(level) // 2 if rng.random() < .3 else rng.randint(-extent // 2, extent // 2)
        return [(x, y)] + [(x + rng.randint(-reach, reach), y - rng.randint(-reach // 3, reach))
                           for _ in range(rng.choice((2, 2, 3, 3, 5)))]
    rings = [make() for _ in range(count)]
    cut = rng.choice((0, count // 2, count, count // 4))
    return 'busy', rings[:cut], rings[cut:]


def tees(rng):
    """(family, subject, clip): rings with vertices on slanted edges of others, in places no machine number gives."""
    step, reach = rng.randint(2, 7), rng.choice((20, 60, 60, 200, 1000, 10 ** 5))

    def spot():
        return step * rng.randint(-reach, reach), step * rng.randint(-reach, reach)

    def inner(ring):
        index = rng.randrange(len(ring))
        (ax, ay), (bx, by) = ring[index - 1], ring[index]
        part = rng.randint(1, step - 1)
        return ax + (bx - ax) // step * part, ay + (by - ay) // step * part

    rings = [[spot() for _ in range(rng.randint(3, 5))] for _ in range(rng.randint(1, 2))]
    frames = list(rings)
    for _ in range(rng.randint(1, 3)):
        frame = rng.choice(frames)
        rings.append([inner(frame) if rng.random() < .6 else spot() if rng.random() < .7 else rng.choice(frame)
                      for _ in range(rng.randint(3, 6))])
        if rng.random() < .3:
            # small ones stand on the edge with one corner
            x, y = inner(frame)
            size = reach * step // rng.choice((2, 4, 10)) + 2
            rings[-1] = [(x, y)] + [(x + rng.randint(-size, size), y + rng.choice((-1, -1, 1)) * rng.randint(1, size))
                                    for _ in range(2)]
    cut = rng.randint(0, len(rings))
    rng.shuffle(rings)
    return 'tees', rings[:cut], rings[cut:]


def many(rng, lattice):
    """(family, subject, clip): dozens of rings."""
    return crowd(rng, (18, 24, 33, 60)) if lattice else busy(rng)


def needle(rng, extent):
    """Two integer vectors no longer than extent that enclose next to no angle (a small determinant)."""
    a, b, c, d = 1, 0, 0, 1
    for _ in range(200):
        times = rng.choice((1, 1, 1, 2, 5))
        e, f = a + times * c, b + times * d
        if max(e, f) > extent:
            break
        if rng.random() < .5:
            a, b = e, f
        else:
            c, d = e, f
    return (a, b), (c, d)


def thin_ring(rng, extent):
    """Needles and fans of them: edges leave vertices in directions that barely differ."""
    sx, sy = rng.choice((-1, 1)), rng.choice((-1, 1))
    swap = rng.random() < .5
    u, v = needle(rng, extent)
    points = [(0, 0)]
    for _ in range(rng.randint(2, 5)):
        pick = rng.random()
        i, j = rng.randint(-1, 2), rng.randint(-1, 2)
        if pick < .2:
            points.append((0, 0))
        elif pick < .3:
            points.append((rng.randint(-extent, extent), rng.randint(-extent, extent)))
        else:
            points.append((u[0] * i + v[0] * j, u[1] * i + v[1] * j))
    x, y = rng.choice(((0, 0), (0, 0), (rng.randint(-extent, extent), rng.randint(-extent, extent))))
    points = [(sx * (q if swap else p) + x, sy * (p if swap else q) + y) for p, q in points]
    turn = rng.randrange(len(points))
    return flipped(rng, points[turn:] + points[:turn])


def thin(rng):
    """(family, subject, clip): needles, some of them sharing vertices."""
    extent = 2 ** rng.randint(3, 20)
    subject = [thin_ring(rng, extent) for _ in range(rng.randint(1, 3))]
    clip = [thin_ring(rng, extent) for _ in range(rng.randint(0, 2))]
    if clip and rng.random() < .5:
        pool = [point for ring in subject for point in ring]
        clip[0] = [rng.choice(pool) if rng.random() < .4 else point for point in clip[0]]
    return 'thin', subject, clip


def degenerate_ring(rng, size, scale=1):
    """Rings with repeats, runs of collinear points and retraced strokes."""
    if rng.random() < .2:
        return wandering_ring(rng, size, scale)
    result = []
    x, y = rng.randint(-size, size), rng.randint(-size, size)
    for _ in range(rng.randint(0, 9)):
        pick = rng.random()
        if pick < .2 and result:
            result.append(result[-1])
        elif pick < .35 and len(result) > 1:
            result.append(result[-2])
        elif pick < .5 and result:
            result.append(rng.choice(result))
        elif pick < .75:
            dx, dy = rng.choice(DIRECTIONS)
            step = rng.randint(1, size)
            x, y = x + dx * step, y + dy * step
            result.append((x * scale, y * scale))
        else:
            x, y = rng.randint(-size, size), rng.randint(-size, size)
            result.append((x * scale, y * scale))
    if result and rng.random() < .4:
        result.append(result[0])
    return result


def wandering_ring(rng, size, scale=1, most=24):
    """A long walk among few points: most of it cancels out, the ends of the sequence included."""
    pool = [(rng.randint(-size, size) * scale, rng.randint(-size, size) * scale) for _ in range(rng.randint(3, 6))]
    return [rng.choice(pool) for _ in range(rng.randint(4, most))]


def operation(rng, ops=('intersect', 'unite', 'subtract', 'symmetric_subtract')):
    return rng.choice(ops), rng.randrange(4), rng.randrange(4)
