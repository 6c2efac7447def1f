"""C08 - every input is processed: no failure, crash or hang."""
import inspect
import sys
import threading

from vlib import gen
from vlib.engine import Outcome
from vlib.impl import BOTH, CPP

ID = 'C08'
HANG_S = 60.
FRAMES = 110
STACK = 256 * 1024
RULE = ('Rings of any size from empty on: degenerate rings (repeats, collinear runs, retraced strokes, '
        'fewer than three points), lattice, arbitrary, and large structured inputs (hundreds of '
        'vertices, rings, nesting levels); loops of touching holes and nests asked for with few Python frames or '
        'little native stack left; each is added, bounds, minima and all four operations are asked '
        'for, under random fill rules. No call may raise, crash the process or not return, and each returns '
        'its documented type. Non-trivial: some ring was accepted.')
PLAN = {'quick': {'degenerate': 24000, 'adding': 24000, 'lattice': 5000, 'general': 4000, 'large': 160, 'long': 200, 'fans': 2000, 'deep': 40,
                  'stack': 20},
        'thorough': {'degenerate': 1500000, 'adding': 1500000, 'lattice': 400000, 'general': 400000,
                     'large': 6000, 'long': 10000, 'fans': 200000, 'deep': 1500, 'stack': 800}}
ASSUMPTIONS = ['distinct crossings are not crowded into shared pixels (see the known findings)']


def make(stream, rng):
    if stream in ('degenerate', 'adding'):
        scale = rng.choice((60, 1000)) if stream == 'degenerate' else rng.choice((1, 1, 1, 1000))
        size = rng.choice((2, 3, 5))
        subject = [gen.degenerate_ring(rng, size, scale) for _ in range(rng.randint(0, 3))]
        clip = [gen.degenerate_ring(rng, size, scale) for _ in range(rng.randint(0, 3))]
    elif stream == 'lattice':
        _, subject, clip = gen.lattice(rng)
    elif stream == 'fans':
        _, subject, clip = gen.fans(rng)
    elif stream == 'long':
        _, subject, clip = gen.long_any(rng)
    elif stream == 'general':
        _, subject, clip = gen.general(rng)
    elif stream == 'deep':
        subject, clip = deep(rng), [] if rng.random() < .6 else [gen.rectangle(-30, -30, 2, 2000)]
        if rng.random() < .3:
            subject, clip = clip, subject
    elif stream == 'stack':
        subject, clip = (loop(rng.randint(650, 1100), rng.choice((-4, 0, 20)), False)
                         if rng.random() < .8 else
                         [gen.flipped(rng, gen.rectangle(-r, -r, r, r))
                          for r in range(2, 2 * rng.randint(1000, 2000), 2)]), []
    else:
        subject, clip = large(rng), large(rng)
    # (intersections with nothing are no challenge)
    fills = [rng.choice((1, 1, 1, 2, 3)) if stream in ('deep', 'stack') else rng.randrange(4), rng.randrange(4)]
    return {'stream': stream, 'subject': subject, 'clip': clip, 'fills': fills, 'reverse': rng.random() < .2}


def large(rng):
    kind = rng.randrange(6)
    if kind == 0:  # deep nesting
        depth = rng.randint(40, 130)
        return [gen.flipped(rng, gen.rectangle(-r, -r, r, r)) for r in range(2, 2 * depth + 2, 2)]
    if kind == 1:  # many separate cells
        side = rng.randint(6, 14)
        return [gen.rectangle(4 * i, 4 * j, 4 * i + 2 + 2 * rng.randrange(2), 4 * j + 2 + 2 * rng.randrange(2))
                for i in range(side) for j in range(side)]
    if kind == 2:  # long comb
        points = [(0, -2)]
        x = 0
        for _ in range(rng.randint(30, 120)):
            height = 2 * rng.randint(1, 40)
            points += [(x, 0), (x, height), (x + 2, height), (x + 2, 0)]
            x += 4
        return [points + [(points[-1][0], -2)]]
    if kind == 3:
        return [gen.star(rng, 10 ** 5, 300)]
    if kind == 4:
        return [gen.rectilinear(rng, 40, rng.randint(30, 70))]
    return gen.cells(rng, 7) + gen.cells(rng, 7)


def deep(rng):
    """Long chains of touching rings and deep nests: what a recursion could follow."""
    pick = rng.randrange(4)
    if pick == 0:
        depth = rng.randint(150, 220)
        return [gen.flipped(rng, gen.rectangle(-r, -r, r, r)) for r in range(2, 2 * depth + 2, 2)]
    if pick == 1:
        # nested rings each of which touches itself
        depth = rng.randint(120, 160)
        return [gen.rectangle(-r, -r, r, r) + [(-r, -r), (-r, -r + 2), (-r + 2, -r + 2), (-r + 2, -r)]
                for r in range(6, 6 * depth + 6, 6)]
    # holes around a square, each touching the next one
    return loop(rng.randint(40, 110), rng.choice((-4, 0, 20)), rng.random() < .3)


def loop(side, margin, islands):
    extent = 4 * side
    result = [gen.rectangle(-margin, -margin, extent + margin, extent + margin)]
    for step in range(side):
        for x, y in ((4 * step + 2, 0), (extent - 2 - 4 * step, extent), (0, 4 * step + 2), (extent, 4 * step + 2)):
            result.append(gen.diamond(x, y, 2)[::-1])
            if islands:
                result.append(gen.diamond(x, y, 1))
    return result


def at_depth(frames, call):
    return call() if not frames else at_depth(frames - 1, call)


def run(case):
    if case['stream'] == 'deep':
        # a caller which is deep in a recursion of its own: what is left suffices for any call, but
        # not for one that takes a frame per ring
        return at_depth(sys.getrecursionlimit() - len(inspect.stack(0)) - FRAMES, lambda: check(case))
    if case['stream'] == 'stack':
        # a thread with a stack as small as some platforms give to every thread
        return in_thread(STACK, lambda: check(case, (CPP,)))
    return check(case)


def in_thread(size, call):
    outcomes = []

    def target():
        try:
            outcomes.append(call())
        except BaseException as error:
            outcomes.append(error)
    previous = threading.stack_size(size)
    try:
        thread = threading.Thread(target=target)
        thread.start()
    finally:
        threading.stack_size(previous)
    thread.join()
    if isinstance(outcomes[0], BaseException):
        raise outcomes[0]
    return outcomes[0]


def check(case, impls=BOTH):
    accepted = False
    ops = ('intersect', 'unite', 'subtract', 'symmetric_subtract')
    if case['stream'] in ('large', 'deep', 'stack'):
        ops = (ops[case['fills'][0]],)
    for impl in impls:
        clipper = impl.Wagyu(case['reverse'])
        for kind, rings in enumerate((case['subject'], case['clip'])):
            for ring in rings:
                added = clipper.add_linear_ring(impl.ring(ring), impl.kinds[kind])
                if added is not True and added is not False:
                    return Outcome('%s: adding %s returned %r' % (impl.name, ring, added))
                accepted = accepted or added
        if not isinstance(clipper.bounds, impl.Box):
            return Outcome('%s: bounds is %r' % (impl.name, clipper.bounds))
        len(clipper.minimums)
        if case['stream'] == 'adding':
            continue
        for op in ops:
            result = impl.execute(clipper, op, *case['fills'])
            if not isinstance(result, impl.Multipolygon):
                return Outcome('%s: %s returned %r' % (impl.name, op, result))
            for polygon in result:
                for ring in polygon:
                    len(ring)
            if not accepted and len(result):
                return Outcome('%s: %s of nothing is %r' % (impl.name, op, impl.plain(result)))
    return Outcome(None, accepted, [case['stream'], 'accepted' if accepted else 'nothing accepted'])


def corpus():
    for subject in ([], [[]], [[[0, 0]]], [[[0, 0], [1, 1]]], [[[1, 1]] * 5],
                    [[[0, 0], [2, 2], [4, 4], [2, 2]]], [[[0, 0], [5, 0], [0, 0], [5, 0]]]):
        for clip in ([], [[[0, 0], [6, 0], [6, 6], [0, 6]]]):
            for fill in range(4):
                yield {'stream': 'degenerate', 'subject': subject, 'clip': clip,
                       'fills': [fill, fill], 'reverse': False}
    # many rings along one edge
    for subject, clip, fills in (
            ([[(4, 2), (1, 0), (2, 3)], [(3, 0), (1, 0), (4, 2)], [(4, 4), (1, 0), (4, 2)], [(4, 2), (1, 0), (3, 2)]],
             [[(4, 1), (1, 0), (4, 2)]], [0, 1]),
            ([[(2, 3), (3, 2), (1, 1)], [(0, 0), (3, 1), (3, 2), (1, 1)], [(1, 1), (3, 2), (0, 3), (1, 2)],
              [(1, 1), (3, 2), (2, 2)]], [[(1, 1), (3, 2), (2, 1), (3, 1)]], [1, 0])):
        subject, clip = ([[(60 * x, 60 * y) for x, y in ring] for ring in rings] for rings in (subject, clip))
        yield {'stream': 'fans', 'subject': subject, 'clip': clip, 'fills': fills, 'reverse': False}
    # more touching holes than the interpreter allows calls
    yield {'stream': 'large', 'subject': loop(300, 20, False), 'clip': [], 'fills': [1, 0], 'reverse': False}
