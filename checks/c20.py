"""C20 - the native headers give the same answer for every coordinate type."""
from vlib import gen, native
from vlib.engine import Outcome
from vlib.impl import CPP

ID = 'C20'
RULE = ('Lattice, general, crowded, degenerate and far (up to 2^25) integer inputs go through the header library instantiated '
        'with 64-bit and 32-bit integer coordinates, with doubles, with clippers of one type given rings and asked for '
        'polygons of others, and through the extension module; all must return the same vertices (or all give up). '
        'The native rectangle clip must do the same for the three types. Non-trivial: the result is not empty.')
PLAN = {'quick': {'lattice': 25000, 'general': 25000, 'crowded': 50000, 'degenerate': 10000, 'far': 30000, 'many': 3000, 'long': 300,
                  'rectangle': 20000},
        'thorough': {'lattice': 2000000, 'general': 2000000, 'crowded': 4000000, 'degenerate': 500000, 'far': 1000000, 'many': 100000, 'long': 30000,
                     'rectangle': 600000}}


def prepare():
    native.library()


def make(stream, rng):
    # (coordinates have to fit the narrowest type)
    gen.FAR = False
    try:
        return make_near(stream, rng)
    finally:
        gen.FAR = True


def make_near(stream, rng):
    if stream == 'rectangle':
        _, subject, clip = rng.choice((gen.lattice, gen.general, gen.crowded, gen.thin))(rng)
        rings = (subject + clip)[:8]
        values = [value for ring in rings for point in ring for value in point] or [0]
        low, high = min(values) - 3, max(values) + 3
        x0, y0, x1, y1 = (rng.choice(values) if rng.random() < .4 else rng.randint(low, high) for _ in range(4))
        return {'rings': rings, 'box': [min(x0, x1), min(y0, y1), max(x0, x1) + 1, max(y0, y1) + 1],
                'fill': rng.randrange(4), 'many': rng.choice((0, 1, rng.randint(1, 256)))}
    if stream == 'degenerate':
        size, scale = rng.choice((2, 3, 5)), rng.choice((1, 60))
        subject = [gen.degenerate_ring(rng, size, scale) for _ in range(rng.randint(1, 3))]
        clip = [gen.degenerate_ring(rng, size, scale) for _ in range(rng.randint(0, 2))]
    elif stream == 'many':
        _, subject, clip = gen.many(rng, rng.random() < .5)
    elif stream == 'long':
        _, subject, clip = gen.long_any(rng)
    elif stream == 'far':
        _, subject, clip = rng.choice((gen.lattice, gen.crowded, gen.crowded, gen.general, gen.thin))(rng)
        # products of coordinates do not fit in 32 bits any more, but do in the mantissa of a double
        extent = max((abs(value) for ring in subject + clip for point in ring for value in point), default=1) or 1
        if extent < 2 ** 23:
            times = rng.randint(1, 2 ** 25 // extent)
            shift = rng.choice((0, 0, rng.randint(-2 ** 25, 2 ** 25 - 2 * extent)))
            if shift:
                times = 1
            subject, clip = ([[(x * times + shift, y * times - shift) for x, y in ring] for ring in rings]
                             for rings in (subject, clip))
    else:
        _, subject, clip = {'lattice': gen.lattice, 'general': gen.general, 'crowded': gen.crowded}[stream](rng)
    return {'subject': subject, 'clip': clip, 'request': list(gen.operation(rng)), 'reverse': rng.random() < .2}


def attempt(function, *arguments):
    try:
        return function(*arguments)
    except RuntimeError:
        return None


def run(case):
    if 'box' in case:
        answers = {kind: attempt(native.rectangle_clip, case['rings'], case['box'], case['fill'], case['many'], kind)
                   for kind in ('', '_int64', '_int32')}
        if not answers[''] == answers['_int64'] == answers['_int32']:
            return Outcome('clipped to a rectangle: %s' % answers)
        return Outcome(None, bool(answers['']), ['rectangle'])
    arguments = (case['subject'], case['clip'], *case['request'], case['reverse'])
    extension = attempt(CPP.clip, *arguments)
    for kind in ('int64', 'double', 'int32', 'mixed', 'mixed2'):
        got = attempt(native.execute, kind, *arguments)
        if got != extension:
            return Outcome('%s coordinates give %s, the extension %s' % (kind, got, extension))
    return Outcome(None, bool(extension), ['gives up'] if extension is None else [])
