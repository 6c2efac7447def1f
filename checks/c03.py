"""C03 - the operations on one pair of inputs partition the plane consistently."""
from vlib import gen, geom
from vlib.engine import Outcome
from vlib.impl import BOTH, CPP

ID = 'C03'
RULE = ('Lattice and arbitrary integer rings, any fill rules; all operations evaluated on one pair. '
        'Directed boundaries, as 1-chains, must satisfy exactly: union = intersection + '
        'symmetric difference; symmetric difference = A-B + B-A; intersection and A-B under NON_ZERO '
        'subject = the same under POSITIVE + under NEGATIVE; operations against nothing. '
        'Non-trivial: intersection and both differences are non-empty.')
PLAN = {'quick': {'extension': 22000, 'both': 4000, 'many': 3000, 'long': 200, 'fans': 1500},
        'thorough': {'extension': 2000000, 'both': 300000, 'many': 200000, 'long': 20000, 'fans': 200000}}


def make(stream, rng):
    if stream == 'many':
        family, subject, clip = gen.many(rng, rng.random() < .4)
    elif stream == 'fans':
        family, subject, clip = gen.fans(rng)
    elif stream == 'long':
        family, subject, clip = gen.long_any(rng)
    else:
        family, subject, clip = (gen.lattice if rng.random() < .3 else gen.general)(rng)
    _, subject_fill, clip_fill = gen.operation(rng)
    return {'family': family, 'subject': subject, 'clip': clip,
            'fills': [subject_fill, clip_fill], 'port': stream == 'both' or stream in ('many', 'long', 'fans') and rng.random() < .1}


def run(case):
    subject = [list(map(tuple, ring)) for ring in case['subject']]
    clip = [list(map(tuple, ring)) for ring in case['clip']]
    s, c = case['fills']
    nontrivial = False
    for impl in BOTH if case['port'] else (CPP,):
        memo = {}

        def rings(op, first=s, second=c, swap=False):
            key = op, first, second, swap
            if key not in memo:
                left, right = (clip, subject) if swap else (subject, clip)
                memo[key] = geom.int_rings(impl.clip(left, right, op, first, second))
            return memo[key]

        def law(name, total, *parts):
            value = geom.chain(total)
            for part in parts:
                geom.chain(part, -1, value)
            residue = geom.chain_residue(value)
            if residue is not None:
                (dx, dy, offset), position, jump = residue
                return Outcome('%s: %s fails (fills %d, %d) on the line %d*y - %d*x = %d: %s'
                               % (impl.name, name, s, c, dx, dy, offset,
                                  {key: value for key, value in memo.items()}))
            return None

        union, common = rings('unite'), rings('intersect')
        xor, minus = rings('symmetric_subtract'), rings('subtract')
        other = rings('subtract', c, s, True)
        problem = (law('A+B = A*B + A^B', union, common, xor)
                   or law('A^B = A-B + B-A', xor, minus, other))
        if not problem and case['port']:
            problem = (law('A*B = B*A', common, rings('intersect', c, s, True))
                       or law('A+B = B+A', union, rings('unite', c, s, True))
                       or law('A^B = B^A', xor, rings('symmetric_subtract', c, s, True)))
        if not problem:
            for op in ('intersect', 'subtract'):
                problem = problem or law(
                    op + ' under NON_ZERO = under POSITIVE + under NEGATIVE',
                    rings(op, 1, c), rings(op, 2, c), rings(op, 3, c))
        if problem:
            return problem
        nontrivial = bool(common and minus and other)
    return Outcome(None, nontrivial, ['family ' + case['family'].split('/')[0]])
