"""C10 - a clipper's answers depend only on the rings it holds, never on its history."""
from vlib import gen
from vlib.engine import Outcome
from vlib.impl import BOTH, CPP, OPS, minimums

ID = 'C10'
RULE = ('Random histories over two clippers alive at once: add a ring, add a polygon, clear, any operation with '
        'any fill rules, bounds, local minima, repr, comparison, in any order. The model is the list of '
        'rings added since the last clear: each answer must equal that of a fresh clipper given those '
        'rings; earlier results must not change. Non-trivial: an operation runs on a clipper that has executed before.')
PLAN = {'quick': {'extension': 30000, 'both': 9000, 'many': 2000, 'long': 150},
        'thorough': {'extension': 1000000, 'both': 250000, 'many': 60000, 'long': 10000}}


def make(stream, rng):
    pool = []
    few = 3
    if stream == 'many':
        # polygons of a dozen rings
        few = 25
        _, subject, clip = gen.many(rng, rng.random() < .5)
        pool = subject + clip
    elif stream == 'long':
        _, subject, clip = (gen.long if rng.random() < .5 else gen.tangled)(rng, (130, 260))
        pool = subject + clip
    for _ in range(rng.randint(1, 3)):
        _, subject, clip = (gen.lattice if rng.random() < .6 else
                            lambda r: gen.general(r, False))(rng)
        pool += subject[:4] + clip[:4]
        if rng.random() < .3:
            pool.append(gen.degenerate_ring(rng, 4, 60))
    steps = []
    lengthy = stream in ('extension', 'both') and rng.random() < .004
    for _ in range(rng.randint(120, 400) if lengthy else rng.randint(3, 14)):
        pick = rng.random()
        which = 0 if rng.random() < .7 else 1
        if pick < (.3 if few == 3 else .1):
            steps.append([which, 'ring', rng.randrange(len(pool)), rng.randrange(2)])
        elif pick < .38:
            steps.append([which, 'polygon', [rng.randrange(len(pool)) for _ in range(rng.randint(0, few))],
                          rng.randrange(2)])
        elif pick < .45:
            steps.append([which, 'clear'])
        elif pick < .8:
            steps.append([which, 'execute', *gen.operation(rng)])
        elif pick < .9:
            steps.append([which, 'bounds'])
        elif pick < .97:
            steps.append([which, 'minimums'])
        else:
            steps.append([which, rng.choice(('repr', 'equal'))])
    which = rng.randrange(2)
    op = gen.operation(rng)
    steps += [[which, 'execute', *op], [which, 'execute', *op]]
    if rng.random() < .5:
        steps += [[0, 'minimums'], [1, 'minimums']]
    return {'pool': pool, 'steps': steps, 'reverse': [rng.random() < .2, rng.random() < .2],
            'port': stream == 'both' or stream == 'many' and rng.random() < .2}


def run(case):
    nontrivial = False
    for impl in BOTH if case['port'] else (CPP,):
        outcome, again = play(impl, case)
        if outcome:
            return Outcome(impl.name + ': ' + outcome)
        nontrivial = again
    return Outcome(None, nontrivial, ['clear then execute'] if any(
        step[1] == 'clear' for step in case['steps']) else [])


def play(impl, case):
    pool = case['pool']
    clippers = [impl.Wagyu(reverse) for reverse in case['reverse']]
    models = [[], []]
    executed = [False, False]
    again = False
    kept = []

    def fresh(which):
        result = impl.Wagyu(case['reverse'][which])
        for index, kind in models[which]:
            result.add_linear_ring(impl.ring(pool[index]), impl.kinds[kind])
        return result

    for number, (which, what, *arguments) in enumerate(case['steps']):
        clipper = clippers[which]
        if what == 'ring':
            index, kind = arguments
            added = clipper.add_linear_ring(impl.ring(pool[index]), impl.kinds[kind])
            if added != bool(impl.edges(pool[index])):
                return 'step %d: adding %s returned %r' % (number, pool[index], added), again
            models[which].append((index, kind))
        elif what == 'polygon':
            indices, kind = arguments
            added = clipper.add_polygon(impl.polygon([pool[index] for index in indices]),
                                        impl.kinds[kind])
            if added != any(impl.edges(pool[index]) for index in indices):
                return 'step %d: adding a polygon returned %r' % (number, added), again
            models[which] += [(index, kind) for index in indices]
        elif what == 'clear':
            clipper.clear()
            models[which] = []
        elif what == 'execute':
            op, subject_fill, clip_fill = arguments
            result = impl.execute(clipper, op, subject_fill, clip_fill)
            got = impl.plain(result)
            expected = impl.plain(impl.execute(fresh(which), op, subject_fill, clip_fill))
            if got != expected:
                return ('step %d: %s (%d, %d) gave %s, a fresh clipper with the same rings %s'
                        % (number, op, subject_fill, clip_fill, got, expected)), again
            kept.append((result, got))
            again = again or (executed[which] and bool(got))
            executed[which] = True
        elif what == 'bounds':
            got, expected = impl.bounds(clipper), impl.bounds(fresh(which))
            if got != expected:
                return 'step %d: bounds %s, of a fresh clipper %s' % (number, got, expected), again
        elif what == 'minimums':
            # in order: an operation must not rearrange them (it may leave sweep state in the bounds)
            got = list(map(repr, shapes(impl, clipper)))
            expected = list(map(repr, shapes(impl, fresh(which))))
            if got != expected:
                return 'step %d: local minima %s, of a fresh clipper %s' % (number, got, expected), again
        elif what == 'repr':
            repr(clipper)
        else:
            if not (clipper == clipper):
                return 'step %d: a clipper differs from itself' % number, again
        if clipper.reverse_output is not case['reverse'][which]:
            return 'step %d: reverse_output changed' % number, again
    for result, snapshot in kept:
        if impl.plain(result) != snapshot:
            return 'a result returned earlier changed to %s' % (impl.plain(result),), again
    return None, again


def shapes(impl, clipper):
    return [(y, flag, sorted((tuple(left[:3]), tuple(right[:3])), key=repr))
            for y, flag, left, right in minimums(impl, clipper)]


def shrink(case):
    steps = case['steps']
    for index in range(len(steps)):
        yield {**case, 'steps': steps[:index] + steps[index + 1:]}
    for index, ring in enumerate(case['pool']):
        for cut in range(len(ring)):
            yield {**case, 'pool': [r if k != index else r[:cut] + r[cut + 1:]
                                    for k, r in enumerate(case['pool'])]}
