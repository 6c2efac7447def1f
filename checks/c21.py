"""C21 - a fault in the middle of a call does no lasting harm."""
import hashlib
import os
import subprocess
import sys

from vlib import build, env, gen
from vlib.engine import HarnessError, Outcome
from vlib.impl import PORT, minimums

ID = 'C21'
RULE = ('Inputs of every family; faults at every allocation (native: the allocation fails, or an interruption is '
        'requested; header library under AddressSanitizer and UndefinedBehaviorSanitizer) or at random lines of the '
        "package (port: an exception, as a signal handler raises it) of an operation or of adding rings. The call must "
        'fail with that very error or give the right answer; then bounds, local minima and operations must be those '
        'of a fresh clipper, and no block of memory be left over. Non-trivial: some fault made a call fail. '
        'Evaluations of the native streams are armed calls.')
PLAN = {'quick': {'allocation': 40, 'interruption': 40, 'port': 2500},
        'thorough': {'allocation': 4000, 'interruption': 4000, 'port': 250000}}
BATCH = 40
UNLIMITED = True  # AddressSanitizer reserves terabytes of address space
HANG_S = 600.
ASSUMPTIONS = ['faults come one at a time', 'what an addition that failed half-way leaves in a clipper is not '
               'specified, only that it can be cleared']
_binary = None


def prepare():
    global _binary
    _binary = build.faults_harness()


def some(rng):
    pick = rng.random()
    if pick < .35:
        _, subject, clip = gen.lattice(rng)
    elif pick < .6:
        _, subject, clip = gen.general(rng, False)
    elif pick < .83:
        _, subject, clip = gen.crowded(rng)
    elif pick < .85:
        _, subject, clip = gen.many(rng, rng.random() < .5)
        return subject[:25], clip[:25]
    else:
        scale = rng.choice((1, 60))
        subject, clip = ([gen.degenerate_ring(rng, 4, scale) for _ in range(rng.randint(0, 3))] for _ in range(2))
    return subject[:6], clip[:6]


def one(rng):
    subject, clip = some(rng)
    return {'subject': subject, 'clip': clip, 'reverse': rng.random() < .2,
            'requests': [list(gen.operation(rng)) for _ in range(2)], 'offset': rng.randrange(1000)}


def make(stream, rng):
    if stream == 'port':
        case = one(rng)
        # moments, as fractions of the call
        case['moments'] = [rng.randrange(10 ** 6) for _ in range(4)]
        case['adding'] = rng.random() < .2
        return case
    return {'mode': int(stream == 'interruption'), 'inputs': [one(rng) for _ in range(BATCH)]}


OPS = ('intersect', 'unite', 'subtract', 'symmetric_subtract')


def line(mode, item):
    rings = [(0, ring) for ring in item['subject']] + [(1, ring) for ring in item['clip']]
    numbers = [mode, int(item['reverse'])]
    for op, subject_fill, clip_fill in item['requests']:
        numbers += [OPS.index(op), subject_fill | clip_fill << 2]
    numbers += [200, item['offset'], len(rings)]
    for kind, ring in rings:
        numbers += [kind, len(ring)]
        for x, y in ring:
            numbers += [x, y]
    return ' '.join(map(str, numbers))


def run(case):
    if 'inputs' in case:
        return run_native(case)
    return run_port(case)


def run_native(case):
    text = '%d\n%s\n' % (len(case['inputs']), '\n'.join(line(case['mode'], item) for item in case['inputs']))
    environment = {'PATH': '/usr/bin:/bin', 'ASAN_OPTIONS': 'detect_leaks=0:handle_abort=1',
                   'UBSAN_OPTIONS': 'print_stacktrace=0:halt_on_error=1'}
    try:
        done = subprocess.run([_binary or build.faults_harness()], input=text.encode(), capture_output=True,
                              env=environment, timeout=300)
    except subprocess.TimeoutExpired:
        return Outcome('the library does not return after a fault')
    output = done.stdout.decode(errors='replace').splitlines()
    if done.returncode:
        at = sum(text.startswith('case ') for text in output) - 1
        if at < 0:
            raise HarnessError('cannot run the harness: ' + done.stderr.decode(errors='replace')[-2000:])
        message = output[-1][8:] if output[-1].startswith('PROBLEM ') else 'died: ' + ' '.join(
            [text for text in done.stderr.decode(errors='replace').splitlines()
             if 'ERROR' in text or 'runtime error' in text or 'terminate' in text or 'what()' in text][:3])
        return Outcome(message, case={'mode': case['mode'], 'inputs': [case['inputs'][at]]})
    oks = [text.split() for text in output if text.startswith('ok ')]
    if len(oks) != len(case['inputs']):
        raise HarnessError('the harness answered %d of %d cases' % (len(oks), len(case['inputs'])))
    keys = [hashlib.blake2b(line(case['mode'], item).encode(), digest_size=8).digest()
            for item, (_, fired, _) in zip(case['inputs'], oks) if int(fired)]
    return Outcome(None, labels=('batch',), weight=sum(int(armed) for _, _, armed in oks), keys=keys)


class Fault(BaseException):
    """What a signal handler may raise anywhere."""


def traced(function, moment):
    """(lines run, whether the fault was raised out of the call, its value); with a negative
    moment lines are only counted."""
    root = os.path.join(os.path.abspath(env.REPO), 'wagyu') + os.sep
    seen = [0]

    def local(frame, event, argument):
        if event == 'line':
            if seen[0] == moment:
                seen[0] += 1
                raise Fault
            seen[0] += 1
        return local

    def trace(frame, event, argument):
        return local if frame.f_code.co_filename.startswith(root) else None
    previous = sys.gettrace()
    sys.settrace(trace)
    try:
        value = function()
    except Fault:
        return seen[0], True, None
    finally:
        sys.settrace(previous)
    return seen[0], False, value


def attempt(function):
    try:
        return function()
    except RuntimeError as error:
        return str(error)


def run_port(case):
    impl = PORT
    subject, clip = case['subject'], case['clip']
    objects = [(impl.ring(ring), kind) for kind, rings in enumerate((subject, clip)) for ring in rings]
    plain = [[tuple(point) for point in ring] for ring in subject + clip]

    def fresh(reverse=case['reverse']):
        result = impl.Wagyu(reverse)
        for ring, kind in objects:
            result.add_linear_ring(ring, impl.kinds[kind])
        return result

    def answer(clipper, request):
        return attempt(lambda: impl.plain(impl.execute(clipper, *request)))

    def snapshot(clipper):
        return impl.bounds(clipper), minima(impl, clipper)
    first, second = case['requests']
    expected = [answer(fresh(), request) for request in (first, second)]
    state = snapshot(fresh())
    clipper = fresh()
    failed = 0
    if case['adding']:
        def call():
            for ring, kind in objects:
                clipper.add_linear_ring(ring, impl.kinds[kind])
        clipper = impl.Wagyu(case['reverse'])
    else:
        def call():
            return answer(clipper, first)
    total, _, _ = traced(call, -1)
    if not total:
        return Outcome(None, False)
    for number, moment in enumerate(case['moments']):
        if case['adding']:
            clipper.clear()
        _, fault, value = traced(call, moment * total // 10 ** 6)
        failed += fault
        if not fault and not case['adding'] and value != expected[0]:
            return Outcome('an operation went on after an exception and gave %s, not %s' % (value, expected[0]))
        if case['adding']:
            clipper.clear()
            if impl.bounds(clipper) != (0, 0, 0, 0) or len(clipper.minimums):
                return Outcome('clear after a failed addition leaves something behind')
            for ring, kind in objects:
                clipper.add_linear_ring(ring, impl.kinds[kind])
        if snapshot(clipper) != state:
            return Outcome('a fault after %d/10^6 of the call changed bounds or local minima: %s, not %s'
                           % (moment, snapshot(clipper), state))
        which = number % 2
        got = answer(clipper, (first, second)[which])
        if got != expected[which]:
            return Outcome('after a fault at %d/10^6 of the call %s gives %s, not %s'
                           % (moment, (first, second)[which], got, expected[which]))
        if [impl.plain_ring(ring) for ring, _ in objects] != plain:
            return Outcome('a fault changed a ring passed in')
    return Outcome(None, failed > 0, ['adding'] if case['adding'] else [])


def minima(impl, clipper):
    # what the bounds are made of; an operation may leave its sweep state in them
    return [(y, flag, [tuple(left[:3]), tuple(right[:3])]) for y, flag, left, right in minimums(impl, clipper)]


def shrink(case):
    if 'inputs' in case:
        if len(case['inputs']) > 1:
            for item in case['inputs']:
                yield {**case, 'inputs': [item]}
            return
        for item in smaller(case['inputs'][0]):
            yield {**case, 'inputs': [item]}
        return
    if len(case['moments']) > 1:
        for moment in case['moments']:
            yield {**case, 'moments': [moment]}
    yield from smaller(case)


def smaller(item):
    for side in ('subject', 'clip'):
        for index, ring in enumerate(item[side]):
            yield {**item, side: item[side][:index] + item[side][index + 1:]}
            for cut in range(len(ring)):
                yield {**item, side: [r if k != index else r[:cut] + r[cut + 1:] for k, r in enumerate(item[side])]}
