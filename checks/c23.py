"""C23 - what a clipper answers depends on nothing but the clipper."""
import ctypes
import decimal
import gc
import hashlib
import json
import os
import random
import signal
import subprocess
import sys
import threading
import warnings

from vlib import build, env, gen
from vlib.engine import HarnessError, Outcome
from vlib.impl import BOTH, CPP, PORT
from vlib.play import alone, objects, play

ID = 'C23'
RULE = ('Two to four scripts of calls, each on a clipper of its own but on the same ring objects, are played (a) call by call '
        'and stage by stage in a random interleaving, (b) in threads, those of the port switched at random lines '
        'by a seeded scheduler, (c) under a random decimal context, state of the garbage collector, warnings as errors, (d) in '
        'processes with random flags, hash seeds, allocators and fill patterns of memory, (e) natively in threads under '
        'ThreadSanitizer. Every log must be that of the script played alone, and state shared with the caller must be left '
        'as it was. Non-trivial: at least two scripts run operations with non-empty results.')
PLAN = {'quick': {'interleaved': 6000, 'threads': 500, 'ambient': 5000, 'process': 40, 'native': 60},
        'thorough': {'interleaved': 400000, 'threads': 100000, 'ambient': 400000, 'process': 3000, 'native': 4000}}
BATCH = 30
UNLIMITED = True  # ThreadSanitizer reserves terabytes of address space
HANG_S = 600.
ASSUMPTIONS = ['no clipper is used by two threads at once', 'the rounding mode of floating-point arithmetic is the default one']
STAGES = {'intersect': 0, 'unite': 1, 'subtract': 2, 'symmetric_subtract': 3}
_binary = None


def prepare():
    global _binary
    _binary = build.threads_harness()


def some_pool(rng):
    pick = rng.random()
    if pick > .97:
        _, subject, clip = gen.many(rng, rng.random() < .5)
        return (subject + clip)[:30]
    _, subject, clip = (gen.lattice if pick < .4 else gen.crowded if pick < .7 else gen.thin if pick < .75 else
                        lambda r: gen.general(r, False))(rng)
    return (subject + clip)[:6] or [[[0, 0], [9, 0], [0, 9]]]


def some_script(rng, size):
    steps = []
    kind = rng.randrange(2)
    for _ in range(rng.randint(1, 4)):
        if rng.random() < .8:
            steps.append(['add', rng.randrange(size), rng.choice((kind, kind, 1 - kind))])
        else:
            steps.append(['add_polygon', [rng.randrange(size) for _ in range(rng.randint(0, 3))], kind])
        if rng.random() < .2:
            steps.append([rng.choice(('bounds', 'minimums'))])
    for _ in range(rng.choice((1, 1, 2, 3))):
        steps.append([rng.choice(('operate', 'stages')), *gen.operation(rng)])
        if rng.random() < .3:
            steps.append([rng.choice(('bounds', 'minimums'))])
        if rng.random() < .1:
            steps += [['clear'], ['add', rng.randrange(size), kind]]
    return {'reverse': rng.randrange(2), 'steps': steps}


def one(rng, most=4):
    pool = some_pool(rng)
    return {'pool': pool, 'scripts': [some_script(rng, len(pool)) for _ in range(rng.randint(2, most))]}


def make(stream, rng):
    if stream == 'native':
        return {'kind': stream, 'cases': [native_one(rng) for _ in range(BATCH)]}
    if stream == 'process':
        flags = [flag for flag in ('-O', '-OO', '-B', '-s', '-X dev', '-W error', '-X utf8=0', '-X int_max_str_digits=640')
                 if rng.random() < .3]
        return {'kind': stream, 'flags': flags,
                'environment': {'PYTHONHASHSEED': str(rng.choice((0, 1, rng.randrange(2 ** 32)))),
                                'PYTHONMALLOC': rng.choice(('malloc', 'malloc_debug', 'pymalloc', 'pymalloc_debug')),
                                'MALLOC_PERTURB_': str(rng.choice((0, 1, 85, 255, rng.randrange(256)))),
                                'MALLOC_TOP_PAD_': str(rng.choice((0, 1 << 20))),
                                'MALLOC_MMAP_THRESHOLD_': str(rng.choice((1 << 10, 1 << 17, 1 << 25))),
                                'LC_ALL': rng.choice(('C', 'C.UTF-8', 'POSIX', 'de_DE.UTF-8'))},
                'cases': [one(rng, 3) for _ in range(BATCH)]}
    case = {'kind': stream, **one(rng)}
    if stream == 'interleaved':
        case['order'] = [rng.randrange(60) for _ in range(rng.randint(5, 60))]
    elif stream == 'threads':
        case['scripts'] = case['scripts'][:3]
        case['seed'] = rng.randrange(10 ** 9)
        case['often'] = rng.choice((.002, .02, .2, .5))
        case['opcodes'] = rng.random() < .25
    else:
        case['context'] = [rng.choice((1, 2, 3, 5, 28)), rng.randrange(8), rng.choice((-9, -1, -999999, 0)),
                           rng.choice((9, 1, 999999, 0)), rng.randrange(2), rng.randrange(2),
                           [rng.randrange(2) for _ in SIGNALS]]
        case['collector'] = rng.choice(('off', 'eager', 'on'))
        case['warnings'] = rng.randrange(2)
        case['thread'] = rng.randrange(2)
    return case


SIGNALS = (decimal.InvalidOperation, decimal.Inexact, decimal.FloatOperation, decimal.Rounded, decimal.Clamped,
           decimal.Subnormal, decimal.DivisionByZero, decimal.Overflow, decimal.Underflow)
ROUNDINGS = (decimal.ROUND_UP, decimal.ROUND_DOWN, decimal.ROUND_CEILING, decimal.ROUND_FLOOR, decimal.ROUND_HALF_UP,
             decimal.ROUND_HALF_DOWN, decimal.ROUND_HALF_EVEN, decimal.ROUND_05UP)


def run(case):
    return {'interleaved': run_interleaved, 'threads': run_threads, 'ambient': run_ambient,
            'process': run_process, 'native': run_native}[case['kind']](case)


def worth(logs):
    """Whether two scripts at least gave something."""
    return sum(any(isinstance(answer, list) and answer and isinstance(answer[0], list) and answer[0]
                   and isinstance(answer[0][0], list) and answer[0][0] and isinstance(answer[0][0][0], list)
                   for answer in log) for log in logs) > 1


def compare(impl, case, logs, how):
    expected = [alone(impl, script, case['pool']) for script in case['scripts']]
    for number, (got, wanted) in enumerate(zip(logs, expected)):
        if got != wanted:
            at = next((at for at, pair in enumerate(zip(got, wanted)) if pair[0] != pair[1]), min(len(got), len(wanted)))
            return '%s: script %d, answer %d is %s %s, %s alone' % (
                impl.name, number, at, got[at:at + 1], how, wanted[at:at + 1])
    return None


def run_interleaved(case):
    interesting = False
    for impl in BOTH:
        rings = objects(impl, case['pool'])
        logs = [[] for _ in case['scripts']]
        players = [play(impl, script, rings, log) for script, log in zip(case['scripts'], logs)]
        turn = 0
        while players:
            order = case['order'] or [0]
            player = players[order[turn % len(order)] % len(players)]
            turn += 1
            try:
                next(player)
            except StopIteration:
                players.remove(player)
        problem = compare(impl, case, logs, 'when calls alternate')
        if problem:
            return Outcome(problem)
        interesting = interesting or worth(logs)
    return Outcome(None, interesting, ['interleaved'])


class Scheduler:
    """Lets one thread run at a time and passes the turn on at random lines of the package."""

    def __init__(self, count, seed, often, opcodes):
        self.gates = [threading.Semaphore(0) for _ in range(count)]
        self.alive = list(range(count))
        self.rng = random.Random(seed)
        self.often = often
        self.opcodes = opcodes
        self.switches = 0
        self.root = os.path.join(os.path.abspath(env.REPO), 'wagyu') + os.sep

    def trace(self, me):
        event_wanted = 'opcode' if self.opcodes else 'line'

        def local(frame, event, argument):
            if event == event_wanted and len(self.alive) > 1 and self.rng.random() < self.often:
                self.pass_on(me)
            return local

        def enter(frame, event, argument):
            if not frame.f_code.co_filename.startswith(self.root):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
            return local
        return enter

    def pass_on(self, me):
        other = self.rng.choice(self.alive)
        if other != me:
            self.switches += 1
            self.gates[other].release()
            self.gates[me].acquire()

    def run(self, me, function):
        self.gates[me].acquire()
        sys.settrace(self.trace(me))
        try:
            function()
        finally:
            sys.settrace(None)
            self.alive.remove(me)
            if self.alive:
                self.gates[self.rng.choice(self.alive)].release()


def run_threads(case):
    interesting = False
    for impl in BOTH:
        rings = objects(impl, case['pool'])
        logs = [[] for _ in case['scripts']]
        errors = []

        def body(number):
            try:
                for _ in play(impl, case['scripts'][number], rings, logs[number]):
                    pass
            except BaseException as error:
                errors.append('%s: %s in a thread' % (impl.name, repr(error)))
        if impl is PORT:
            scheduler = Scheduler(len(logs), case['seed'], case['often'], case['opcodes'])
            threads = [threading.Thread(target=scheduler.run, args=(number, lambda n=number: body(n)))
                       for number in range(len(logs))]
        else:
            scheduler = None
            threads = [threading.Thread(target=body, args=(number,)) for number in range(len(logs))]
        interval = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            for thread in threads:
                thread.start()
            if scheduler:
                scheduler.gates[0].release()
            for thread in threads:
                thread.join()
        finally:
            sys.setswitchinterval(interval)
        if errors:
            return Outcome(errors[0])
        problem = compare(impl, case, logs, 'in a thread next to others')
        if problem:
            return Outcome(problem)
        interesting = interesting or worth(logs) and scheduler and scheduler.switches > 3
    return Outcome(None, interesting, ['threads'])


def ambient():
    """State that belongs to the caller."""
    context = decimal.getcontext()
    return {'decimal context': repr(context), 'collector': (gc.isenabled(), gc.get_threshold()),
            'recursion limit': sys.getrecursionlimit(), 'random numbers': random.getstate(),
            'warning filters': list(warnings.filters), 'rounding mode': _rounding_mode(),
            'directory': os.getcwd(), 'switch interval': sys.getswitchinterval(), 'tracer': sys.gettrace(),
            'environment': dict(os.environ), 'handlers': [signal.getsignal(number) for number in (
                signal.SIGINT, signal.SIGALRM, signal.SIGFPE, signal.SIGABRT)], 'path': list(sys.path),
            'hooks': (sys.excepthook, sys.displayhook, sys.unraisablehook)}


_rounding_mode = getattr(ctypes.CDLL(None), 'fegetround', None) or ctypes.CDLL('libm.so.6').fegetround


def run_ambient(case):
    interesting = False
    expected = {impl.name: [alone(impl, script, case['pool']) for script in case['scripts']] for impl in BOTH}
    problems = []

    def body():
        nonlocal interesting
        precision, rounding, least, most, capitals, clamp, traps = case['context']
        before_context = decimal.getcontext().copy()
        enabled, thresholds = gc.isenabled(), gc.get_threshold()
        with warnings.catch_warnings():
            if case['warnings']:
                warnings.simplefilter('error')
            try:
                decimal.setcontext(decimal.Context(
                    prec=precision, rounding=ROUNDINGS[rounding], Emin=least, Emax=most, capitals=capitals, clamp=clamp,
                    flags=[], traps=[signal_ for signal_, on in zip(SIGNALS, traps) if on]))
                if case['collector'] == 'off':
                    gc.disable()
                elif case['collector'] == 'eager':
                    gc.set_threshold(1, 1, 1)
                before = ambient()
                for impl in BOTH:
                    for script, wanted in zip(case['scripts'], expected[impl.name]):
                        try:
                            got = alone(impl, script, case['pool'])
                        except Exception as error:
                            got = repr(error)
                        if got != wanted:
                            problems.append('%s: %s under %s, %s otherwise' % (
                                impl.name, got, before['decimal context'], wanted))
                            return
                    interesting = interesting or worth(expected[impl.name])
                after = ambient()
                for name, value in before.items():
                    if after[name] != value:
                        problems.append('%s changed from %.200r to %.200r' % (name, value, after[name]))
                        return
            finally:
                decimal.setcontext(before_context)
                gc.set_threshold(*thresholds)
                (gc.enable if enabled else gc.disable)()
    if case['thread']:
        thread = threading.Thread(target=body)
        thread.start()
        thread.join()
    else:
        body()
    return Outcome(problems[0] if problems else None, interesting, ['ambient'])


def run_process(case):
    expected = [json.loads(json.dumps([[alone(impl, script, item['pool']) for impl in BOTH]
                                       for script in item['scripts']])) for item in case['cases']]
    environment = {**os.environ, **case['environment'], 'PYTHONDONTWRITEBYTECODE': '1'}
    flags = [part for flag in case['flags'] for part in flag.split()]
    try:
        done = subprocess.run([sys.executable, *flags, os.path.join(env.VERIF, 'harness', 'surroundings.py')],
                              input=json.dumps(case['cases']).encode(), capture_output=True, env=environment, timeout=400)
    except subprocess.TimeoutExpired:
        return Outcome('the package does not return under %s %s' % (case['flags'], case['environment']))
    output = done.stdout.decode(errors='replace').splitlines()
    for number, (line, wanted) in enumerate(zip(output, expected)):
        got = json.loads(line)
        if got != wanted:
            return Outcome('answers %s under %s %s, %s otherwise' % (got, case['flags'], case['environment'], wanted),
                           case={**case, 'cases': [case['cases'][number]]})
    if done.returncode or len(output) != len(expected):
        message = done.stderr.decode(errors='replace').strip()
        if not output and ('ImportError' in message or 'ModuleNotFoundError' in message):
            raise HarnessError('cannot run the harness: ' + message[-2000:])
        return Outcome('fails under %s %s: %s' % (case['flags'], case['environment'], message.splitlines()[-1:]),
                       case={**case, 'cases': case['cases'][len(output):len(output) + 1] or case['cases'][:1]})
    keys = [digest(item) for item, logs in zip(case['cases'], expected) if worth([log for log, _ in logs])]
    return Outcome(None, labels=('process',), weight=len(expected), keys=keys)


def digest(item):
    return hashlib.blake2b(json.dumps(item).encode(), digest_size=8).digest()


# ------------------------------------------------------------------------- native
def native_one(rng):
    pool = some_pool(rng)
    values = [value for ring in pool for point in ring for value in point] or [0]
    low, high = min(values) - 3, max(values) + 3
    scripts = []
    for _ in range(rng.randint(2, 4)):
        x0, y0, x1, y1 = (rng.randint(low, high) for _ in range(4))
        scripts.append({'reverse': rng.randrange(2), 'box': [min(x0, x1), min(y0, y1), max(x0, x1) + 1, max(y0, y1) + 1],
                        'requests': [list(gen.operation(rng)) for _ in range(rng.randint(1, 2))],
                        'rings': [[rng.randrange(len(pool)), rng.randrange(2)] for _ in range(rng.randint(1, 4))]})
    return {'type': rng.randrange(2), 'rounds': rng.choice((1, 2, 4)), 'pool': pool, 'scripts': scripts}


def numbers(item):
    result = [item['type'], item['rounds'], len(item['pool']), len(item['scripts'])]
    for ring in item['pool']:
        result.append(len(ring))
        for x, y in ring:
            result += [x, y]
    for script in item['scripts']:
        result += [script['reverse'], *script['box'], len(script['requests'])]
        for op, subject_fill, clip_fill in script['requests']:
            result += [STAGES[op], subject_fill | clip_fill << 2]
        result.append(len(script['rings']))
        for index, kind in script['rings']:
            result += [index, kind]
    return ' '.join(map(str, result))


def run_native(case):
    binary = _binary or build.threads_harness()
    text = '%d\n%s\n' % (len(case['cases']), '\n'.join(map(numbers, case['cases'])))
    environment = {'PATH': '/usr/bin:/bin', 'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:report_signal_unsafe=0'}
    for command in ([binary], ['setarch', '-R', binary]):
        try:
            done = subprocess.run(command, input=text.encode(), capture_output=True, env=environment, timeout=400)
        except subprocess.TimeoutExpired:
            return Outcome('threads of the native library do not finish')
        errors = done.stderr.decode(errors='replace')
        if 'unexpected memory mapping' not in errors:
            break
    output = done.stdout.decode(errors='replace').splitlines()
    if done.returncode:
        at = output.count('case') - 1
        if at < 0 or 'unexpected memory mapping' in errors:
            raise HarnessError('cannot run the harness: ' + errors[-2000:])
        found = [line for line in errors.splitlines() if 'WARNING: ThreadSanitizer' in line or 'SUMMARY' in line]
        message = output[-1][8:] if output[-1].startswith('PROBLEM ') else ' '.join(found)[:400] or 'the process died'
        return Outcome(message, case={**case, 'cases': [case['cases'][at]]})
    if output.count('ok') != len(case['cases']):
        raise HarnessError('the harness answered %d of %d cases' % (output.count('ok'), len(case['cases'])))
    return Outcome(None, labels=('native',), weight=len(case['cases']), keys=[digest(item) for item in case['cases']])


def shrink(case):
    if 'cases' in case:
        if len(case['cases']) > 1:
            for item in case['cases']:
                yield {**case, 'cases': [item]}
            return
        for item in smaller(case['cases'][0]):
            yield {**case, 'cases': [item]}
        for index in range(len(case.get('flags', ()))):
            yield {**case, 'flags': case['flags'][:index] + case['flags'][index + 1:]}
        for name in case.get('environment', ()):
            yield {**case, 'environment': {key: value for key, value in case['environment'].items() if key != name}}
        return
    yield from smaller(case)


def smaller(item):
    if len(item['scripts']) > 1:
        for index in range(len(item['scripts'])):
            yield {**item, 'scripts': item['scripts'][:index] + item['scripts'][index + 1:]}
    for index, script in enumerate(item['scripts']):
        for part in ('steps', 'requests', 'rings'):
            for cut in range(len(script.get(part, ()))):
                changed = {**script, part: script[part][:cut] + script[part][cut + 1:]}
                yield {**item, 'scripts': item['scripts'][:index] + [changed] + item['scripts'][index + 1:]}
    for index, ring in enumerate(item['pool']):
        for cut in range(len(ring)):
            yield {**item, 'pool': [r if k != index else r[:cut] + r[cut + 1:] for k, r in enumerate(item['pool'])]}
