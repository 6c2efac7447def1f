"""C09 - the native code is free of memory errors and undefined behaviour."""
import hashlib
import os
import re
import shutil
import subprocess
import tempfile

from vlib import build, gen
from vlib.engine import HarnessError, Outcome

ID = 'C09'
RULE = ('A libFuzzer target built from the native headers with AddressSanitizer, UndefinedBehaviorSanitizer and checked '
        'standard containers, and once more with MemorySanitizer (reads of uninitialised memory), decodes '
        'bytes into a history on one clipper (rings added, bounds asked, clear, operations, rectangle clips) and repeats '
        'every operation on a fresh clipper, which has to answer the same. The stream "structured" feeds it histories encoded from the geometric generators, "guided" lets libFuzzer mutate a '
        'structured seed corpus by coverage. Evaluations are executions of the target; non-trivial: a structured history '
        'with an operation on at least two rings, or a mutated one kept because it reached new coverage.')
PLAN = {'quick': {'structured': 48, 'guided': 8, 'structured-memory': 24, 'guided-memory': 8},
        'thorough': {'structured': 4000, 'guided': 64, 'structured-memory': 2000, 'guided-memory': 32}}
BATCH = 150
GUIDED_RUNS = {'quick': 12000, 'thorough': 400000}
LEVEL = 'exploration'
UNLIMITED = True  # AddressSanitizer reserves terabytes of address space
HANG_S = 3600.
ASSUMPTIONS = ['leaks are not looked for (the sandbox allows no leak detection)', 'histories of up to 400 bytes: about 8 '
               'rings of up to 15 vertices on a 16 by 16 grid at 6 scales']
_binaries = None


def prepare():
    global _binaries
    _binaries = build.fuzz_harness(), build.memory_fuzz_harness()


def encode(rng):
    """Bytes of a history made of generated rings; see harness/fuzz.cpp for the format."""
    mask = rng.choice((7, 15))
    size = rng.choice((3, 5, 7)) if mask == 7 else rng.choice((4, 8, 15))
    head = rng.randrange(64) | (64 if mask == 7 else 0)
    data = bytearray([head])
    rings = operations = 0
    for _ in range(rng.randint(1, 3)):
        for _ in range(rng.randint(1, 4)):
            if rings >= 8:
                break
            pick = rng.random()
            if pick < .3:
                ring = gen.octilinear(rng, size // 2 or 1) if rng.random() < .5 else gen.rectilinear(rng, size // 2 or 1)
                x0, y0 = min(x for x, _ in ring), min(y for _, y in ring)
                ring = [(min(mask, x - x0), min(mask, y - y0)) for x, y in ring]
            else:
                ring = [(rng.randint(0, size), rng.randint(0, size)) for _ in range(rng.randint(0, 11))]
                if ring and rng.random() < .3:
                    ring.append(ring[0])
            ring = ring[:15]
            data.append(rng.randrange(5) | (8 if rng.random() < .4 else 0) | len(ring) << 4)
            data += bytes(x | y << 4 for x, y in ring)
            rings += 1
        if rng.random() < .3:
            data.append(5 | (128 if rng.random() < .3 else 0))
        for _ in range(rng.randint(1, 2)):
            clips = rng.random() < .3
            data.append(6 | rng.randrange(4) << 3 | (32 if clips else 0))
            data.append(rng.randrange(16))
            if clips:
                data += bytes((rng.randrange(256), rng.randrange(256)))
            operations += 1
    return bytes(data[:400]), rings > 1


def make(stream, rng):
    batch = [encode(rng) for _ in range(BATCH)]
    case = {'inputs': [data.hex() for data, _ in batch], 'rich': [rich for _, rich in batch]}
    if stream.startswith('guided'):
        case['seed'] = rng.randrange(1, 1 << 30)
    if stream.endswith('memory'):
        case['memory'] = True
    return case


def _execute(arguments, directory, timeout, memory):
    environment = {'PATH': '/usr/bin:/bin', 'HOME': directory,
                   'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=1:handle_abort=1',
                   'UBSAN_OPTIONS': 'print_stacktrace=1'}
    if _binaries is None:
        prepare()
    binary = _binaries[memory]
    try:
        return subprocess.run([binary, '-detect_leaks=0', '-timeout=25', '-rss_limit_mb=2500', '-max_len=400', *arguments],
                              capture_output=True, cwd=directory, env=environment, timeout=timeout,
                              stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        raise HarnessError('the fuzzer did not finish')


def _message(stderr):
    text = stderr.decode(errors='replace')
    for line in text.splitlines():
        found = re.search(r'PROBLEM: .*|runtime error: .*|(ERROR|WARNING): (AddressSanitizer|MemorySanitizer|libFuzzer): .*|Assertion .*', line)
        if found and 'deadly signal' not in line:
            return re.sub(r'0x[0-9a-f]+|==\d+==', '', found.group(0))[:300]
    return text.strip().splitlines()[-1][:300] if text.strip() else 'it died silently'


def _run_files(inputs, directory, memory):
    """(whether all passed, message, position of the failing one)"""
    paths = []
    for index, data in enumerate(inputs):
        path = os.path.join(directory, 'i%05d' % index)
        with open(path, 'wb') as file:
            file.write(data)
        paths.append(path)
    done = _execute(paths, directory, 600, memory)
    if done.returncode == 0:
        return True, None, None
    ran = re.findall(rb'Running: \S*i(\d{5})', done.stderr)
    if not ran:
        raise HarnessError('cannot run the fuzz target: ' + done.stderr.decode(errors='replace')[-2000:])
    return False, _message(done.stderr), int(ran[-1])


def run(case):
    inputs = [bytes.fromhex(data) for data in case['inputs']]
    memory = bool(case.get('memory'))
    directory = tempfile.mkdtemp(prefix='verif-c09-')
    try:
        passed, message, index = _run_files(inputs, directory, memory)
        if not passed:
            return Outcome(message, case={'inputs': [inputs[index].hex()], 'rich': [True], 'memory': memory})
        keys = [hashlib.blake2b(data, digest_size=8).digest() for data, rich in zip(inputs, case['rich']) if rich]
        weight = len(inputs)
        if 'seed' in case:
            corpus = os.path.join(directory, 'corpus')
            os.mkdir(corpus)
            for position, data in enumerate(inputs):
                with open(os.path.join(corpus, 'seed%05d' % position), 'wb') as file:
                    file.write(data)
            from vlib import env
            runs = int(GUIDED_RUNS[env.tier()] * min(1., float(os.environ.get('VERIF_SCALE', '1'))))
            done = _execute(['-seed=%d' % case['seed'], '-runs=%d' % runs, '-print_final_stats=1',
                             '-artifact_prefix=' + directory + '/artifact-', corpus], directory, 3000, memory)
            if done.returncode:
                artifacts = sorted(name for name in os.listdir(directory) if name.startswith('artifact-'))
                if not artifacts or 'slow-unit' in artifacts[0]:
                    raise HarnessError('the fuzzer failed: ' + done.stderr.decode(errors='replace')[-2000:])
                with open(os.path.join(directory, artifacts[0]), 'rb') as file:
                    data = file.read()
                return Outcome(_message(done.stderr), case={'inputs': [data.hex()], 'rich': [True], 'memory': memory})
            executed = re.search(rb'number_of_executed_units: (\d+)', done.stderr)
            weight += int(executed.group(1)) if executed else 0
            for name in os.listdir(corpus):
                if not name.startswith('seed'):
                    with open(os.path.join(corpus, name), 'rb') as file:
                        keys.append(hashlib.blake2b(file.read(), digest_size=8).digest())
        return Outcome(None, labels=('batch',), weight=weight, keys=keys)
    finally:
        shutil.rmtree(directory, ignore_errors=True)


def shrink(case):
    common = {'rich': [True], 'memory': bool(case.get('memory'))}
    if len(case['inputs']) > 1:
        for data in case['inputs']:
            yield {'inputs': [data], **common}
        return
    data = bytes.fromhex(case['inputs'][0])
    chunk = len(data) // 2
    while chunk:
        for start in range(0, len(data), chunk):
            yield {'inputs': [(data[:start] + data[start + chunk:]).hex()], **common}
        chunk //= 2
    for index, value in enumerate(data):
        if value:
            yield {'inputs': [(data[:index] + bytes([0]) + data[index + 1:]).hex()], **common}
