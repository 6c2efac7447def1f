"""Mutation sweep: python3 tools/mutate.py WORKDIR SEED COUNT SCALE CHECK,CHECK,... FILE...

Makes COUNT random one-line mutants of the FILEs (relative to /repo) in scratch copies below
WORKDIR and runs the checks on each until one reports it; one JSON line per mutant goes to WORKDIR/log.jsonl.
"""
import concurrent.futures
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAPS = [(r'<=', '<'), (r'>=', '>'), (r'(?<![<>\-=])<(?![<=])', '<='), (r'(?<![<>\-=])>(?![>=])', '>='), (r'==', '!='),
         (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'), (r'\band\b', 'or'), (r'\bor\b', 'and'), (r'\bis not\b', 'is'),
         (r'\bis\b(?! not)', 'is not'), (r'\bnot\b', ''), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '),
         (r'\+= ', '-= '), (r'-= ', '+= '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bTrue\b', 'False'),
         (r'\bFalse\b', 'True'), (r'\bnext\b', 'prev'), (r'\bprev\b', 'next'), (r'\btop\b', 'bot'), (r'\bbot\b', 'top'),
         (r'\btop\b', 'bottom'), (r'\bbottom\b', 'top'), (r'\bmin\b', 'max'), (r'\bmax\b', 'min'), (r'\b0\b', '1'),
         (r'\b1\b', '0'), (r'\b2\b', '3'), (r'!(?!=)', ''), (r'\bbreak\b', 'continue'), (r'\bcontinue\b', 'break'),
         (r'\bfirst\b', 'second'), (r'\bleft_bound\b', 'right_bound'), (r'\bright_bound\b', 'left_bound'),
         (r'std::abs|std::fabs', ''), (r'\babs\b', ''), (r'\.x\b', '.y'), (r'\.y\b', '.x'), (r'->x\b', '->y'),
         (r'->y\b', '->x'), (r'\bleft\b', 'right'), (r'\bsubject_fill', 'clip_fill'), (r'\bclip_fill', 'subject_fill'),
         (r'LEFT', 'RIGHT'), (r'RIGHT', 'LEFT')]


def mutants(path):
    with open(os.path.join('/repo', path)) as file:
        lines = file.read().split('\n')
    comment = '#' if path.endswith('.py') else '//'
    for number, line in enumerate(lines):
        text = line.strip()
        if (not text or text.startswith((comment, '*', '/*', 'import', 'from', '#', 'template', 'def ', 'class', 'using'))
                or 'throw' in text or 'raise' in text):
            continue
        for pattern, replacement in SWAPS:
            for match in re.finditer(pattern, line):
                if replacement in ('<=', '>=') and ('template' in line or '<T' in line or 'std::' in line or '->' in line[
                        max(0, match.start() - 1):match.end() + 1] or '_cast' in line or '<<' in line):
                    continue
                yield path, number, line[:match.start()] + replacement + line[match.end():]
        if not path.endswith('.py') and re.match(r'^[\w\->.\[\]*() ]+( =|\+\+|\().*;$', text) and 'return' not in text \
                and not re.match(r'^[\w:<>]+[&* ]+\w+ = ', text):
            yield path, number, ';'
        if path.endswith('.py') and re.match(r'^[\w.\[\]]+ (=|\+=|-=) .*[^,(\\]$|^[\w.]+\(.*\)$', text):
            yield path, number, line[:len(line) - len(line.lstrip())] + 'pass'


def main():
    work, seed, count, scale, checks = sys.argv[1:6]
    files = sys.argv[6:]
    everything = [mutant for path in files for mutant in mutants(path)]
    random.Random(int(seed)).shuffle(everything)
    chosen = everything[:int(count)]
    print('%d of %d mutants' % (len(chosen), len(everything)))
    os.makedirs(work, exist_ok=True)
    slots = list(range(int(os.environ.get('SLOTS', 8))))
    lock = threading.Lock()
    log = open(os.path.join(work, 'log.jsonl'), 'a')

    def one(mutant):
        path, number, line = mutant
        with lock:
            slot = slots.pop()
        repo, verif = os.path.join(work, 'r%d' % slot), os.path.join(work, 'v%d' % slot)
        try:
            if not os.path.exists(repo):
                shutil.copytree('/repo', repo, symlinks=True)
                shutil.copytree(ROOT, verif, symlinks=True, ignore=shutil.ignore_patterns('.git', 'replays', 'evidence', 'seeded'))
            with open(os.path.join('/repo', path)) as file:
                lines = file.read().split('\n')
            before, lines[number] = lines[number], line
            with open(os.path.join(repo, path), 'w') as file:
                file.write('\n'.join(lines))
            verdicts = {}
            environment = dict(os.environ, VERIF_REPO=repo, VERIF_JOBS='1', VERIF_SCALE=scale, VERIF_NOSHRINK='1')
            for check in checks.split(','):
                try:
                    done = subprocess.run([os.path.join(verif, 'run.py'), check], cwd=verif, env=environment,
                                          capture_output=True, text=True, timeout=400)
                    verdict = done.returncode
                    if verdict == 1:
                        verdict = done.stdout.strip().split('\n')[-2][:160]
                    elif verdict:
                        verdict = '%d %s' % (verdict, done.stderr.strip().split('\n')[-1][:160])
                        if 'cannot build' in done.stderr:
                            verdicts = {'build': verdict}
                            break
                except subprocess.TimeoutExpired:
                    verdict = 'timeout'
                verdicts[check] = verdict
                if verdict:
                    break
            shutil.copy(os.path.join('/repo', path), os.path.join(repo, path))
            with lock:
                log.write(json.dumps({'file': path, 'line': number + 1, 'before': before.strip(), 'after': line.strip(),
                                      'caught': [c for c, v in verdicts.items() if v],
                                      'verdicts': {c: v for c, v in verdicts.items() if v}}) + '\n')
                log.flush()
        finally:
            with lock:
                slots.append(slot)
    with concurrent.futures.ThreadPoolExecutor(len(slots)) as pool:
        for future in [pool.submit(one, mutant) for mutant in chosen]:
            future.result()


if __name__ == '__main__':
    main()
