"""Paths and knobs shared by all checks."""
import os
import sys

sys.dont_write_bytecode = True

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
REPLAYS = os.path.join(VERIF, 'replays')
EVIDENCE = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.json')
PYTHON = '/opt/venv/bin/python'


def seed():
    try:
        return int(os.environ.get('VERIF_SEED', '1') or '1')
    except ValueError:
        return 1


def tier():
    value = os.environ.get('VERIF_TIER', 'quick')
    return 'thorough' if value == 'thorough' else 'quick'


def workers():
    try:
        return max(1, int(os.environ.get('VERIF_JOBS', '') or os.cpu_count() or 1))
    except ValueError:
        return 8
