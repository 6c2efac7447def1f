"""Plays scripts in a process set up in an unusual way: JSON in, JSON out."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import impl, play  # noqa: E402

for case in json.load(sys.stdin):
    print(json.dumps([[play.alone(one, script, case['pool']) for one in impl.BOTH] for script in case['scripts']]),
          flush=True)
