"""Concretising a failed obligation: run the real code (through a small Rust harness, or the real binary) against the
property's executable statement, seeded with the values of the solver's counterexample."""
import json
import os
import subprocess
import tempfile
from . import extract


def harness(cmd):
    def run(a):
        exe = extract.build_harness()
        inp = json.dumps(dict(seed=a['seed'], strs=a['strs'], ints=[str(x) for x in a['ints']], budget_ms=int(a['budget'] * 1000), why=a['why']))
        with tempfile.TemporaryDirectory(prefix='pv-') as d:
            p = subprocess.run([exe, cmd], input=inp, text=True, capture_output=True, timeout=a['budget'] + 60, cwd=d)
        last = [x for x in p.stdout.splitlines() if x.startswith('{')]
        if not last:
            return dict(evaluations=0, note='no answer from the harness', stderr=p.stderr[-800:])
        return json.loads(last[-1])
    run.__name__ = 'harness_' + cmd
    return run
