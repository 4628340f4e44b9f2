#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses present."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
}
TECHNIQUE = {
    'C30': 'symbolic execution of the real source as two threads, the preemption points being variables of the solver; branches and assertions decided by z3, counterexamples replayed with real threads on the real package',
}
NOTE = ('Bounded: every path of every harness unit is explored over the current source with symbolic arguments, identities, outcomes of callbacks and structural choices, '
        'and z3 discharges every assertion for all values on the path, within the bounds the evidence names. Trusts z3, the executor and its models of CPython built-ins '
        '(symx/proxies.py); path witnesses are replayed on the unmodified package each run, and counterexamples count only if they reproduce there.')


def main():
    checks, na = [], []
    with open(os.path.join(HERE, 'properties.jsonl')) as f:
        props = [json.loads(x) for x in f if x.strip()]
    for p in props:
        pid = p['id']
        if pid in NA:
            na.append({'property': pid, 'reason': NA[pid]})
        elif os.path.exists(os.path.join(HERE, 'props', pid.lower() + '.py')):
            checks.append({
                'property': pid, 'quick_cmd': 'python3 check.py %s --tier quick' % pid, 'thorough_cmd': 'python3 check.py %s --tier thorough' % pid,
                'evidence_file': 'evidence/%s.json' % pid,
                'technique': TECHNIQUE.get(pid, 'symbolic execution of the real source, branches and assertions decided by z3, counterexamples replayed on the real package'),
                'level': 'model_checking', 'level_note': NOTE})
        else:
            na.append({'property': pid, 'reason': 'No harness yet.'})
    out = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the checks instrument the source of /repo/records in memory at every run; nothing in /repo is changed. See DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(out, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
