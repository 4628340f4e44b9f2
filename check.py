#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--units substring]

Decides one property: explores every unit of props/<id>.py symbolically over the instrumented current source of /repo, lets z3
decide every branch and assertion, replays every counterexample and a sample of the path witnesses on the real package, writes
evidence/<id>.json.  Exit 0: held on everything explored.  Exit 1: VIOLATION printed.  Exit 2: no verdict.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/bin/python'
if os.environ.get('PYTHONHASHSEED') != '0' or os.environ.get('PYTHONDONTWRITEBYTECODE') != '1' \
        or (os.path.exists(VT) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/veriftools/pyvenv')):
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    exe = VT if os.path.exists(VT) else sys.executable
    os.execv(exe, [exe] + sys.argv)

sys.path.insert(0, HERE)
REAL_PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable


def _work(args):
    pid, name, deadline, seed, keep, dump, unit_s = args
    deadline = min(deadline, time.time() + unit_s)
    from symx.explore import explore_unit
    m = importlib.import_module('props.' + pid.lower())
    u = next(x for x in m.UNITS if x.name == name)
    import warnings
    warnings.simplefilter('ignore')
    r = explore_unit(u, deadline, seed, keep, dump)
    return r


def real_replay(pid, items):
    """Concrete replays, in parallel batches, each in a fresh interpreter."""
    if not items:
        return []
    n = max(1, min(os.cpu_count() or 4, (len(items) + 39) // 40))
    size = (len(items) + n - 1) // n
    tmp = tempfile.mkdtemp(prefix='symx-')
    procs = []
    try:
        for i in range(n):
            part = items[i * size:(i + 1) * size]
            if not part:
                continue
            a, b = os.path.join(tmp, 'i%d.json' % i), os.path.join(tmp, 'o%d.json' % i)
            with open(a, 'w') as f:
                json.dump(part, f)
            p = subprocess.Popen([REAL_PY, os.path.join(HERE, 'symx', 'replay.py'), pid.lower(), a, b],
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            procs.append((p, b, len(part)))
        out = []
        for p, b, k in procs:
            try:
                log, _ = p.communicate(timeout=600)
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                log = 'timeout'
            if p.returncode == 0:
                with open(b) as f:
                    out.extend(json.load(f))
            else:
                out.extend([{'failed': [], 'stopped': 'replayer died', 'notes': None, 'crash': log[-800:]}] * k)
        return out
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)


def known_findings():
    """known-findings.txt: lines `known: {"property":..,"unit":..,"label":..,"vars":{..},"what":..}`; lines `fixed: ...` suppress nothing."""
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                if line.startswith('known:'):
                    out.append(json.loads(line[len('known:'):]))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--units', default='')
    ap.add_argument('--jobs', type=int, default=os.cpu_count() or 4)
    ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    pid = a.property
    tier = a.tier
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    budget = 640 if tier == 'quick' else 6 * 3600
    deadline = t0 + budget
    unit_s = 240 if tier == 'quick' else 3 * 3600
    mod = importlib.import_module('props.' + pid.lower())
    units = [u for u in mod.UNITS if (tier == 'thorough' or u.tier == 'quick') and a.units in u.name]
    units.sort(key=lambda u: -u.weight)
    by = {u.name: u for u in units}
    assert len(by) == len(units), 'duplicate unit names'
    keep = 150 if tier == 'quick' else 600
    dump = tier == 'thorough'
    results = []
    with mp.get_context('fork').Pool(min(a.jobs, len(units)), maxtasksperchild=4) as pool:
        for r in pool.imap_unordered(_work, [(pid, u.name, deadline, seed, keep, dump, unit_s) for u in units]):
            results.append(r)
            if a.verbose:
                print('  %-40s paths %5d  checks %6d  queries %6d  %.1fs solver %.1fs  viol %d inc %d real %d %s' % (
                    r['unit'], r['paths'], r['checks'], r['queries'], r['wall'], r['solver_s'], len(r['violations']),
                    r['inconclusive'], r['realised'], r['error'] or ''), flush=True)
    results.sort(key=lambda r: r['unit'])

    # -- replay: counterexamples first, then path witnesses ------------------------------------------------------
    cex = [(r['unit'], label, w) for r in results for label, w in r['violations']]
    cres = real_replay(pid, [{'unit': u, 'witness': w} for u, _, w in cex])
    traces = []
    for r in results:
        for s in r['samples']:
            traces.append((r['unit'], s[0], s[1]))
    tres = real_replay(pid, [{'unit': u, 'witness': w} for u, w, _ in traces])

    lost = [(r['unit'], w) for r in results for w in r['lost']]
    lres = real_replay(pid, [{'unit': u, 'witness': w} for u, w in lost])

    confirmed = []   # (unit, label, witness)
    spurious = []
    for (u, label, w), c in zip(cex, cres):
        if c['failed']:
            confirmed.append((u, c['failed'][0], w, c))
        else:
            spurious.append((u, label, w, c))
    validated = 0
    diverged = []
    for (u, w, t), c in zip(traces, tres):
        if c['failed']:
            confirmed.append((u, c['failed'][0], w, c))
        elif c['notes'] is not None and c['stopped'] is None and [list(n) for n in c['notes']] == [list(n) for n in t]:
            validated += 1
        else:
            diverged.append((u, w, t, c))

    by_replay = {}
    for (u, w), c in zip(lost, lres):
        if c['failed'] and c['stopped'] != 'replayer died':
            confirmed.append((u, c['failed'][0], dict(w, vars=c.get('vars') or w['vars']), c))
        for n in c['notes'] or ():
            by_replay.setdefault(u, set()).add(n[0])

    known = [k for k in known_findings() if k['property'] == pid]
    out_dir = os.path.join(HERE, 'out', pid)
    lines = []
    seen = set()
    nviol = 0
    for u, label, w, c in confirmed:
        kf = next((k for k in known if k['unit'] == u and k['label'] == label
                   and all(w['vars'].get(n) == v for n, v in k.get('vars', {}).items())), None)
        if kf is not None:
            continue
        if (u, label) in seen:
            continue
        seen.add((u, label))
        nviol += 1
        os.makedirs(out_dir, exist_ok=True)
        path = os.path.join(out_dir, '%s-%d.json' % (u.replace('/', '_'), nviol))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'module': pid.lower(), 'unit': u, 'label': label, 'witness': w}, f, indent=1)
        lines.append('VIOLATION property=%s replay=%s  # unit %s: %s' % (pid, path, u, label))
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))

    # -- verdict ---------------------------------------------------------------------------------------------------
    problems = []
    for r in results:
        if r['error']:
            problems.append('unit %s: %s' % (r['unit'], r['error']))
        if r['checks'] == 0 and not r['error']:
            problems.append('unit %s asserted nothing' % r['unit'])
        for label in by[r['unit']].reach:
            if not r['reached'].get('@' + label) and not r['error'] and '@' + label not in by_replay.get(r['unit'], ()):
                problems.append('unit %s never reached "%s"' % (r['unit'], label))
    tot = {k: sum(r[k] for r in results) for k in ('paths', 'aborted', 'branches', 'forks', 'queries', 'checks', 'discharged',
                                                   'trivial', 'realised', 'truncated', 'inconclusive')}
    tot['inconclusive'] += len(spurious)
    solver_s = round(sum(r['solver_s'] for r in results), 2)
    cross = None
    if dump and not nviol:
        cross = second_solver([x for r in results for x in (r['dump'] or [])], deadline)
        if cross['disagree']:
            problems.append('second solver disagrees on %d obligations' % cross['disagree'])
    entered = sorted({f for r in results for f in r['entered']})
    samples = []
    for (u, w, t), c in list(zip(traces, tres))[:: max(1, len(traces) // 6)][:6]:
        samples.append({'unit': u, 'witness': w, 'assertions_and_marks': t[:12]})
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot['paths'], 'transitions': tot['branches'], 'traces_validated_against_impl': validated,
            'traces_replayed': len(traces), 'traces_diverged': len(diverged),
            'meaning': 'states = feasible symbolic paths, each standing for all concrete inputs that satisfy its path '
                       'condition; transitions = symbolic branch decisions taken; traces = path witnesses replayed on '
                       'the un-instrumented package with the same outcome of every assertion and mark',
            'paths_outside_the_model_tried_on_the_real_code': len(lost),
            'units_out_of_budget': [r['unit'] for r in results if r['partial']],
            'solver_retries': sum(r['retries'] for r in results), 'answers_by_cvc5': sum(r['cvc5'] for r in results),
            'exhaustive': bool(not problems and not any(r['partial'] for r in results) and tot['inconclusive'] == 0 and tot['truncated'] == 0 and tot['realised'] == 0),
            'units': [{'unit': r['unit'], 'params': {k: str(v)[:80] for k, v in by[r['unit']].params.items()},
                       'paths': r['paths'], 'assertions': r['checks'], 'discharged': r['discharged'],
                       'queries': r['queries'], 'wall_s': round(r['wall'], 2)} for r in results][:120],
            'assertions': tot['checks'], 'assertions_discharged': tot['discharged'],
            'assertions_trivially_true_after_branching': tot['trivial'],
            'solver_queries': tot['queries'], 'solver_s': solver_s, 'solver': 'z3 ' + z3_version(),
            'forks': tot['forks'], 'paths_cut_by_assumption': tot['aborted'], 'paths_truncated': tot['truncated'],
            'paths_inconclusive': tot['inconclusive'],
            'values_realised_under_approximation': tot['realised'],
            'inconclusive_reasons': sorted({x for r in results for x in r['inconclusive_why']})[:8]
            + ['counterexample did not reproduce: %s: %s' % (u, l) for u, l, _, _ in spurious[:5]],
            'functions_encoded': entered, 'functions_encoded_count': len(entered),
            'functions_instrumented': results[0]['functions'] if results else 0,
            'bounds': getattr(mod, 'BOUNDS', ''),
            'outside': getattr(mod, 'OUTSIDE', ''),
            'second_solver': cross,
            'samples': samples,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', ())) + COMMON_ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 2), 'violations': nviol,
    }
    if not a.no_evidence and not a.units:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        text = json.dumps(ev, indent=1)
        if len(text) > 60000:
            ev['coverage']['units'] = ev['coverage']['units'][:30]
            ev['coverage']['samples'] = ev['coverage']['samples'][:2]
            text = json.dumps(ev, indent=1)
        if len(text) > 60000:
            ev['coverage']['samples'] = [str(samples[:1])[:2000]]
            ev['coverage']['units'] = ev['coverage']['units'][:10]
            text = json.dumps(ev, indent=1)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            f.write(text)
    print('%s %s: %d units, %d paths, %d assertions (%d discharged), %d queries, solver %.1fs, %d traces validated, '
          '%d diverged, %d inconclusive, %d realised, wall %.1fs' % (
              pid, tier, len(results), tot['paths'], tot['checks'], tot['discharged'], tot['queries'], solver_s, validated,
              len(diverged), tot['inconclusive'], tot['realised'], time.time() - t0))
    for u, label, w, c in spurious[:5]:
        print('INCONCLUSIVE: counterexample of unit %s (%s) does not reproduce on the real code' % (u, label))
        if a.verbose:
            print(json.dumps(w), c)
    for u, w, t, c in diverged[:5]:
        print('DIVERGED: unit %s: symbolic and concrete trace of a path differ' % u)
        if a.verbose:
            print(json.dumps(w), '\n   sym', t, '\n   con', c)
    if a.verbose:
        for r in results:
            for x in r['crashes'][:1]:
                print(x)
            if r['inconclusive']:
                print(r['unit'], r['inconclusive_why'])
    if lines:
        for x in lines[:20]:
            print(x)
        sys.exit(1)
    if problems:
        for x in problems[:20]:
            print('ERROR: ' + x)
        sys.exit(2)
    for r in results:
        if r['partial'] or r['inconclusive']:
            print('NOTE: unit %s not exhaustive: %d paths outside the model, %s' % (
                r['unit'], r['inconclusive'], r['partial'] or '; '.join(r['inconclusive_why'])[:200]))
    sys.exit(0)


def z3_version():
    import z3
    return z3.get_version_string()


def second_solver(texts, deadline):
    """Re-decide a sample of the discharged obligations with cvc5."""
    import random
    rng = random.Random(1)
    if len(texts) > 300:
        texts = rng.sample(texts, 300)
    agree = disagree = unknown = 0
    t = time.time()
    tmp = tempfile.mkdtemp(prefix='symx-')
    try:
        for i, s in enumerate(texts):
            if time.time() > deadline or time.time() - t > 600:
                break
            p = os.path.join(tmp, 'q.smt2')
            with open(p, 'w') as f:
                f.write('(set-logic ALL)\n' + s)
            try:
                r = subprocess.run(['cvc5', '--tlimit=10000', '--strings-exp', p], capture_output=True, text=True, timeout=20).stdout
            except subprocess.TimeoutExpired:
                r = 'unknown'
            r = r.strip().split('\n')[0] if r.strip() else ''
            if r == 'unsat':
                agree += 1
            elif r == 'sat':
                disagree += 1
            else:
                unknown += 1
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    return {'solver': 'cvc5', 'obligations_sampled': agree + disagree + unknown, 'agree_unsat': agree, 'disagree': disagree,
            'no_answer': unknown, 'seconds': round(time.time() - t, 1)}


COMMON_ASSUMPTIONS = [
    'symbolic objects range over the type universe of symx/universe.py (per-unit subset in the unit), any identity, any '
    'aliasing, equality classes 0..9 per group (numbers: |n| <= 10^6), arbitrary truth values for user-defined objects',
    'CPython built-ins applied to symbolic values follow the models in symx/proxies.py; the models are validated by '
    'replaying path witnesses on the real package',
    'tuple and frozenset hashes are collision free; hashes of user-defined objects are arbitrary',
]

if __name__ == '__main__':
    main()
