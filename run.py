#!/usr/bin/env python
"""run.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--facet NAME] [--scale F]"""
import sys
import os
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
if os.environ.get('PYTHONHASHSEED') != '0' or os.path.realpath(sys.prefix) != '/opt/venv':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    if os.path.realpath(sys.prefix) != '/opt/venv' and os.environ.get('_VERIF_REEXEC') == '1':
        pass
    else:
        os.environ['_VERIF_REEXEC'] = '1'
        os.execv(PY, [PY] + sys.argv)
sys.path.insert(0, HERE)
import argparse
import hashlib
import importlib
import json
import subprocess
import tempfile
import time
import shutil

LEVEL = 'exploration'


def load(pid):
    return importlib.import_module('props.' + pid.lower())


def known_findings():
    path = os.path.join(HERE, 'known_findings.json')
    with open(path) as f:
        return json.load(f)


def worker(args):
    from vf import core
    mod = load(args.pid)
    out = {'facets': {}, 'error': None}
    for facet in mod.FACETS:
        if args.facet and facet.name != args.facet:
            continue
        total = facet.quick if args.tier == 'quick' else facet.thorough
        total = int(total * args.scale)
        n = max(1, total // args.shards)
        digest = hashlib.sha256(('%s/%s/%d/%d' % (args.pid, facet.name, args.seed, args.worker)).encode()).digest()
        t0 = time.monotonic()
        try:
            res = core.run_facet(facet, n, int.from_bytes(digest[:8], 'big'))
        except Exception:
            import traceback
            out['error'] = 'facet %s: %s' % (facet.name, traceback.format_exc())
            break
        res['wall'] = time.monotonic() - t0
        out['facets'][facet.name] = res
        if res['failure']:
            break
    with open(args.out, 'w') as f:
        json.dump(out, f)


def replay(args):
    from vf import core
    with open(args.replay) as f:
        data = json.load(f)
    mod = load(data['property'])
    facet = [f for f in mod.FACETS if f.name == data['facet']][0]
    _, failure = core.run_case(facet, data['case'])
    if failure is None:
        print('replay: property holds for this case')
        return 0
    print(failure)
    print('VIOLATION property=%s replay=%s' % (data['property'], args.replay))
    return 1


def main():
    p = argparse.ArgumentParser()
    p.add_argument('pid')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    p.add_argument('--shards', type=int, default=8)
    p.add_argument('--worker', type=int, default=None)
    p.add_argument('--out')
    p.add_argument('--facet')
    p.add_argument('--replay')
    p.add_argument('--scale', type=float, default=1.0)
    p.add_argument('--no-evidence', action='store_true')
    args = p.parse_args()
    if args.replay:
        return replay(args)
    if args.worker is not None:
        worker(args)
        return 0

    t0 = time.monotonic()
    pid = args.pid
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        procs = []
        for i in range(args.shards):
            out = os.path.join(scratch, 'w%d.json' % i)
            cmd = [PY, os.path.join(HERE, 'run.py'), pid, '--tier', args.tier, '--seed', str(args.seed), '--shards',
                   str(args.shards), '--worker', str(i), '--out', out, '--scale', str(args.scale)]
            if args.facet:
                cmd += ['--facet', args.facet]
            wdir = os.path.join(scratch, 'd%d' % i)
            os.mkdir(wdir)
            environ = dict(os.environ, TMPDIR=wdir)
            procs.append((subprocess.Popen(cmd, cwd=HERE, env=environ, stdout=subprocess.DEVNULL,
                                           stderr=subprocess.PIPE), out))
        results = []
        errors = []
        for proc, out in procs:
            _, err = proc.communicate()
            if proc.returncode != 0 or not os.path.exists(out):
                errors.append('worker exited %s: %s' % (proc.returncode, err.decode('utf-8', 'replace')[-3000:]))
                continue
            with open(out) as f:
                data = json.load(f)
            if data['error']:
                errors.append(data['error'])
            results.append(data)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    return report(args, results, errors, time.monotonic() - t0)


def report(args, results, errors, wall):
    pid = args.pid
    mod = load(pid)
    evaluations = 0
    distinct = set()
    facets = {}
    samples = []
    failures = []
    known = []
    for facet in mod.FACETS:
        ev, nt, labels = 0, set(), {}
        for data in results:
            res = data['facets'].get(facet.name)
            if not res:
                continue
            ev += res['evaluations']
            nt |= set(res['nontrivial'])
            for k, v in res['labels'].items():
                labels[k] = labels.get(k, 0) + v
            if len([s for s in samples if s['facet'] == facet.name]) < 2:
                samples.extend(res['samples'][:1])
            if res['failure']:
                failures.append(res['failure'])
            for k in res['known']:
                if k not in known:
                    known.append(k)
        evaluations += ev
        distinct |= set(facet.name + h for h in nt)
        facets[facet.name] = {'cases': ev, 'distinct_nontrivial': len(nt), 'nontrivial_rule': facet.rule,
                              'classes': dict(sorted(labels.items()))}
    listed = [k for k in known_findings()['known'] if k['property'] == pid]
    listed_ids = [k['id'] for k in listed]
    for k in known:
        if k not in listed_ids:
            failures.append({'facet': '?', 'case': k, 'message': 'finding not listed: %s' % k, 'reproduced': True})
    for k in listed:
        if k['id'] in known:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    violations = 0
    if failures:
        failures.sort(key=lambda f: (not f['reproduced'], len(json.dumps(f['case']))))
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        seen = set()
        for f in failures:
            if f['facet'] in seen:
                continue
            seen.add(f['facet'])
            violations += 1
            path = os.path.join(HERE, 'replays', '%s-%s-%d.json' % (pid, f['facet'], args.seed))
            with open(path, 'w') as h:
                json.dump({'property': pid, 'facet': f['facet'], 'seed': args.seed, 'case': f['case'],
                           'message': f['message'], 'reproduced': f['reproduced']}, h, indent=1, sort_keys=True)
            print('%s/%s: %s' % (pid, f['facet'], f['message']))
            print('case: %s' % json.dumps(f['case'], sort_keys=True)[:2000])
            print('VIOLATION property=%s replay=%s' % (pid, path))
    for e in errors:
        sys.stderr.write('harness error: %s\n' % e)
    if not args.no_evidence:
        evidence = {
            'property': pid, 'tier': args.tier, 'seed': args.seed, 'level': getattr(mod, 'LEVEL', LEVEL),
            'coverage': {
                'evaluations': evaluations, 'distinct_nontrivial': len(distinct),
                'rule': 'Hypothesis-generated cases per facet (counts below are cases run; a case is counted once in '
                        'distinct_nontrivial, by the hash of its JSON). Non-trivial, per facet: ' +
                        '; '.join('%s: %s' % (f.name, f.rule) for f in mod.FACETS),
                'samples': samples[:12], 'facets': facets,
                'known_findings_seen': known,
            },
            'assumptions': getattr(mod, 'ASSUMPTIONS', []),
            'wall_s': round(wall, 2), 'violations': violations,
        }
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as h:
            json.dump(evidence, h, indent=1, sort_keys=True)
    if violations:
        return 1
    if errors or evaluations == 0:
        return 2
    print('%s: %d cases, %d distinct non-trivial, %.1f s' % (pid, evaluations, len(distinct), wall))
    return 0


if __name__ == '__main__':
    sys.exit(main())
