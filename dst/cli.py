"""Command line: check, replay and self-tests."""

import argparse
import importlib
import json
import os
import subprocess
import sys
import time

from . import core


def load_scenario(prop):
    module = importlib.import_module('dst.scen.{}'.format(prop.lower()))
    scenario = module.SCENARIO
    assert scenario.prop == prop
    return scenario


def git_dirty(path):
    try:
        return subprocess.run(['git', '-C', path, 'rev-parse', 'HEAD'], capture_output=True, text=True).stdout.strip()
    except OSError:
        return ''


def replay_fresh(path):
    """Replay in a fresh process: (exit code, violated signature)."""
    p = subprocess.run([sys.executable, '-m', 'dst.cli', 'replay', path], cwd=core.VERIF, capture_output=True, text=True, timeout=300)
    for line in p.stdout.splitlines():
        if line.startswith('REPLAY '):
            return json.loads(line[len('REPLAY '):])
    return {'signature': None, 'digest': None, 'error': p.stderr[-2000:]}


def cmd_check(args):
    start = time.monotonic()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = args.tier or os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    scenario = load_scenario(args.property)
    print('seed={} property={} tier={}'.format(seed, scenario.prop, tier), flush=True)
    scenario.prepare()
    prepared = time.monotonic()
    runs = args.runs or (scenario.quick_runs if tier == 'quick' else scenario.thorough_runs)
    wall = args.wall or (540 if tier == 'quick' else 6 * 3600)
    total = core.run_batch(scenario, seed, runs, workers=args.workers, wall=wall)
    search_s = time.monotonic() - prepared

    findings = core.known_findings(scenario.prop)
    known_seen = {}
    new = []
    for key, violation, trace in total['violations']:
        if violation['signature'] in findings:
            known_seen.setdefault(violation['signature'], key)
        else:
            new.append((key, violation, trace))

    reported = []
    done = set()
    for key, violation, trace in new:
        if violation['signature'] in done:
            continue
        done.add(violation['signature'])
        if len(done) > 3:
            break
        size = len(json.dumps(trace))
        small, tried = core.minimise(scenario, trace, violation['signature'], budget_s=40)
        final, _, _ = core.execute(scenario, small)
        if final is None:
            small, final = trace, violation
        path = core.write_replay(scenario, seed, key, final, small, size)
        fresh = replay_fresh(path)
        reproduced = fresh.get('signature') == final['signature']
        if not reproduced:
            # Fall back to the original trace
            path = core.write_replay(scenario, seed, key, violation, trace, size)
            fresh = replay_fresh(path)
            reproduced = fresh.get('signature') == violation['signature']
        reported.append({'signature': violation['signature'], 'detail': final['detail'], 'run': key, 'replay': path, 'reproduced_in_fresh_process': reproduced,
                         'minimisation_runs': tried, 'trace_size': size, 'minimised_size': len(json.dumps(small))})

    wall_s = time.monotonic() - start
    evidence = {
        'property': scenario.prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': total['runs'],
            'distinct_nontrivial': len(total['nontrivial']),
            'rule': scenario.rule,
            'samples': total['samples'][:2],
            'runs_skipped_for_time': total['skipped'],
            'simulated_runs_per_hour': round(total['runs'] / max(search_s, 0.001) * 3600),
            'seeds_per_hour': round(total['runs'] / max(search_s, 0.001) * 3600),
            'simulated_seconds': round(total['sim_seconds'], 3),
            'simulated_steps': total['steps'],
            'faults_fired': dict(sorted(total['faults'].items())),
            'probes': dict(sorted(total['probes'].items())),
            'distinct_states': len(total['states']),
            'distinct_states_measure': scenario.measure,
            'real_components': scenario.real,
            'stubbed_components': scenario.stubbed,
            'known_findings_observed': sorted(known_seen),
            'violations_reported': reported,
            'workers': args.workers,
        },
        'assumptions': scenario.assumptions,
        'wall_s': round(wall_s, 2),
        'violations': len(reported),
    }
    os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(core.VERIF, 'evidence', '{}.json'.format(scenario.prop)), 'w') as f:
        json.dump(evidence, f, indent=1)
    print('runs={} nontrivial={} states={} faults={} sim_s={:.0f} wall={:.1f}s (search {:.1f}s)'.format(
        total['runs'], len(total['nontrivial']), len(total['states']), json.dumps(evidence['coverage']['faults_fired']), total['sim_seconds'], wall_s, search_s))
    print('probes={}'.format(json.dumps(evidence['coverage']['probes'])))
    for signature in sorted(known_seen):
        print('KNOWN-FINDING: property={} {} [{}]'.format(scenario.prop, findings[signature], signature))
    for r in reported:
        print('  {} (run {}): {}'.format(r['signature'], r['run'], r['detail'][:400]))
        print('VIOLATION property={} replay={}'.format(scenario.prop, r['replay']))
    for key, error in total['errors'][:3]:
        print('HARNESS-ERROR in run {}:\n{}'.format(key, error[-3000:]), file=sys.stderr)
    if reported:
        return 1
    if total['errors']:
        return 2
    if total['skipped']:
        print('INCOMPLETE: {} runs were not executed for lack of time'.format(total['skipped']), file=sys.stderr)
        if total['runs'] < runs / 4:
            return 2
    return 0


def cmd_replay(args):
    with open(args.file) as f:
        replay = json.load(f)
    scenario = load_scenario(replay['property'])
    scenario.prepare()
    violation, ctx, error = core.execute(scenario, replay['trace'])
    if args.verbose:
        for line in ctx.tail:
            print('  ' + line)
    print('REPLAY ' + json.dumps({'signature': violation['signature'] if violation else None, 'digest': ctx.digest(), 'error': error}))
    if violation:
        print('{}: {}'.format(violation['signature'], violation['detail']))
        print('VIOLATION property={} replay={}'.format(scenario.prop, args.file))
        return 1
    if error:
        print(error, file=sys.stderr)
        return 2
    return 0


def cmd_digests(args):
    scenario = load_scenario(args.property)
    scenario.prepare()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    total = core.run_batch(scenario, seed, args.runs or 64, workers=args.workers, directed=False)
    print('DIGESTS ' + json.dumps({str(k): v for k, v in sorted(total['digests'].items(), key=lambda kv: str(kv[0]))}))
    return 2 if total['errors'] else 0


def main():
    parser = argparse.ArgumentParser()
    sub = parser.add_subparsers(dest='cmd', required=True)
    p = sub.add_parser('check')
    p.add_argument('property')
    p.add_argument('--tier')
    p.add_argument('--runs', type=int)
    p.add_argument('--workers', type=int, default=8)
    p.add_argument('--wall', type=float)
    p.set_defaults(f=cmd_check)
    p = sub.add_parser('replay')
    p.add_argument('file')
    p.add_argument('--verbose', action='store_true')
    p.set_defaults(f=cmd_replay)
    p = sub.add_parser('digests')
    p.add_argument('property')
    p.add_argument('--runs', type=int)
    p.add_argument('--workers', type=int, default=8)
    p.set_defaults(f=cmd_digests)
    args = parser.parse_args()
    sys.exit(args.f(args))


if __name__ == '__main__':
    main()
