import argparse
import importlib
import json
import os
import sys

from sim import boot, runner, seams
from sim.kernel import jhash

VERIF = runner.VERIF


def load_world(pid):
    return importlib.import_module(f'sim.worlds.{pid.lower()}')


def say(*a):
    print(*a, flush=True)


def write_replay(pid, seed, index, plan, out, extra):
    d = os.path.join(VERIF, 'out', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{pid}-s{seed}-{index}.json')
    with seams.real_open(path, 'w') as f:
        json.dump({'property': pid, 'seed': seed, 'index': index, 'violation': out.get('cls'),
                   'message': out.get('msg'), 'log_hash': out.get('log_hash'), 'plan': plan,
                   'log': out.get('log'), **extra}, f, indent=1)
        f.write('\n')
    return path


def known_findings(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with seams.real_open(path) as f:
        return [e for e in json.load(f).get('findings', []) if e['property'] == pid]


def replay_fresh(path):
    """Replay in a fresh process, under another hash seed."""
    import subprocess
    env = dict(os.environ, PYTHONHASHSEED='4711')
    p = subprocess.run([os.path.join(VERIF, 'check'), '--replay', path, '--quiet'], env=env,
                       capture_output=True, text=True, timeout=300)
    return p.returncode, p.stdout


def do_replay(args):
    with seams.real_open(args.replay) as f:
        rec = json.load(f)
    world = load_world(rec['property'])
    try:
        boot.boot(world.DRAFTS)
    except boot.BootFailure as e:
        say(f'VIOLATION property={rec["property"]} replay={args.replay}')
        say(f'  {e}')
        return 1
    if rec.get('violation') == 'boot':
        say('jschon comes up')
        return 0
    out = runner.fork_run(world, rec['plan'])
    if out['status'] == 'violation':
        say(f'VIOLATION property={rec["property"]} replay={args.replay}')
        say(f'  {out["cls"]}: {out["msg"]}')
        say(f'  log hash {out["log_hash"]}'
            + (' (as recorded)' if out['log_hash'] == rec.get('log_hash') else ' (recorded: %s)' % rec.get('log_hash')))
        if not args.quiet:
            for line in out.get('log', []):
                say('   |', line)
        return 1
    say(f'{out["status"]}: {out.get("msg", "no violation")}')
    return 0 if out['status'] in ('ok', 'skip') else 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--wall', type=float)
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--replay')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--quiet', action='store_true')
    ap.add_argument('--logs', help='write the log hash of every run to this file')
    ap.add_argument('--one', type=int, help='run only this index and print its log')
    ap.add_argument('--no-minimise', action='store_true')
    args = ap.parse_args()
    if args.replay:
        return do_replay(args)
    if args.selftest:
        # the tools the checks need are there
        import glob
        for path in sorted(glob.glob(os.path.join(VERIF, 'sim', 'worlds', 'c*.py'))):
            load_world(os.path.basename(path)[:-3])
        for d in ('2019-09', '2020-12', 'next'):
            assert os.path.exists(os.path.join(seams.VENDOR, f'json-schema-{d}', 'schema.json')), d
        say('selftest ok')
        return 0
    world = load_world(args.property)
    pid = world.PID
    tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
    say(f'{pid}: seed {args.seed}, tier {tier}')
    try:
        boot.boot(world.DRAFTS)
    except boot.BootFailure as e:
        path = write_replay(pid, args.seed, 'boot', {}, {'cls': 'boot', 'msg': str(e)}, {})
        say(f'VIOLATION property={pid} replay={path}')
        say(f'  {e}')
        write_evidence(world, args, tier, None, 1, 0.0, [])
        return 1
    if args.one is not None:
        plan = runner.run_seed(world, args.seed, args.one, tier)
        say(json.dumps(plan, indent=1))
        import gc
        gc.disable()
        ctxlog = []
        out = runner.execute(_Logged(world, ctxlog), json.loads(json.dumps(plan)))
        for line in ctxlog:
            say('   |', line)
        say(json.dumps({k: v for k, v in out.items() if k != 'log'}, indent=1, default=str))
        return 0

    nruns = args.runs or world.RUNS[tier]
    wall = args.wall or {'quick': 420.0, 'thorough': 820.0}[tier]
    known = []
    for finding in known_findings(pid):
        out = runner.fork_run(world, finding['plan'])
        if out['status'] == 'violation' and out['cls'] == finding['violation']:
            say(f'KNOWN-FINDING: property={pid} {finding["what"]}')
            known.append(finding['what'])
    stats, bad = runner.search(world, args.seed, tier, nruns, wall, args.workers)
    if args.logs:
        with seams.real_open(args.logs, 'w') as f:
            for i in sorted(stats['log']):
                f.write(f'{i} {stats["log"][i]}\n')
    samples = [runner.run_seed(world, args.seed, i, tier) for i in range(2)]
    if bad is None:
        write_evidence(world, args, tier, stats, 0, stats['wall'], samples)
        say(f'{pid}: {stats["runs"]} runs in {stats["wall"]:.1f} s, {len(stats["nontrivial_sigs"])} distinct '
            f'non-trivial, {sum(stats["faults"].values())} faults, no violation')
        return 0
    if bad['status'] == 'error':
        say(f'HARNESS ERROR in run {bad["i"]}: {bad["msg"]}')
        return 2
    index = bad['i']
    plan = json.loads(json.dumps(runner.run_seed(world, args.seed, index, tier)))
    say(f'{pid}: run {index} violates: {bad["cls"]}: {bad["msg"]}')
    if args.no_minimise:
        best, out, n = plan, bad, 0
    else:
        best, out, n = runner.minimise(world, plan, bad)
    path = write_replay(pid, args.seed, index, best, out, {'minimised_by_runs': n, 'original_plan': plan})
    try:
        code, text = replay_fresh(path)
    except Exception as e:
        code, text = 2, str(e)
    if code != 1:
        # fall back to the plan as it was found
        path = write_replay(pid, args.seed, index, plan, bad, {'minimised_by_runs': 0})
        code, text = replay_fresh(path)
    write_evidence(world, args, tier, stats, 1, stats['wall'], samples)
    say(f'  minimised in {n} runs: {out["cls"]}: {out["msg"]}')
    say(f'  replayed in a fresh process: ' + ('reproduced exactly' if 'as recorded' in text else
                                            'reproduced' if code == 1 else 'NOT reproduced'))
    say(f'VIOLATION property={pid} replay={path}')
    return 1


class _Logged:
    """Proxy world that keeps the log of a run."""

    def __init__(self, world, log):
        self.world = world
        self.log = log
        self.SCRATCH = getattr(world, 'SCRATCH', False)

    def run(self, plan, ctx):
        ctx.log = self.log
        return self.world.run(plan, ctx)


def write_evidence(world, args, tier, stats, violations, wall, samples):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    s = stats
    cov = {
        'evaluations': s['runs'] if s else 0,
        'distinct_nontrivial': len(s['nontrivial_sigs']) if s else 0,
        'rule': world.RULE,
        'samples': [clip(x) for x in samples],
    }
    if s:
        cov.update({
            'simulated_runs': s['runs'],
            'runs_and_seeds_per_hour': round(s['runs'] / max(s['wall'], 1e-9) * 3600),
            'simulated_seconds_covered': round(s['now'], 3),
            'fault_kinds_injected': dict(sorted(s['faults'].items())),
            'probes': dict(sorted(s['probes'].items())),
            'oracle_checks': s['checks'],
            'scheduler_points': s['steps'],
            'context_switches': s['switches'],
            'distinct_executions': len(s['sigs']),
            'nontrivial_runs': s['nontrivial'],
            'distinctness_measure': world.MEASURE,
            'batch_digest': jhash(sorted(s['log'].items())),
        })
    cov['real_components'] = world.REAL
    cov['stubbed_components'] = world.STUB
    with seams.real_open(os.path.join(d, f'{world.PID}.json'), 'w') as f:
        json.dump({
            'property': world.PID, 'tier': tier, 'seed': args.seed, 'level': 'exploration',
            'coverage': cov,
            'assumptions': world.ASSUMPTIONS,
            'wall_s': round(wall, 2),
            'violations': violations,
        }, f, indent=1)
        f.write('\n')


def clip(x, limit=4000):
    t = json.dumps(x)
    return x if len(t) <= limit else t[:limit] + '...'


if __name__ == '__main__':
    sys.exit(main())
