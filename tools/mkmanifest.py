"""Writes MANIFEST.json. Claimed: every property with a world."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'deterministic simulation with fault injection: '
NOTES = {
    'C01': ('seeded fault sequences on a simulated disk and HTTP network, results compared with the delivered bytes',
            'Seeded search, no proof. Real json, io and requests stacks above a fault-injecting file object and HTTP adapter; trusts the bytes-to-document oracle (Python json on UTF-8).'),
    'C02': ('seeded write faults on a simulated disk, disk contents compared with the document',
            'Seeded search, no proof. Real io stack above a fault-injecting file object; durability is judged at what reached the file object, not fsync.'),
    'C03': ('seeded histories and thread schedules of registrations and loads against a reference model',
            'Seeded search over histories and line-level thread interleavings; sources are in-memory recorders.'),
    'C04': ('seeded failures (sources, keywords, allocation, stack, interrupts) during construction; caches compared before and after, retries compared with an undisturbed twin',
            'Seeded search, no proof. Cache contents are observed by looking up every URI the documents define, with sources switched off.'),
    'C05': ('seeded line-level thread schedules; histories checked against a reference evaluator and for identity, progress and linearizability',
            'Seeded search over interleavings (switches possible at each line, jump, call and return of jschon code), not exhaustive.'),
    'C06': ('seeded histories, nested cache contexts, failing blocks and thread schedules against a reference model of caches and catalogs',
            'Seeded search, no proof.'),
    'C07': ('seeded load histories with transient source failures; verdicts compared with an independent reference evaluator',
            'Seeded search, no proof. Trusts sim/refeval.py, which was cross-checked against python-jsonschema.'),
    'C08': ('seeded line-level thread schedules of evaluations; all outputs compared with separately built twins',
            'Seeded search over interleavings, not exhaustive.'),
    'C09': ('exceptions injected at seeded points of evaluations, nested evaluations; all outputs compared with separately built twins',
            'Seeded search, no proof. Exceptions strike at line boundaries of jschon code, allocations, or inside callbacks.'),
    'C10': ('seeded edit histories with failing edits by several clients against a plain-value reference model',
            'Seeded search, no proof.'),
    'C11': ('seeded patch histories with failures, interrupts and thread schedules against an RFC 6902 reference model',
            'Seeded search, no proof.'),
    'C12': ('seeded histories of creating, using and retrying valid and invalid metaschemas with failing sources against a reference model',
            'Seeded search, no proof.'),
    'C13': ('seeded catalog events (deletions, replacements, source removal and failure, expiring caches) between and during evaluations of constructed schemas',
            'Seeded search, no proof.'),
    'C14': ('seeded lookup, deletion and content-change histories and thread schedules; fetches counted and identities compared with a reference model',
            'Seeded search, no proof.'),
    'C15': ('seeded line-level thread schedules, aborted reads (interrupts, allocation, stack) and edits; every read compared with a plain-value reference model',
            'Seeded search over interleavings and points of interruption, not exhaustive.'),
}
NA = {
    'N01': 'Pure function of its arguments: no time, I/O, concurrency, fault or history for it to depend on, so a simulator has nothing to schedule or inject.',
    'N02': 'Pure function of a finished result tree: no nondeterminism, fault or history involved.',
    'N03': 'Pure function of two values: no nondeterminism, fault or history involved.',
    'N04': 'Pure function of strings (and delegated to the rfc3986 package): no nondeterminism, fault or history involved.',
}
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if pid in NA:
        na.append({'property': pid, 'reason': NA[pid]})
    elif os.path.exists(os.path.join(ROOT, 'sim', 'worlds', pid.lower() + '.py')):
        t, n = NOTES[pid]
        checks.append({'property': pid, 'quick_cmd': f'./check {pid} --tier quick', 'thorough_cmd': f'./check {pid} --tier thorough',
                       'evidence_file': f'evidence/{pid}.json', 'technique': TECH + t, 'level': 'exploration', 'level_note': n})
    else:
        na.append({'property': pid, 'reason': 'Its world is not built yet.'})
m = {'version': 1, 'setup_cmd': './check --selftest', 'checks': checks, 'not_applicable': na,
     'notes': 'Nothing is compiled: the checks import jschon from /repo. No hooks in /repo: every seam used (builtins.open, requests HTTPAdapter.send, locks, os.urandom, clocks, sys.monitoring) exists in Python. VIOLATION replays: ./check --replay FILE.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
