"""Executes plans, in forked children; searches over seeds; minimises."""
import gc
import json
import os
import select
import signal
import sys
import time
import traceback
from collections import Counter

from sim import boot, seams
from sim.kernel import Ctx, HarnessError, Skip, Violation, derive, jhash

now = seams.real_time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH_BASE = '/dev/shm' if os.access('/dev/shm', os.W_OK) else '/tmp'
CHILD_WALL = 40.0
STEP_BUDGET = 4_000_000
MEM_LIMIT = 3 << 30


def touches_jschon(e):
    """Does the traceback of `e` (or of what caused it) pass through jschon?"""
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        tb = e.__traceback__
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(boot.PREFIX):
                return True
            tb = tb.tb_next
        e = e.__cause__ or e.__context__
    return False


def short_tb(e):
    out = []
    for f in traceback.extract_tb(e.__traceback__)[-6:]:
        out.append(f'{os.path.basename(f.filename)}:{f.lineno}:{f.name}')
    return ' < '.join(reversed(out))


def execute(world, plan, monitored=False):
    """Run `plan` in this process. Returns the result dict."""
    ctx = Ctx(plan)
    out = {'status': 'ok'}
    scratch = None
    try:
        if monitored:
            start_step_budget()
        if getattr(world, 'SCRATCH', False):
            scratch = os.path.join(SCRATCH_BASE, f'sim-{os.getpid()}')
            os.mkdir(scratch)
        ctx.scratch = scratch
        world.run(plan, ctx)
    except Violation as e:
        out = {'status': 'violation', 'cls': e.cls, 'msg': e.msg, 'detail': e.detail}
    except Skip as e:
        out = {'status': 'skip', 'msg': str(e)}
    except HarnessError as e:
        out = {'status': 'error', 'msg': f'{e} [{short_tb(e)}]'}
    except BaseException as e:
        if touches_jschon(e) or isinstance(e, (TypeError, AttributeError, LookupError, ValueError)):
            # (or what the code under test returned is nothing that the checks can handle)
            out = {'status': 'violation', 'cls': 'unexpected-exception' if touches_jschon(e) else 'unusable-result',
                   'msg': f'{type(e).__name__}: {str(e)[:300]} [{short_tb(e)}]', 'detail': {}}
        else:
            out = {'status': 'error', 'msg': f'{type(e).__name__}: {str(e)[:300]} [{short_tb(e)}]'}
    seams.env = None
    if scratch:
        for root, dirs, files in os.walk(scratch, topdown=False):
            for f in files:
                os.unlink(os.path.join(root, f))
            for d in dirs:
                os.rmdir(os.path.join(root, d))
        os.rmdir(scratch)
    out.update(ctx.result())
    if out['status'] == 'violation':
        out['log'] = ctx.log[-400:]
        out['schedule'] = ctx.schedule
    return out


def start_step_budget():
    """Count lines executed in jschon; a run that exceeds the budget hangs."""
    mon = sys.monitoring
    mon.use_tool_id(4, 'budget')
    n = 0

    def on_line(code, line):
        nonlocal n
        if not code.co_filename.startswith(boot.PREFIX):
            return mon.DISABLE
        n += 1
        if n > STEP_BUDGET:
            n = 0
            raise Violation('no-progress', f'more than {STEP_BUDGET} lines of jschon code executed without an end')

    mon.register_callback(4, mon.events.LINE, on_line)
    mon.set_events(4, mon.events.LINE)


def _child(world, plan, wfd, monitored):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        sys.stdout.flush()
        out = execute(world, plan, monitored)
        data = json.dumps(out, default=str).encode('utf-8', 'surrogatepass')
    except BaseException as e:
        data = json.dumps({'status': 'error', 'msg': f'child: {type(e).__name__}: {e}'}).encode()
    try:
        while data:
            n = os.write(wfd, data)
            data = data[n:]
    finally:
        os._exit(0)


def fork_run(world, plan, monitored=False, wall=CHILD_WALL):
    """Run `plan` in a forked child."""
    plan = json.loads(json.dumps(plan))
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        _child(world, plan, wfd, monitored)
    os.close(wfd)
    chunks = []
    deadline = now() + wall
    timed_out = False
    while True:
        left = deadline - now()
        if left <= 0:
            timed_out = True
            break
        r, _, _ = select.select([rfd], [], [], left)
        if not r:
            continue
        data = os.read(rfd, 1 << 16)
        if not data:
            break
        chunks.append(data)
    os.close(rfd)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    scratch = os.path.join(SCRATCH_BASE, f'sim-{pid}')
    if os.path.isdir(scratch):
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)
    if timed_out:
        if not monitored:
            return fork_run(world, plan, monitored=True, wall=4 * wall)
        return {'status': 'error', 'msg': f'no result within {wall} s'}
    if not chunks:
        return {'status': 'error', 'msg': f'child ended with status {status}'}
    return json.loads(b''.join(chunks))


# -- search

def run_seed(world, seed, index, tier):
    rng = derive(seed, world.PID, index)
    return world.gen(rng, tier)


def _worker(world, seed, tier, w, nworkers, nruns, deadline, wfd):
    f = os.fdopen(wfd, 'wb')
    for i in range(w, nruns, nworkers):
        if now() > deadline:
            break
        try:
            plan = run_seed(world, seed, i, tier)
        except BaseException as e:
            out = {'status': 'error', 'msg': f'gen: {type(e).__name__}: {e} [{short_tb(e)}]'}
        else:
            out = fork_run(world, plan)
        out['i'] = i
        f.write(json.dumps(out, default=str).encode('utf-8', 'surrogatepass') + b'\n')
        f.flush()
        if out['status'] == 'violation' or out['status'] == 'error':
            break
    f.close()
    os._exit(0)


def search(world, seed, tier, nruns, wall, nworkers=8, on_result=None):
    """Run plans 0..nruns-1 of `seed`; stop early at a violation.
    Returns (stats, first bad result or None)."""
    gc.collect()
    gc.freeze()
    gc.disable()
    start = now()
    deadline = start + wall
    pipes = {}
    for w in range(nworkers):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            for fd in pipes:
                os.close(fd)
            os.close(rfd)
            try:
                _worker(world, seed, tier, w, nworkers, nruns, deadline, wfd)
            finally:
                os._exit(1)
        os.close(wfd)
        pipes[rfd] = [pid, b'']
    stats = {'runs': 0, 'faults': Counter(), 'probes': Counter(), 'sigs': set(), 'nontrivial_sigs': set(),
             'nontrivial': 0, 'now': 0.0, 'steps': 0, 'switches': 0, 'skips': 0, 'checks': 0, 'log': {}}
    bad = []
    pids = [p[0] for p in pipes.values()]
    stopping = False
    while pipes:
        ready, _, _ = select.select(list(pipes), [], [], 5)
        for fd in ready:
            data = os.read(fd, 1 << 16)
            if not data:
                os.close(fd)
                del pipes[fd]
                continue
            buf = pipes[fd][1] + data
            *lines, rest = buf.split(b'\n')
            pipes[fd][1] = rest
            for line in lines:
                out = json.loads(line)
                if on_result:
                    on_result(out)
                if out['status'] in ('violation', 'error'):
                    bad.append(out)
                if out['status'] != 'error':
                    account(stats, out)
        if bad and not stopping:
            # let the others get as far as the bad run, for the first one to be reported
            stopping = now() + 20
        if stopping and now() > stopping:
            for p in pids:
                try:
                    os.kill(p, signal.SIGTERM)
                except ProcessLookupError:
                    pass
            stopping = now() + 1e9
    for p in pids:
        _, status = os.waitpid(p, 0)
        if status != 0 and not stopping:
            bad.append({'status': 'error', 'i': -1, 'msg': f'worker ended with status {status}'})
    stats['wall'] = now() - start
    bad.sort(key=lambda o: (o['status'] != 'violation', o['i']))
    return stats, (bad[0] if bad else None)


def account(stats, out):
    stats['runs'] += 1
    if out['status'] == 'skip':
        stats['skips'] += 1
        return
    stats['faults'].update(out['faults'])
    stats['probes'].update(out['probes'])
    stats['sigs'].add(out['sig'])
    if out['nontrivial']:
        stats['nontrivial'] += 1
        stats['nontrivial_sigs'].add(out['sig'])
    for k in ('now', 'steps', 'switches', 'checks'):
        stats[k] += out[k]
    stats['log'][out['i']] = out['log_hash']


# -- minimisation

def minimise(world, plan, out, budget=60.0, max_runs=1500):
    """Shrink `plan` as long as it violates the property in the same way."""
    cls = out['cls']
    deadline = now() + budget
    runs = 0

    def fails(p):
        nonlocal runs
        runs += 1
        o = fork_run(world, p)
        return o if o['status'] == 'violation' and o['cls'] == cls else None

    best, best_out = plan, out
    if out.get('schedule') is not None and 'sched' in plan:
        p = dict(plan, sched={'decisions': out['schedule']})
        o = fails(p)
        if o:
            best, best_out = p, o
    progress = True
    while progress and now() < deadline and runs < max_runs:
        progress = False
        for cand in world_shrinks(world, best):
            if now() >= deadline or runs >= max_runs:
                break
            o = fails(cand)
            if o:
                best, best_out = cand, o
                progress = True
                break
    return best, best_out, runs


def world_shrinks(world, plan):
    """Candidates simpler than `plan`, boldest first."""
    sched = plan.get('sched')
    if isinstance(sched, dict) and 'decisions' in sched:
        for d in list_shrinks(sched['decisions']):
            yield dict(plan, sched={'decisions': d})
    yield from world.shrink(plan)


def list_shrinks(xs):
    n = len(xs)
    size = n
    while size >= 1:
        for start in range(0, n, size):
            yield xs[:start] + xs[start + size:]
        size //= 2


def size_of(obj):
    return len(json.dumps(obj))


def json_shrinks(v, strings=True):
    """Simpler JSON values."""
    if isinstance(v, dict):
        for k in list(v):
            yield {kk: vv for kk, vv in v.items() if kk != k}
        for k in list(v):
            for s in json_shrinks(v[k], strings):
                yield {**v, k: s}
    elif isinstance(v, list):
        for i in range(len(v)):
            yield v[:i] + v[i + 1:]
        for i in range(len(v)):
            for s in json_shrinks(v[i], strings):
                yield v[:i] + [s] + v[i + 1:]
    elif isinstance(v, str):
        if strings and len(v) > 1:
            yield v[:1]
    elif isinstance(v, (int, float)) and not isinstance(v, bool):
        if v not in (0, 1):
            yield 0
            yield 1
