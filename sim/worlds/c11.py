"""C11: JSON Patch is all-or-nothing and shares nothing."""
import copy
import json

from sim import boot, seams
from sim.inject import Injector
from sim.kernel import Violation
from sim.runner import json_shrinks, list_shrinks
from sim.sched import Scheduler, gen_sched
from sim.values import KEYS, brief, gen_value, jeq, same

PID = 'C11'
DRAFTS = ()
RUNS = {'quick': 30000, 'thorough': 250000}
RULE = ('A case is a JSON document, a patch of 1-8 operations built and edited in various ways, and a history of '
        'applications of it: undisturbed, interrupted at a line, out of memory at a construction, by 2-3 scheduled '
        'threads, and interleaved with scribbling over earlier results. Non-trivial: an application succeeded with '
        'two or more operations, or failed after at least one operation had been applied, or was cut short.')
MEASURE = 'hash of the thread switches and of the sequence of (kind of application, operations, outcome)'
REAL = ['jschon.jsonpatch', 'jschon.jsonpointer', 'jschon.json (comparison)']
STUB = ['thread scheduler', 'allocator (MemoryError at the nth construction)', 'signals (KeyboardInterrupt at the nth line)']
ASSUMPTIONS = ['Only patches whose operations are well-formed are applied; removing the whole document is left out, its '
               'result being undefined in RFC 6902.']


class Fails(Exception):
    pass


# -- the reference: RFC 6902 over immutable snapshots

def tokens(p):
    return [t.replace('~1', '/').replace('~0', '~') for t in p.split('/')[1:]]


def index(t, n):
    """A valid index 0..n, or Fails."""
    if t == '0' or t.isascii() and t.isdigit() and t[0] != '0':
        if int(t) <= n:
            return int(t)
    raise Fails


def get(doc, toks):
    for t in toks:
        if isinstance(doc, dict) and t in doc:
            doc = doc[t]
        elif isinstance(doc, list):
            i = index(t, len(doc))
            if i == len(doc):
                raise Fails
            doc = doc[i]
        else:
            raise Fails
    return doc


def edit(doc, toks, f):
    """A copy of doc in which f has been done to (a copy of) the container at toks."""
    if not toks:
        new = copy.copy(doc)
        f(new)
        return new
    sub = edit(get(doc, toks[:1]), toks[1:], f)
    new = copy.copy(doc)
    new[toks[0] if isinstance(doc, dict) else int(toks[0])] = sub
    return new


def r_add(doc, toks, v):
    if not toks:
        return v
    last = toks[-1]
    p = get(doc, toks[:-1])
    if isinstance(p, list):
        i = len(p) if last == '-' else index(last, len(p))
        return edit(doc, toks[:-1], lambda c: c.insert(i, v))
    if isinstance(p, dict):
        return edit(doc, toks[:-1], lambda c: c.__setitem__(last, v))
    raise Fails


def r_remove(doc, toks):
    get(doc, toks)
    if not toks:
        return None
    return edit(doc, toks[:-1], lambda c: c.__delitem__(toks[-1] if isinstance(c, dict) else int(toks[-1])))


def r_apply(doc, op):
    toks = tokens(op['path'])
    name = op['op']
    if name == 'add':
        return r_add(doc, toks, op['value'])
    if name == 'remove':
        return r_remove(doc, toks)
    if name == 'replace':
        get(doc, toks)
        if not toks:
            return op['value']
        return edit(doc, toks[:-1],
                    lambda c: c.__setitem__(toks[-1] if isinstance(c, dict) else int(toks[-1]), op['value']))
    if name == 'test':
        if not jeq(get(doc, toks), op['value']):
            raise Fails
        return doc
    src = tokens(op['from'])
    v = get(doc, src)
    if name == 'move':
        if len(src) < len(toks) and toks[:len(src)] == src:
            raise Fails
        doc = r_remove(doc, src)
    return r_add(doc, toks, v)


def reference(doc, ops):
    """('ok', document) or ('fails', number of operations that succeeded)"""
    for i, op in enumerate(ops):
        try:
            doc = r_apply(doc, op)
        except Fails:
            return 'fails', i
    return 'ok', doc


# -- generation

def escape(k):
    return str(k).replace('~', '~0').replace('/', '~1')


def places(doc, path=''):
    yield path
    if isinstance(doc, list):
        for i, v in enumerate(doc):
            yield from places(v, f'{path}/{i}')
    elif isinstance(doc, dict):
        for k, v in doc.items():
            yield from places(v, f'{path}/{escape(k)}')


def gen_place(rng, doc, new):
    """A pointer, mostly to an existing place (or for `new`, to where one can be added)."""
    all_ = list(places(doc))
    p = rng.choice(all_)
    k = rng.random()
    if new and k < 0.75:
        conts = [q for q in all_ if isinstance(get(doc, tokens(q)), (list, dict))]
        if conts:
            q = rng.choice(conts)
            c = get(doc, tokens(q))
            if isinstance(c, list):
                return f'{q}/{rng.choice(["-", str(len(c)), str(rng.randrange(len(c) + 1))])}'
            return f'{q}/{escape(rng.choice(KEYS))}'
    if k < 0.9:
        return p
    return p + '/' + rng.choice(['-', '01', '+0', '1_0', '-1', ' 0', '99', '', 'zz', '0', '0/a'])


def gen_op(rng, doc):
    name = rng.choice(['add', 'add', 'remove', 'replace', 'move', 'move', 'copy', 'copy', 'test'])
    op = {'op': name, 'path': gen_place(rng, doc, name in ('add', 'move', 'copy'))}
    if name == 'remove' and op['path'] == '':
        op['path'] = '/a'
    if name in ('add', 'replace'):
        op['value'] = gen_value(rng, 2, 3)
    if name == 'test':
        op['value'] = gen_value(rng, 2, 3)
        if rng.random() < 0.85:
            try:
                op['value'] = get(doc, tokens(op['path']))
            except Fails:
                pass
            if rng.random() < 0.1 and isinstance(op['value'], (bool, int)):
                op['value'] = {True: 1, False: 0}.get(op['value']) if isinstance(op['value'], bool) else float(op['value'])
    if name in ('move', 'copy'):
        op['from'] = gen_place(rng, doc, False)
    return op


def gen(rng, tier):
    doc = gen_value(rng, rng.choice([1, 2, 3, 4]), 4)
    if not isinstance(doc, (list, dict)) and rng.random() < 0.9:
        doc = {'a': doc, 'b': [gen_value(rng, 2, 3), {'a': gen_value(rng, 2, 3)}]}
    ops = []
    cur = doc
    for _ in range(rng.choice([1, 2, 2, 3, 5, 8])):
        op = gen_op(rng, cur)
        try:
            new = r_apply(cur, op)
        except Fails:
            if rng.random() < 0.7:
                continue       # mostly patches that get far
            new = cur
        cur = new
        ops.append(op)
    plan = {'doc': doc, 'ops': ops or [gen_op(rng, doc)],
            'build': rng.choice(['dicts', 'operations', 'append', 'slice', 'setitem', 'roundtrip', 'pointers']),
            'acts': []}
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        k = rng.random()
        if k < 0.45:
            plan['acts'].append({'act': 'apply', 'scribble': rng.random() < 0.7})
        elif k < 0.65:
            plan['acts'].append({'act': 'interrupt', 'at': rng.randrange(1, rng.choice([20, 100, 400]))})
        elif k < 0.8:
            plan['acts'].append({'act': 'nomem', 'at': rng.randrange(1, 12)})
        elif k < 0.92:
            plan['acts'].append({'act': 'chain'})
        else:
            plan['acts'].append({'act': 'threads', 'n': rng.choice([2, 2, 3])})
            plan['sched'] = gen_sched(rng, 3, 400)
    return plan


def containers(v):
    stack = [v]
    while stack:
        v = stack.pop()
        if isinstance(v, (list, dict)):
            yield v
            stack += v if isinstance(v, list) else v.values()


def scribble(v):
    """Change every mutable part of v."""
    for c in list(containers(v)):
        if isinstance(c, list):
            c.append('scribble')
            c.insert(0, 'scribble')
        else:
            for k in list(c):
                c[k] = 'scribble' if not isinstance(c[k], (list, dict)) else c[k]
            c['scribble'] = 'scribble'


def run(plan, ctx):
    from jschon import JSONPatch, JSONPatchOperation, JSONPointer
    from jschon.exc import JSONPatchError
    seams.env = seams.Environment(ctx)
    fresh = lambda v: json.loads(json.dumps(v))
    ops = plan['ops']
    raw = fresh(ops)
    build = plan['build']
    if build == 'dicts':
        patch = JSONPatch(*raw)
    elif build == 'operations':
        patch = JSONPatch(*[JSONPatchOperation(**op) for op in raw])
    elif build == 'pointers':
        patch = JSONPatch(*[JSONPatchOperation(
            op=op['op'], path=JSONPointer(op['path']), value=op.get('value'),
            from_=JSONPointer(op['from']) if 'from' in op else None) for op in raw])
    elif build == 'append':
        patch = JSONPatch()
        for op in raw:
            patch.append(op)
    elif build == 'slice':
        patch = JSONPatch(*raw, {'op': 'remove', 'path': '/nowhere'})[:len(raw)]
    elif build == 'setitem':
        patch = JSONPatch(*[{'op': 'remove', 'path': '/nowhere'} for _ in raw], {'op': 'test', 'path': '', 'value': object})
        for i, op in enumerate(raw):
            patch[i] = op
        del patch[-1]
    else:
        patch = JSONPatch(*fresh(JSONPatch(*raw).aslist()))
    doc = fresh(plan['doc'])
    status, expect = reference(fresh(plan['doc']), ops)

    def unchanged(when):
        ctx.check(same(doc, plan['doc']), 'document-changed',
                  lambda: f'{when}: the input document has become {brief(doc)}')
        now = patch.aslist()
        ctx.check(len(now) == len(ops) and all(same(a, {k: b[k] for k in a}) and a.keys() == b.keys()
                                               for a, b in zip(now, ops)), 'patch-changed',
                  lambda: f'{when}: the patch has become {brief(now)}')

    def judge(outcome, what):
        kind, value = outcome
        if status == 'fails':
            ctx.check(kind == 'JSONPatchError', 'wrong-outcome',
                      lambda: f'{what}: operation {expect} must fail, but got {kind} {brief(value)}')
            return
        ctx.check(kind == 'ok', 'spurious-failure', lambda: f'{what}: failed with {kind}: {value}')
        ctx.check(same(value, expect), 'wrong-result', lambda: f'{what}: gives {brief(value)}, should be {brief(expect)}')

    def apply(d):
        try:
            return 'ok', patch.evaluate(d)
        except JSONPatchError as e:
            return 'JSONPatchError', str(e)
        except Exception as e:
            return type(e).__name__, str(e)

    kept = []          # earlier results, and what they must look like

    def shares_nothing(result, what):
        """Judged by effect: scribble over it, and look at everything else."""
        ids = [id(c) for c in containers(result)]
        ctx.check(len(ids) == len(set(ids)), 'aliased-result', lambda: f'{what}: a container occurs twice in the result')

    def scribbled(result, what):
        scribble(result)
        unchanged(f'{what}, after changing its result')
        for r, e in kept:
            ctx.check(same(r, e), 'results-shared', lambda: f'{what}: changing its result changed an earlier one')

    for act in plan['acts']:
        name = act['act']
        if name == 'apply':
            out = apply(doc)
            judge(out, 'apply')
            unchanged('apply')
            if out[0] == 'ok':
                shares_nothing(out[1], 'apply')
                if act['scribble']:
                    scribbled(out[1], 'apply')
                else:
                    kept.append((out[1], expect))
        elif name == 'chain':
            # the result is a document like any other
            out = apply(doc)
            judge(out, 'apply')
            if out[0] == 'ok':
                before = fresh(out[1])
                out2 = apply(out[1])
                ctx.check(same(out[1], before), 'document-changed', 'the document patched again has changed')
                s2, e2 = reference(fresh(expect), ops)
                if s2 == 'ok':
                    ctx.check(out2[0] == 'ok' and same(out2[1], e2), 'wrong-result',
                              lambda: f'patched again: {brief(out2)}, should be {brief(e2)}')
                else:
                    ctx.check(out2[0] == 'JSONPatchError', 'wrong-outcome', lambda: f'patched again: {out2[0]}')
            unchanged('chain')
        elif name in ('interrupt', 'nomem'):
            exc = KeyboardInterrupt() if name == 'interrupt' else MemoryError('simulated')
            inj = Injector(boot.PREFIX, 'line' if name == 'interrupt' else 'alloc', act['at'], exc)
            out = None
            with inj:
                try:
                    out = 'ok', patch.evaluate(doc)
                except JSONPatchError as e:
                    out = 'JSONPatchError', str(e)
                except BaseException as e:
                    out = type(e).__name__, e
            if inj.fired:
                ctx.fault(name)
                ctx.nontrivial = True
                ctx.check(out[1] is exc, 'interrupt-swallowed', lambda: f'{name} at {inj.fired}: got {brief(out)}')
            else:
                judge(out, name)
            unchanged(name)
        elif name == 'threads':
            sched = Scheduler(ctx, plan['sched'], boot.PREFIX)

            def body():
                out = apply(doc)
                judge(out, 'thread')
                if out[0] == 'ok':
                    shares_nothing(out[1], 'thread')
                    scribble(out[1])
                return out[0]

            for _ in range(act['n']):
                sched.spawn(body)
            for st, v in sched.run():
                if st == 'exc':
                    raise v
            unchanged('threads')
            for r, e in kept:
                ctx.check(same(r, e), 'results-shared', 'an earlier result has changed')
            ctx.probe('threaded')
        ctx.ev(name, status)
        ctx.state(name, status, [op['op'] for op in ops], brief(expect, 500))
    # changes to document and patch do not show through in results
    last = apply(doc)
    judge(last, 'last')
    if last[0] == 'ok':
        kept.append((last[1], expect))
    scribble(doc)
    for op in patch:
        scribble(op.value)
    for r, e in kept:
        ctx.check(same(r, e), 'result-shared', 'changing the document or the patch changed a result')
    if status == 'fails' and expect > 0 or status == 'ok' and len(ops) > 1:
        ctx.nontrivial = True


def shrink(plan):
    for acts in list_shrinks(plan['acts']):
        yield dict(plan, acts=acts)
    for ops in list_shrinks(plan['ops']):
        if ops:
            yield dict(plan, ops=ops)
    if plan['build'] != 'dicts':
        yield dict(plan, build='dicts')
    for s in json_shrinks(plan['doc']):
        yield dict(plan, doc=s)
    for i, op in enumerate(plan['ops']):
        if 'value' in op:
            for s in json_shrinks(op['value']):
                yield dict(plan, ops=plan['ops'][:i] + [dict(op, value=s)] + plan['ops'][i + 1:])
