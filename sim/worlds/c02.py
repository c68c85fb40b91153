"""C02: a successful save is complete and a failed save is reported."""
import json
import os
import pathlib

from sim import seams
from sim.kernel import Skip, Violation
from sim.runner import json_shrinks, list_shrinks
from sim.values import NotJSON, brief, gen_scalar, gen_value, same, strict

PID = 'C02'
DRAFTS = ('2020-12',)
SCRATCH = True
RUNS = {'quick': 15000, 'thorough': 150000}
RULE = ('A case is a simulated disk and default text encoding, a few documents (JSON, sub-documents, schemas, plain '
        'values, and documents that cannot be serialised) and a sequence of saves over new and existing files, edits and '
        'loads; saves meet disk faults. Non-trivial: a fault fired inside a save, or the document was not plain ASCII or '
        'not serialisable.')
MEASURE = 'hash of the sequence of (document kind, fault fired, outcome, bytes accepted by the disk) over the run'
REAL = ['jschon.utils', 'jschon.json', 'jschon.jsonschema (construction, dumpf)', 'io buffering and text layers', 'json']
STUB = ['raw file operations (FaultRaw over real scratch files)', 'default text encoding']
ASSUMPTIONS = ['The json module parses UTF-8 JSON text correctly (it is the oracle for the bytes on disk).',
               'Crash atomicity (power loss in the middle of a save) is not part of the property.']

ENCODINGS = ['utf-8', 'cp1252', 'latin-1', 'ascii', 'shift_jis', 'cp437', 'utf-16']
FAULTS = ['open-enoent', 'open-eacces', 'open-emfile', 'open-eio', 'write-error', 'disk-full', 'close-error', 'short-write']
BAD = ['nan', 'inf', 'surrogate', 'object', 'set', 'nested-nan', 'late-nan', 'bytes']


def gen_doc(rng):
    k = rng.random()
    if k < 0.15:
        return {'kind': 'bad', 'bad': rng.choice(BAD), 'pad': rng.choice([0, 10, 3000])}
    if k < 0.25:
        return {'kind': 'schema', 'value': rng.choice([
            True, False, {'type': 'string', 'minLength': 2}, {'x-é': ['日本', {'a': None}], 'not': {}},
            {'properties': {'a': {'$ref': '#/$defs/é'}}, '$defs': {'é': {'const': 'ü'}}, 'title': '😀'},
            {'allOf': [True, {'items': {'enum': [1, 1.5, 'é', None]}}], 'examples': [gen_value(rng, 2)]},
        ])}
    value = gen_value(rng, rng.choice([0, 1, 2, 3]))
    if rng.random() < 0.2:
        value = {'pad': 'x' * rng.choice([100, 8190, 8192, 20000]), 'v': value, 'é': ['ü' * rng.randrange(50)]}
    if k < 0.5:
        return {'kind': 'plain', 'value': value}
    if k < 0.65:
        return {'kind': 'sub', 'value': value}
    return {'kind': 'json', 'value': value}


def gen(rng, tier):
    docs = [gen_doc(rng) for _ in range(rng.choice([1, 2, 3]))]
    ops = []
    faulty = rng.random() < 0.85
    for _ in range(rng.randrange(2, 9)):
        k = rng.random()
        d = rng.randrange(len(docs))
        if k < 0.15:
            ops.append({'op': 'edit', 'doc': d, 'value': gen_scalar(rng)})
            continue
        op = {'op': 'save', 'doc': d, 'file': rng.choice(['f1.json', 'f2.json']), 'path': rng.random() < 0.5}
        if faulty and rng.random() < 0.6:
            f = {'kind': rng.choice(FAULTS), 'mode': 'w'}
            if f['kind'] in ('write-error', 'disk-full'):
                f['at'] = rng.choice([0, 1, 2, 10, 100, 8192, rng.randrange(400)])
            if f['kind'] == 'short-write':
                f['n'] = rng.choice([1, 3, 50])
            op['fault'] = f
        ops.append(op)
    return {'enc': rng.choice(ENCODINGS), 'buf': rng.choice([1, 2, 7, 64, 8192]), 'docs': docs, 'ops': ops}


def build(d):
    import jschon
    if d['kind'] == 'json':
        return jschon.JSON(d['value']), d['value']
    if d['kind'] == 'sub':
        return jschon.JSON({'w': [0, d['value']]})['w'][1], d['value']
    if d['kind'] == 'schema':
        return jschon.JSONSchema(d['value'], metaschema_uri=jschon.URI(
            'https://json-schema.org/draft/2020-12/schema')), d['value']
    if d['kind'] == 'plain':
        return d['value'], d['value']
    pad = 'p' * d['pad']
    nan = float('nan')
    return {
        'nan': lambda: jschon.JSON({'pad': pad, 'n': nan}),
        'inf': lambda: jschon.JSON([pad, float('inf')]),
        'surrogate': lambda: jschon.JSON({'pad': pad, 's': 'x\ud800'}),
        'object': lambda: {'pad': pad, 'o': object()},
        'set': lambda: [pad, {1, 2}],
        'nested-nan': lambda: {'a': [{'pad': pad, 'b': jschon.JSON([nan])}]},
        'late-nan': lambda: {'pad': [pad] * 50, 'z': -float('inf')},
        'bytes': lambda: [pad, b'x'],
    }[d['bad']](), None


def run(plan, ctx):
    import jschon
    from jschon.utils import json_dumpf, json_loadf
    env = seams.Environment(ctx, ctx.scratch, plan['enc'], 1, plan['buf'])
    seams.env = env
    objs, values = [], []
    for d in plan['docs']:
        o, v = build(json.loads(json.dumps(d)))
        objs.append(o)
        values.append(json.loads(json.dumps(v)))
    serialisable = [d['kind'] != 'bad' for d in plan['docs']]

    def on_disk(path):
        try:
            with seams.real_open(path, 'rb') as f:
                return f.read()
        except FileNotFoundError:
            return None

    def save(i, name, aspath, fault):
        path = os.path.join(ctx.scratch, name)
        target = pathlib.Path(path) if aspath else path
        obj = objs[i]
        before = on_disk(path)
        env.open_faults[:] = [dict(fault)] if fault else []
        nh, nf = len(env.handles), sum(ctx.faults.values())
        failed = None
        try:
            if isinstance(obj, jschon.JSON):
                obj.dumpf(target)
            else:
                json_dumpf(obj, target)
        except Exception as e:
            failed = f'{type(e).__name__}: {str(e)[:100]}'
        env.open_faults.clear()
        fired = sum(ctx.faults.values()) - nf
        hard = fired and fault['kind'] != 'short-write'
        after = on_disk(path)
        accepted = sum(len(h.accepted) for h in env.handles[nh:])
        ctx.ev('save', i, name, fault['kind'] if fault else '-', failed or 'saved', len(after or b''))
        ctx.state(plan['docs'][i]['kind'], fault['kind'] if fired else '-', failed is not None, accepted)
        ctx.probe(('hard' if hard else 'benign') + ('-raised' if failed else '-saved'))
        if fired or not serialisable[i] or (after and not after.isascii()):
            ctx.nontrivial = True
        ctx.check(not env.unclosed(), 'file-left-open', lambda: f'saving left open {env.unclosed()}')
        if failed is None:
            ctx.check(not hard, 'failure-swallowed',
                      lambda: f'saving returned normally although the disk failed ({fault})')
            ctx.check(serialisable[i], 'bad-document-saved', lambda: f'saving {plan["docs"][i]} did not fail')
            try:
                got = strict(after or b'')
            except NotJSON as e:
                raise Violation('not-json-on-disk', f'after a successful save the file holds {brief(after)}: {e}')
            ctx.check(same(got, values[i]), 'wrong-on-disk',
                      lambda: f'after a successful save of {brief(values[i])} the file holds {brief(after)}')
            back = json_loadf(path)
            ctx.check(same(back, values[i]), 'wrong-read-back',
                      lambda: f'saved {brief(values[i])}, loaded {brief(back)}')
            ctx.check(jschon.JSON.loadf(path) == jschon.JSON(values[i]), 'wrong-read-back', 'JSON.loadf differs')
        else:
            if not serialisable[i]:
                ctx.check(after == before, 'file-touched',
                          lambda: f'refusing {plan["docs"][i]} changed the file from {brief(before)} to {brief(after)}')
            elif not hard:
                raise Violation('spurious-failure', f'saving {brief(values[i])} failed: {failed}')
        unchanged(i)

    def unchanged(i):
        if serialisable[i]:
            now = objs[i].value if isinstance(objs[i], jschon.JSON) else objs[i]
            ctx.check(same(now, values[i]), 'document-changed', lambda: f'saving changed the document to {brief(now)}')

    for op in plan['ops']:
        i = op['doc']
        if i >= len(objs):
            raise Skip('no such document')
        if op['op'] == 'edit':
            if plan['docs'][i]['kind'] in ('json', 'sub'):
                if isinstance(values[i], dict):
                    objs[i]['edited é'] = op['value']
                    values[i]['edited é'] = op['value']
                elif isinstance(values[i], list):
                    objs[i].append(op['value'])
                    values[i].append(op['value'])
            continue
        save(i, op['file'], op['path'], op.get('fault'))
    for op in plan['ops']:
        if op['op'] == 'save' and op.get('fault'):
            save(op['doc'], op['file'], op['path'], None)


def shrink(plan):
    for ops in list_shrinks(plan['ops']):
        yield dict(plan, ops=ops)
    for i, op in enumerate(plan['ops']):
        if op.get('fault'):
            yield dict(plan, ops=plan['ops'][:i] + [{k: v for k, v in op.items() if k != 'fault'}] + plan['ops'][i + 1:])
    for k, v in {'enc': 'utf-8', 'buf': 8192}.items():
        if plan[k] != v:
            yield dict(plan, **{k: v})
    used = {op['doc'] for op in plan['ops']}
    for i, d in enumerate(plan['docs']):
        if i not in used and d != {'kind': 'plain', 'value': 0}:
            yield dict(plan, docs=plan['docs'][:i] + [{'kind': 'plain', 'value': 0}] + plan['docs'][i + 1:])
        if d['kind'] == 'bad' and d['pad']:
            yield dict(plan, docs=plan['docs'][:i] + [dict(d, pad=0)] + plan['docs'][i + 1:])
        if d['kind'] in ('json', 'plain', 'sub'):
            for s in json_shrinks(d['value']):
                yield dict(plan, docs=plan['docs'][:i] + [dict(d, value=s)] + plan['docs'][i + 1:])
