"""C15: readers of a shared document do not disturb each other."""
import builtins
import json
import os
import sys

from sim import boot, sched, seams
from sim.inject import Injector
from sim.kernel import Skip, Violation
from sim.runner import json_shrinks, list_shrinks
from sim.sched import Scheduler, gen_sched
from sim.values import KEYS, brief, gen_scalar, gen_value, jeq, same, strict

PID = 'C15'
DRAFTS = ()
SCRATCH = True
RUNS = {'quick': 15000, 'thorough': 300000}
RULE = ('A case is a JSON document, some pointers and relative pointers, and 1-6 phases: 2-4 threads that read at the same time '
        '(all ways of reading, saving, and building other documents and patches from parts of it, which are then edited), single '
        'reads that are cut short by an interrupt, a failing allocation or the end of the stack, and edits in between. '
        'Non-trivial: threads were switched while reading, a read was cut short, or the document was edited between reads.')
MEASURE = 'hash of the sequence of (kind of read, thread, outcome, place of interruption)'
REAL = ['jschon.json', 'jschon.jsonpointer', 'jschon.jsonpatch', 'jschon.utils', 'json', 'io buffering']
STUB = ['thread scheduling', 'raw file operations', 'interrupts, allocator, stack depth']
ASSUMPTIONS = ['Nobody edits the document while others read it.', 'The lists and dicts that reads return are not edited by the user.']
READS = ['value', 'value', 'path', 'path', 'path-all', 'len', 'items', 'iter', 'contains', 'index', 'cmp', 'cmp', 'order', 'dumps', 'repr', 'get',
         'pointer', 'pointer', 'pointer-plain', 'pointer-text', 'relative', 'relative', 'save', 'build', 'assign', 'patch', 'up', 'twin', 'twin']
RELATIVE = ['0', '1', '2', '0#', '1#', '2#', '0-1', '0+1', '0+1#', '1-1', '0-1#', '1+1/0', '3', '0/a', '1/0', '1/a', '9', '0+9', '2/1/0', '1/é']


def gen_doc(rng):
    while True:
        v = gen_value(rng, rng.choice([2, 3, 3, 4]), rng.choice([3, 4, 6]))
        if rng.random() < 0.2:
            same_again = gen_value(rng, 2)
            v = {'a': same_again, 'b': [same_again, v, same_again]}
        if isinstance(v, (list, dict)) and v:
            return v


def places(v, at=()):
    yield list(at)
    for k, x in (enumerate(v) if isinstance(v, list) else v.items() if isinstance(v, dict) else ()):
        yield from places(x, (*at, k))


def gen_read(rng):
    op = {'read': rng.choice(READS), 'at': rng.randrange(1000) if rng.random() < 0.65 else 0, 'to': rng.randrange(1000)}
    if op['read'] in ('build', 'assign', 'patch'):
        op['with'] = gen_scalar(rng)
    return op


def gen(rng, tier):
    phases = []
    # the same reads again and again, also after edits
    hot = [gen_read(rng) for _ in range(rng.choice([1, 2, 4]))]
    share = rng.choice([0.5, 0.7, 0.9])
    for _ in range(rng.choice([1, 1, 2, 3, 4, 6])):
        k = rng.random() * share / 0.5
        if k < 0.6:
            n = rng.choice([1, 2, 2, 3, 4])
            threads = [[dict(rng.choice(hot)) if rng.random() < 0.75 else gen_read(rng) for _ in range(rng.choice([1, 2, 4, 7]))]
                       for _ in range(n)]
            phases.append({'threads': threads, 'sched': gen_sched(rng, n, 60 * sum(map(len, threads)))})
        elif k < 0.85:
            phases.append({'cut': dict(rng.choice(hot)) if rng.random() < 0.5 else gen_read(rng), 'kind': rng.choice(['line', 'line', 'alloc', 'stack']), 'frac': rng.random(),
                           'exc': rng.choice(['KeyboardInterrupt', 'SystemExit', 'MemoryError', 'RuntimeError', 'TimeoutError'])})
        else:
            phases.append({'edit': rng.choice(['set', 'set', 'delete', 'insert', 'append', 'root']), 'at': rng.randrange(1000),
                           'value': gen_value(rng, rng.choice([0, 1, 2]))})
    return {'doc': gen_doc(rng), 'phases': phases, 'relative': rng.sample(RELATIVE, 4), 'warm': rng.random() < 0.3,
            'settle': rng.random() < 0.3, 'flips': [rng.choice([0, 0, 1, 2]) for _ in range(rng.choice([1, 2, 3, 5]))]}


def descend(v, at):
    for k in at:
        v = v[k]
    return v


def lookalike(v, flips):
    """The same document but for the types of some scalars."""
    count = [0]

    def twist(x):
        if isinstance(x, list):
            return [twist(y) for y in x]
        if isinstance(x, dict):
            return {k: twist(y) for k, y in x.items()}
        count[0] += 1
        if not flips[count[0] % len(flips)]:
            return x
        if isinstance(x, bool):
            return int(x)
        if x in (0, 1):
            return bool(x) if flips[count[0] % len(flips)] == 1 else float(x)
        if isinstance(x, str):
            return int(x) if x in ('0', '1') else x
        return x
    return twist(v)


def text(at):
    return ''.join('/' + str(k).replace('~', '~0').replace('/', '~1') for k in at)


def relative(doc, at, rel):
    """What a relative pointer gives; LookupError if nothing."""
    digits = ''
    while rel and rel[0].isdigit():
        digits, rel = digits + rel[0], rel[1:]
    up = int(digits)
    if up > len(at):
        raise LookupError
    at = list(at[:len(at) - up])
    if rel[:1] in ('+', '-') and rel[:1]:
        sign, rel = rel[0], rel[1:]
        n = ''
        while rel and rel[0].isdigit():
            n, rel = n + rel[0], rel[1:]
        if not at or not isinstance(descend(doc, at[:-1]), list):
            raise LookupError
        at[-1] += int(sign + n)
        if not 0 <= at[-1] < len(descend(doc, at[:-1])):
            raise LookupError
    if rel == '#':
        if not at:
            raise LookupError
        return at[-1]
    for token in rel.split('/')[1:]:
        v = descend(doc, at)
        if isinstance(v, list) and token.isdigit() and str(int(token)) == token and int(token) < len(v):
            at.append(int(token))
        elif isinstance(v, dict) and token in v:
            at.append(token)
        else:
            raise LookupError
    return descend(doc, at)


def run(plan, ctx):
    from jschon import JSON, JSONPatch, JSONPatchOperation, JSONPointer, RelativeJSONPointer
    from jschon.exc import JSONPointerReferenceError, RelativeJSONPointerReferenceError
    seams.env = seams.Environment(ctx, ctx.scratch, 'utf-8', 1, 64, 0)
    if not isinstance(plan['doc'], (list, dict)):
        raise Skip
    doc = [json.loads(json.dumps(plan['doc']))]     # the model
    root = JSON(doc[0])
    relatives = [(r, RelativeJSONPointer(r)) for r in plan['relative']]
    pointers = {}
    interesting = [0]
    saves = [0]

    def spots():
        return list(places(doc[0]))

    def pointer(at):
        # the same object for everybody
        t = text(at)
        if t not in pointers:
            pointers[t] = JSONPointer(t)
        return pointers[t]

    def plain(x):
        """Read by hand, without the caches."""
        if isinstance(x.data, list):
            return [plain(y) for y in x.data]
        return {k: plain(y) for k, y in x.data.items()} if isinstance(x.data, dict) else x.data

    def prepare(op):
        """(what to do, what must come out)"""
        all_spots = spots()
        at, to = all_spots[op['at'] % len(all_spots)], all_spots[op['to'] % len(all_spots)]
        v, w = descend(doc[0], at), descend(doc[0], to)
        name = op['read']
        node, other = root, root
        for k in at:
            node = node.data[k]
        for k in to:
            other = other.data[k]
        n = op['to']
        if name in ('len', 'contains', 'iter') and not isinstance(v, (list, dict)) or \
                name in ('items', 'get', 'assign') and not isinstance(v, dict) or name == 'index' and not (isinstance(v, list) and v):
            name = 'value'
        if name == 'order' and not (type(v) in (int, float) and type(w) in (int, float) or isinstance(v, str) and isinstance(w, str)):
            name = 'cmp'
        if name == 'save' and any(0xd800 <= ord(c) < 0xe000 for c in json.dumps(v, ensure_ascii=False)):
            name = 'dumps'
        if name == 'value':
            return name, lambda: node.value, v
        if name == 'path':
            return name, lambda: [str(node.path), node.path[:], len(node.path), node.path == pointer(at)], \
                [text(at), JSONPointer(text(at)), len(at), True]
        if name == 'path-all':
            return name, lambda: [str(x.path) for x in walk(root)], [text(a) for a in all_spots]
        if name == 'len':
            return name, lambda: [len(node), bool(node)], [len(v), bool(v)]
        if name == 'items':
            return name, lambda: [[k, x.value, x.key] for k, x in node.items()], [[k, x, k] for k, x in v.items()]
        if name == 'iter':
            if isinstance(v, dict):
                return name, lambda: [list(node), [x.value for x in node.values()]], [list(v), list(v.values())]
            return name, lambda: [[[x.key, x.value] for x in node], [x.value for x in reversed(node)]], \
                [[[str(i), x] for i, x in enumerate(v)], v[::-1]]
        if name == 'contains':
            key = KEYS[n % len(KEYS)]
            if isinstance(v, dict):
                return name, lambda: [key in node, node.get(key) is not None], [key in v, key in v]
            return name, lambda: w in node, any(jeq(w, x) for x in v)
        if name == 'index':
            x = v[n % len(v)]
            return name, lambda: [node.index(x), node.count(x)], \
                [next(i for i, y in enumerate(v) if jeq(x, y)), sum(jeq(x, y) for y in v)]
        if name == 'cmp':
            return name, lambda: [node == other, other == node, node == w, node != w, node == v], [jeq(v, w)] * 3 + [not jeq(v, w), True]
        if name == 'twin':
            # another shared document, which looks almost the same
            u = descend(twin[0], at)
            mate = twin[1]
            for k in at:
                mate = mate.data[k]
            alike = jeq(v, u)
            return name, lambda: [node == mate, mate == node, node != mate, mate.value if n % 3 else u, node.value if n % 2 else v,
                                  mate == node, node == u, mate == u, [mate] == [node]], \
                [alike, alike, not alike, u, v, alike, alike, True, alike]
        if name == 'order':
            return name, lambda: [node < other, node <= w, node > other, node >= w], [v < w, v <= w, v > w, v >= w]
        if name == 'dumps':
            return name, lambda: [json.loads(node.dumps()), json.loads(str(node))], [v, v]
        if name == 'repr':
            return name, lambda: repr(node), f'JSON({json.loads(json.dumps(v))!r})'
        if name == 'get':
            key = list(v)[n % len(v)] if v else 'none'
            return name, lambda: node.get(key).value if v else node.get(key), v[key] if v else None
        if name == 'pointer':
            p = pointer(at)
            return name, lambda: [p.evaluate(root).value, p.evaluate(root) is node], [v, True]
        if name == 'pointer-plain':
            p, value = pointer(at), doc[0]
            return name, lambda: p.evaluate(value), v
        if name == 'pointer-text':
            p, q = pointer(at), pointer(to)
            return name, lambda: [str(p), str(p / ['x', 'y/z']), str(p[:1]), p == q, p <= q, p < q, hash(p) == hash(JSONPointer(str(p))),
                                  str(JSONPointer(p, q)), str(JSONPointer.parse_uri_fragment(p.uri_fragment()))], \
                [text(at), text([*at, 'x', 'y/z']), text(at[:1]), text(at) == text(to), at == to[:len(at)],
                 at == to[:len(at)] and at != to, True, text(at + to), text(at)]
        if name == 'relative':
            r, rp = relatives[n % len(relatives)]
            try:
                want = relative(doc[0], at, r)
            except LookupError:
                want = 'not there'

            def f():
                try:
                    got = rp.evaluate(node)
                except (RelativeJSONPointerReferenceError, JSONPointerReferenceError):
                    return [r, 'not there']
                return [str(rp), got.value if isinstance(got, JSON) else got]
            return name, f, [r, want]
        if name == 'save':
            saves[0] += 1
            file = os.path.join(ctx.scratch, f'save-{saves[0]}.json')

            def f():
                node.dumpf(file)
                with seams.real_open(file, 'rb') as g:
                    return strict(g.read())
            return name, f, v
        if name == 'build':
            def f():
                new = JSON({'k': [1, 2]})
                new['k'][0] = node
                new['k'].append(other)
                got = json.loads(json.dumps(new.value))
                if isinstance(v, dict):
                    new['k'][0]['new'] = op['with']
                elif isinstance(v, list):
                    new['k'][0].insert(0, op['with'])
                new.remove('/k/2')
                return [got, str(new['k'][0].path)]
            return name, f, [{'k': [v, 2, w]}, '/k/0']
        if name == 'assign':
            # a value taken from the document, and the document's own text, make a new one
            def f():
                new = JSON(json.loads(node.dumps()))
                new.add('/n', other)
                new.replace('/n', node)
                return new.value
            return name, f, {**v, 'n': v}
        if name == 'patch':
            def f():
                patch = JSONPatch(JSONPatchOperation(op='add', path='/n', value=node.value),
                                  JSONPatchOperation(op='test', path='/n', value=v), JSONPatchOperation(op='add', path='/o', value=other.value))
                got = patch.evaluate({'m': op['with']})
                if isinstance(got['n'], list):
                    got['n'].append(op['with'])
                elif isinstance(got['n'], dict):
                    got['n']['new'] = op['with']
                return [got['o'], patch.aslist()[0]['value']] if isinstance(w, (str, int, float, bool, type(None))) else \
                    [json.loads(json.dumps(got['o'])), patch.aslist()[0]['value']]
            return name, f, [w, v]
        if name == 'up':
            def f():
                x, up = node, []
                while x is not None:
                    up.append(x.key)
                    x = x.parent
                return [up, node.type]
            return name, f, [[str(k) for k in at[::-1]] + [None], kind(v)]
        raise Skip(name)

    def walk(x):
        yield x
        for y in x.data if isinstance(x.data, list) else x.data.values() if isinstance(x.data, dict) else ():
            yield from walk(y)

    def equal(got, want):
        if isinstance(got, JSONPointer) and isinstance(want, JSONPointer):
            return str(got) == str(want)
        if isinstance(got, list) and isinstance(want, list):
            return len(got) == len(want) and all(map(equal, got, want))
        return same(got, want)

    def new_twin():
        other = lookalike(json.loads(json.dumps(doc[0])), plan['flips'])
        return [other, JSON(other)]

    def settle(what, thorough=False):
        """The document is what it should be, by whatever way one looks at it."""
        ctx.checks += 1
        if not same(plain(root), doc[0]):
            raise Violation('document-changed', f'{what}: the document is {brief(plain(root))}, should be {brief(doc[0])}')
        if not (thorough or plan['settle']):
            return       # and leave the caches alone
        if not same(root.value, doc[0]):
            raise Violation('wrong-value', f'{what}: the value is {brief(root.value)}, should be {brief(doc[0])}')
        for at in spots():
            node = root
            for k in at:
                up, node = node, node.data[k]
                if node.parent is not up or node.key != str(k):
                    raise Violation('document-changed', f'{what}: parent or key of {text(at)}')
            if not same(node.value, descend(doc[0], at)):
                raise Violation('wrong-value', f'{what}: the value of {text(at)} is {brief(node.value)}')
            if str(node.path) != text(at):
                raise Violation('wrong-path', f'{what}: the path of {text(at)} is {node.path}')
            if node.type != kind(descend(doc[0], at)):
                raise Violation('document-changed', f'{what}: the type of {text(at)} is {node.type}')
        for t, p in pointers.items():
            if str(p) != t:
                raise Violation('pointer-changed', f'{what}: the pointer {t} is now {p}')
        for r, rp in relatives:
            if str(rp) != r:
                raise Violation('pointer-changed', f'{what}: the relative pointer {r} is now {rp}')

    def judge(what, got, want):
        ctx.checks += 1
        if not equal(got, want):
            raise Violation('wrong-read', f'{what} gives {brief(got)}, should give {brief(want)}')

    if plan['warm']:
        settle('at first', True)
    twin = new_twin()
    for step, phase in enumerate(plan['phases']):
        what = f'phase {step}'
        if not same(twin[0], lookalike(doc[0], plan['flips'])):
            twin = new_twin()       # the document was edited
        if 'threads' in phase:
            prepared = [[prepare(op) for op in ops] for ops in phase['threads']]
            before = ctx.switches

            def client(t, reads):
                def body():
                    for n, (name, f, want) in enumerate(reads):
                        try:
                            got = f()
                        except (Violation, Skip):
                            raise
                        except Exception as e:
                            raise Violation('spurious-failure', f'{what}, thread {t}: {name} raised {type(e).__name__}: {str(e)[:200]}')
                        judge(f'{what}, thread {t}: {name}', got, want)
                        ctx.ev(t, n, name)
                        ctx.state(t, n, name)
                return body

            s = Scheduler(ctx, phase['sched'], boot.PREFIX)
            for t, reads in enumerate(prepared):
                s.spawn(client(t, reads))
            for status, value in s.run():
                if status == 'exc':
                    raise value
            ctx.fault('threads')
            interesting[0] += ctx.switches - before
        elif 'cut' in phase:
            name, f, want = prepare(phase['cut'])
            kind_, raised, got = phase['kind'], None, None
            exc = MemoryError('simulated') if kind_ == 'alloc' else getattr(builtins, phase['exc'])('simulated')
            if kind_ == 'stack':
                old = sys.getrecursionlimit()
                depth, frame = 0, sys._getframe()
                while frame is not None:
                    depth += 1
                    frame = frame.f_back
                sys.setrecursionlimit(depth + 4 + int(phase['frac'] * 16))
                try:
                    got = f()
                except BaseException as e:
                    raised = e
                finally:
                    sys.setrecursionlimit(old)
                if raised is not None:
                    ctx.fault('stack-exhausted')
                    fired = 'stack'
            else:
                # how long it takes is not known, as that changes what is cached
                injector = Injector(boot.PREFIX, kind_, 1 + int(phase['frac'] ** 2 * (120 if kind_ == 'line' else 6)), exc)
                with injector:
                    try:
                        got = f()
                    except BaseException as e:
                        raised = e
                fired = injector.fired[0] if injector.fired else None
                if fired:
                    ctx.fault('interrupt' if kind_ == 'line' else 'memory-error')
                    ctx.checks += 1
                    if raised is not exc:
                        raise Violation('exception-lost', f'{what}: {type(exc).__name__} was raised in {fired}, {name} '
                                        + (f'raised {type(raised).__name__}' if raised is not None else f'gave {brief(got)}'))
            if isinstance(raised, (Violation, Skip)):
                raise raised
            if raised is None:
                judge(f'{what}: {name}', got, want)
            elif kind_ == 'stack' and not isinstance(raised, RecursionError) or kind_ != 'stack' and not fired:
                raise Violation('spurious-failure', f'{what}: {name} raised {type(raised).__name__}: {str(raised)[:200]}')
            else:
                interesting[0] += 1
            place = fired if raised is not None else None
            raised = None
            ctx.ev(what, name, kind_, place)
            ctx.state(name, kind_, place)
            judge(f'{what}: {name} repeated', f(), want)
        else:
            containers = [a for a in spots() if isinstance(descend(doc[0], a), (list, dict))]
            if not containers:
                raise Skip
            at = containers[phase['at'] % len(containers)]
            v, node, name = descend(doc[0], at), root, phase['edit']
            new = json.loads(json.dumps(phase['value']))
            for k in at:
                node = node.data[k]
            if name == 'root':
                if isinstance(new, (list, dict)):
                    root.replace('', new)
                    doc[0] = new
            elif isinstance(v, dict):
                key = list(v)[phase['at'] % len(v)] if v and name in ('set', 'delete') else KEYS[phase['at'] % len(KEYS)]
                if name == 'delete' and v:
                    del node[key]
                    del v[key]
                else:
                    node[key] = new
                    v[key] = new
            elif name == 'delete' and v:
                i = phase['at'] % len(v)
                del node[i]
                del v[i]
            elif name == 'set' and v:
                i = phase['at'] % len(v)
                node[i] = new
                v[i] = new
            elif name == 'insert':
                i = phase['at'] % (len(v) + 1)
                node.insert(i, new)
                v.insert(i, new)
            else:
                node.append(new)
                v.append(new)
            doc[0] = json.loads(json.dumps(doc[0]))
            ctx.ev(what, name, text(at))
            ctx.state(name)
            interesting[0] += step > 0
            continue     # what is cached is for the readers to find out
        settle(what)
    settle('in the end', True)
    ctx.nontrivial = interesting[0] > 0


def kind(v):
    return ('null' if v is None else 'boolean' if isinstance(v, bool) else 'number' if isinstance(v, (int, float))
            else 'string' if isinstance(v, str) else 'array' if isinstance(v, list) else 'object')


def shrink(plan):
    for phases in list_shrinks(plan['phases']):
        yield dict(plan, phases=phases)
    for i, ph in enumerate(plan['phases']):
        def alt(**kw):
            return dict(plan, phases=plan['phases'][:i] + [{**ph, **kw}] + plan['phases'][i + 1:])
        if 'threads' in ph:
            for ts in list_shrinks(ph['threads']):
                if ts:
                    yield alt(threads=ts)
            for j, t in enumerate(ph['threads']):
                for ops in list_shrinks(t):
                    yield alt(threads=ph['threads'][:j] + [ops] + ph['threads'][j + 1:])
    if plan['settle']:
        yield dict(plan, settle=False)
    if plan['warm']:
        yield dict(plan, warm=False)
    if len(plan['flips']) > 1:
        for f in list_shrinks(plan['flips']):
            if f:
                yield dict(plan, flips=f)
    for s in json_shrinks(plan['doc']):
        if isinstance(s, (list, dict)) and s:
            yield dict(plan, doc=s)
