"""C09: an aborted or nested evaluation does no damage."""
import builtins
import sys

from sim import boot, hooks, seams
from sim.corpus import Oracle, Web, catalog_for, gen_corpus, shrink_corpus
from sim.inject import Injector
from sim.kernel import Skip, Violation
from sim.outcome import capture, difference
from sim.runner import list_shrinks
from sim.values import brief

PID = 'C09'
DRAFTS = ('2019-09', '2020-12')
RUNS = {'quick': 14000, 'thorough': 150000}
RULE = ('A case is a set of 1-3 interlinked schema documents, constructed twice, with a format validator and a keyword of '
        "the user's, and a history of 1-8 evaluations of (sub)schemas, of which some are aborted (interrupt or memory error "
        'at a chosen line or allocation, exhausted stack, exception from the validator or keyword, while evaluating or while '
        'reading the output) and some contain nested evaluations (also aborted ones). Non-trivial: an evaluation was aborted '
        'after it had begun, or a nested one took place.')
MEASURE = 'hash of the sequence of (operation, fault, place it struck, verdict)'
REAL = ['jschon.jsonschema', 'jschon.output', 'jschon.catalog', 'jschon.vocabulary', 'jschon.vocabulary.format', 'jschon.uri',
        'jschon.jsonpointer', 'jschon.json']
STUB = ['sources (in memory)']
ASSUMPTIONS = ['Exceptions strike at line boundaries and allocations in jschon code, in callbacks, or where the stack ends.',
               'What an undisturbed evaluation gives is taken from a second construction of the same documents.']
RAISED = ['KeyError', 'RuntimeError', 'TypeError', 'AttributeError', 'IndexError', 'ZeroDivisionError', 'GeneratorExit',
          'KeyboardInterrupt', 'MemoryError', 'RecursionError', 'OSError', 'SystemExit', 'LookupError', 'AssertionError']

# what may strike at any line: the code swallows or converts some of the others in places where they have a meaning
ASYNC = ['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError', 'RecursionError', 'SystemExit', 'GeneratorExit']


def gen(rng, tier):
    corpus = gen_corpus(rng, ndocs=(1, 4), dense=0.4)
    keyword = corpus['mode'] == '2020-12' and rng.random() < 0.3
    hooks.sprinkle(rng, corpus['docs'], rng.choice([0.1, 0.3, 0.6]), keyword)
    oracle = Oracle(corpus)
    targets = oracle.targets()
    uris = list(corpus['docs'])

    def pick():
        for _ in range(8):
            u, d = rng.choice(targets) if rng.random() < 0.5 else (rng.choice(uris),) * 2
            i = rng.randrange(len(corpus['instances']))
            if oracle.verdict(u, i) is not None:
                break
        return {'uri': u, 'doc': d, 'inst': i}

    def fault():
        k = rng.random()
        if k < 0.4:
            return {'k': 'line', 'frac': rng.random(), 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError', 'RecursionError'])}
        if k < 0.5:
            return {'k': 'alloc', 'frac': rng.random()}
        if k < 0.65:
            return {'k': 'stack', 'frac': rng.random()}
        return {'k': 'raise', 'n': rng.choice([1, 1, 2, 3, 5]), 'exc': rng.choice(RAISED)}

    ops = []
    hot = pick()
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
        k = rng.random()
        op = {**(hot if rng.random() < 0.5 else pick()), 'output': rng.random() < 0.2}
        if k < 0.6:
            op['fault'] = fault()
        if k > 0.45 and k < 0.8:
            op['nested'] = [{**(hot if rng.random() < 0.4 else pick()), 'at': rng.choice([1, 1, 2, 3]),
                             'raise': rng.choice([None, None, rng.choice(ASYNC)])} for _ in range(rng.choice([1, 1, 2]))]
        ops.append(op)
    return {'corpus': corpus, 'keyword': keyword, 'ops': ops}


def run(plan, ctx):
    from jschon import JSON, JSONSchema, URI
    from jschon.exc import CatalogError
    seams.env = seams.Environment(ctx)
    corpus = plan['corpus']
    oracle = Oracle(corpus)
    cat = catalog_for(corpus)
    docs = dict(corpus['docs'])
    web = Web(ctx, docs)
    web.install(cat)
    control = hooks.Controller()
    meta = hooks.install(cat, corpus['draft'], docs, control, plan['keyword'])

    def build(c):
        for u in corpus['docs']:
            cat.get_schema(URI(u), metaschema_uri=meta, cacheid=c)
        return [JSON(i) for i in corpus['instances']]

    twin_instances = build('twin')
    instances = build('subject')
    subjects, twins, expected, cost = {}, {}, {}, {}

    def prepare(op):
        key = op['uri'], op['inst']
        if op['doc'] not in corpus['docs'] or op['inst'] >= len(instances):
            raise Skip
        try:
            oracle.reg.lookup(op['uri'])
        except Exception:
            raise Skip
        if op['uri'] not in subjects:
            subjects[op['uri']] = cat.get_schema(URI(op['uri']), cacheid='subject')
            twins[op['uri']] = cat.get_schema(URI(op['uri']), cacheid='twin')
        if key not in expected:
            expected[key] = None
            if oracle.verdict(*key) is not None:
                try:
                    calls = control.calls
                    with Injector(boot.PREFIX, 'line') as lines:
                        result = twins[op['uri']].evaluate(twin_instances[op['inst']])
                    calls = control.calls - calls
                    expected[key] = capture(result)
                    with Injector(boot.PREFIX, 'alloc') as allocs:
                        twins[op['uri']].evaluate(twin_instances[op['inst']])
                    cost[key] = {'line': lines.count, 'alloc': allocs.count, 'calls': calls}
                    if lines.count > 40000:
                        expected[key] = None
                        ctx.probe('expensive')
                except RecursionError:
                    expected[key] = None
        return key if expected[key] is not None else None

    def state():
        """What must not change."""
        web.off = True
        try:
            out = {}
            for c in ('subject', 'twin', 'default', '__meta__'):
                for u in sorted(subjects) + list(corpus['docs']):
                    try:
                        out[c, u] = cat.get_schema(URI(u), cacheid=c)
                    except CatalogError:
                        out[c, u] = None
        finally:
            web.off = False
        return out

    def check_rest(what):
        ctx.checks += 1
        now = state()
        for k, v in before.items():
            if now[k] is not v:
                raise Violation('catalog-changed', f'{what}: {k[1]} in cache {k[0]}')
        if web.total() != fetched:
            raise Violation('catalog-changed', f'{what}: a source was consulted')
        for j, (a, b) in enumerate(zip(instances, twin_instances)):
            if not same_nodes(a, b) or a.value != corpus['instances'][j]:
                raise Violation('instance-changed', f'{what}: instance {j}: {brief(a.value)}')

    def undisturbed(key, what, full=True):
        result = subjects[key[0]].evaluate(instances[key[1]])
        got = capture(result)
        ctx.checks += 1
        d = difference(got, expected[key])
        if d:
            raise Violation('wrong-result', f'{what}: {key[0]} on {brief(corpus["instances"][key[1]])}: {d}')

    for op in plan['ops']:
        prepare(op)
        for n in op.get('nested', []):
            prepare(n)
    schema_values = {u: s.value for u, s in twins.items()}
    before = state()
    fetched = web.total()
    interesting = 0

    for step, op in enumerate(plan['ops']):
        key = prepare(op)
        if key is None:
            ctx.probe('no reference result')
            continue
        fault = op.get('fault')
        what = f'step {step}'
        schema, instance = subjects[key[0]], instances[key[1]]
        inj, limit, expect_exc = None, None, None
        counter = [0]
        raised_by_hook = []
        nested_busy = [False]
        nested_done = [0]

        def hook(kind, data):
            if nested_busy[0]:
                return
            counter[0] += 1
            for n in op.get('nested', []):
                # the stack's end could fall anywhere in the harness's own code
                if n['at'] == counter[0] and not (fault and fault['k'] == 'stack'):
                    k2 = prepare_known(n)
                    if k2 is None:
                        continue
                    nested_busy[0] = True
                    nested_done[0] += 1
                    ctx.fault('nested-evaluation')
                    try:
                        if n['raise']:
                            # a nested evaluation that is aborted, which the callback survives
                            e2 = getattr(builtins, n['raise'])('nested')
                            with Injector(boot.PREFIX, 'line', 1 + cost[k2]['line'] // 2, e2) as inner:
                                try:
                                    subjects[k2[0]].evaluate(instances[k2[1]])
                                except BaseException as e:
                                    if e is not e2:
                                        raise
                            if inner.fired:
                                ctx.fault('nested-abort')
                        undisturbed(k2, f'{what}, nested evaluation')
                    finally:
                        nested_busy[0] = False
            if fault and fault['k'] == 'raise' and counter[0] == fault['n']:
                e = getattr(builtins, fault['exc'])('simulated')
                raised_by_hook.append(e)
                ctx.fault(f'callback-raises')
                raise e

        def prepare_known(n):
            k2 = n['uri'], n['inst']
            return k2 if expected.get(k2) is not None else None

        control.fn = hook
        raised = None
        result = None

        def act():
            nonlocal result
            result = schema.evaluate(instance)
            if op['output']:
                capture(result)

        if fault and fault['k'] in ('line', 'alloc') and not op.get('nested'):
            exc = getattr(builtins, fault['exc'])('simulated') if fault['k'] == 'line' else MemoryError('simulated')
            inj = Injector(boot.PREFIX, fault['k'], 1 + int(fault['frac'] * cost[key][fault['k']]), exc)
        elif fault and fault['k'] == 'stack':
            # room for part of the evaluation only
            limit = 5 + int(fault['frac'] * 60)
        try:
            if inj is not None:
                with inj:
                    act()
            elif limit is not None:
                old = sys.getrecursionlimit()
                depth, frame = 0, sys._getframe()
                while frame is not None:
                    depth += 1
                    frame = frame.f_back
                sys.setrecursionlimit(depth + limit)
                try:
                    act()
                finally:
                    sys.setrecursionlimit(old)
            else:
                act()
        except (Violation, Skip):
            raise
        except BaseException as e:
            raised = e
        control.fn = None
        if inj is not None and inj.fired:
            ctx.fault('interrupt' if fault['k'] == 'line' else 'memory-error')
            expect_exc = inj.exc
        elif raised_by_hook:
            expect_exc = raised_by_hook[0]
        place = inj.fired[0] if inj is not None and inj.fired else None
        ctx.ev(what, key[0], fault['k'] if fault else 'no fault', type(raised).__name__, place or '')
        ctx.state(step, fault['k'] if fault else None, type(raised).__name__, place, result.valid if result is not None else None)
        ctx.checks += 1
        if expect_exc is not None:
            interesting += 1
            if limit is None and raised is not expect_exc:
                raise Violation('exception-lost', f'{what}: {type(expect_exc).__name__} was raised (in {place}), the caller got '
                                + (f'{type(raised).__name__}: {str(raised)[:100]}' if raised is not None else 'a result'))
        elif raised is not None:
            if limit is None:
                raise Violation('spurious-failure', f'{what}: {type(raised).__name__}: {str(raised)[:200]}')
            if not isinstance(raised, RecursionError):
                raise Violation('exception-lost', f'{what}: the stack was exhausted, and the caller got {type(raised).__name__}: '
                                                  f'{str(raised)[:100]}')
            ctx.fault('stack-exhausted')
            interesting += 1
        elif limit is None or not op['output']:
            d = difference(capture(result), expected[key])
            if d:
                raise Violation('wrong-result', f'{what}: {key[0]} on {brief(corpus["instances"][key[1]])}: {d}')
        interesting += nested_done[0]
        undisturbed(key, f'{what}, evaluated again')
        check_rest(what)
    for key in sorted(k for k in expected if expected[k] is not None):
        undisturbed(key, 'in the end')
    for u, v in schema_values.items():
        ctx.checks += 1
        if subjects[u].value != v:
            raise Violation('schema-changed', u)
    ctx.nontrivial = interesting > 0


def same_nodes(a, b):
    if (a.type, a.key, str(a.path)) != (b.type, b.key, str(b.path)):
        return False
    if a.type == 'array':
        return len(a) == len(b) and all(x.parent is a and same_nodes(x, y) for x, y in zip(a, b))
    if a.type == 'object':
        return list(a) == list(b) and all(a[k].parent is a and same_nodes(a[k], b[k]) for k in a)
    return a.value == b.value


def shrink(plan):
    for ops in list_shrinks(plan['ops']):
        if ops:
            yield dict(plan, ops=ops)
    for i, op in enumerate(plan['ops']):
        def alt(**kw):
            return dict(plan, ops=plan['ops'][:i] + [{**op, **kw}] + plan['ops'][i + 1:])
        if op.get('fault'):
            yield alt(fault=None)
        if op.get('nested'):
            for n in list_shrinks(op['nested']):
                yield alt(nested=n)
        if op['output']:
            yield alt(output=False)
    for c in shrink_corpus(plan['corpus']):
        yield dict(plan, corpus=c)
