"""C13: a constructed schema is self-contained."""
import builtins
import gc
import json

from sim import boot, hooks, metas, refeval, sched, seams
from sim.corpus import Oracle, Web, catalog_for, gen_corpus, scribble, shrink_corpus
from sim.inject import Injector
from sim.kernel import Skip, Violation
from sim.outcome import capture, difference
from sim.runner import list_shrinks
from sim.sched import Scheduler, gen_sched
from sim.values import brief

PID = 'C13'
DRAFTS = ('2019-09', '2020-12')
RUNS = {'quick': 7000, 'thorough': 120000}
RULE = ('A case is a set of 1-4 interlinked schema documents, constructed in up to three caches, and a history of 1-10 evaluations '
        'and changes of the catalog (deletions, replacements, caches that end, sources that are replaced or fail, formats and '
        'vocabularies that are registered anew, metaschemas that change, source documents edited in place, failing constructions, other catalogs of that name), which '
        'also happen during evaluations (from a format validator or keyword) and in other threads. Non-trivial: a schema was '
        'evaluated after at least one change, or while one happened.')
MEASURE = 'hash of the sequence of (operation, outcome)'
REAL = ['jschon.jsonschema', 'jschon.catalog', 'jschon.vocabulary', 'jschon.vocabulary.format', 'jschon.output', 'jschon.atomic',
        'jschon.uri', 'jschon.jsonpointer', 'jschon.json']
STUB = ['sources (in memory)', 'thread scheduling']
ASSUMPTIONS = ['What a schema should say is taken from another construction of the same documents, evaluated before any change.',
               'Instances and schema objects themselves are not edited.']
CACHES = ['default', 'c1', 'context']
EVENTS = ['delete', 'delete', 'clear', 'clear', 'new', 'new', 'add', 'end', 'end', 'sources', 'sources', 'documents', 'documents',
          'format', 'format', 'vocabulary', 'vocabulary', 'metaschema', 'metaschema', 'get', 'bad', 'catalog', 'embedded', 'collect', 'scribble']


def gen(rng, tier):
    corpus = gen_corpus(rng, ndocs=(1, 4), dense=0.2)
    keyword = corpus['mode'] == '2020-12' and rng.random() < 0.3
    hooks.sprinkle(rng, corpus['docs'], rng.choice([0, 0.1, 0.3]), keyword)
    hooks.sprinkle(rng, corpus['docs'], rng.choice([0, 0, 0.2]), False, 'b')    # a format that is not enabled (yet)
    oracle = Oracle(corpus)
    targets = oracle.targets()
    uris = list(corpus['docs'])
    caches = CACHES[:rng.choice([1, 2, 3])] if rng.random() < 0.6 else ['context']
    subjects = []
    for _ in range(rng.choice([1, 2, 3])):
        u, d = rng.choice(targets) if rng.random() < 0.5 else (rng.choice(uris),) * 2
        subjects.append({'uri': u, 'doc': d, 'cache': rng.choice(caches), 'how': rng.choice(['get', 'get', 'new']),
                         'insts': sorted({rng.randrange(len(corpus['instances'])) for _ in range(rng.choice([1, 2, 3]))}),
                         'warm': rng.random() < 0.3})

    def event():
        e = {'op': rng.choice(EVENTS), 'uri': rng.choice(uris if rng.random() < 0.7 else [t for t, _ in targets]),
             'other': rng.choice(uris), 'cache': rng.choice(caches), 'n': rng.randrange(1000), 'value': rng.choice([True, False, {}])}
        if rng.random() < 0.15:
            e['fault'] = {'n': int(2 ** rng.uniform(3, 14)), 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])}
        return e

    def evaluation():
        s = rng.randrange(len(subjects))
        return {'op': 'evaluate', 'subject': s, 'inst': rng.choice(subjects[s]['insts'])}

    ops = []
    for _ in range(rng.choice([1, 2, 3, 5, 7, 10])):
        k = rng.random()
        if k < 0.6:
            ops.append(event())
        elif k < 0.85:
            op = evaluation()
            if rng.random() < 0.4:
                op['inside'] = [rng.choice([1, 1, 2, 4]), event()]
            ops.append(op)
        else:
            threads = [[evaluation() for _ in range(rng.choice([1, 2]))] for _ in range(rng.choice([1, 1, 2]))]
            threads.append([dict(event(), fault=None) for _ in range(rng.choice([1, 2, 4]))])
            ops.append({'op': 'threads', 'threads': threads, 'sched': gen_sched(rng, len(threads), 20000)})
    return {'corpus': corpus, 'keyword': keyword, 'subjects': subjects, 'ops': ops}


def run(plan, ctx):
    import jschon
    from jschon import JSON, JSONSchema, URI, Catalog
    from jschon.exc import CatalogError
    from jschon.vocabulary import Keyword
    from jschon.vocabulary.format import format_validator
    seams.env = seams.Environment(ctx)
    corpus = plan['corpus']
    oracle = Oracle(corpus)
    cat = catalog_for(corpus)
    draft = corpus['draft']
    docs = dict(corpus['docs'])
    web = Web(ctx, docs)
    web.install(cat)
    control = hooks.Controller()
    meta = hooks.install(cat, draft, docs, control, plan['keyword'])

    @format_validator('b')     # registered, but not enabled
    def validate_b(data):
        raise ValueError('never')

    instances = [JSON(i) for i in corpus['instances']]
    known = sorted({t for t, _ in oracle.targets() if '#/' not in t})
    context = cat.cache('context')
    context.__enter__()
    ended = [False]

    # the reference results, and the schemas
    web.counts.clear()
    subjects = []
    evaluating = {}           # thread -> depth

    def fetched(uri):
        me = sched.current.me().tid if sched.current is not None and sched.current.me() is not None else 'main'
        if evaluating.get(me):
            raise Violation('evaluation-loads', f'an evaluation fetches {uri}')

    web.hook = fetched

    def evaluate(schema, inst):
        me = sched.current.me().tid if sched.current is not None and sched.current.me() is not None else 'main'
        evaluating[me] = evaluating.get(me, 0) + 1
        try:
            return capture(schema.evaluate(inst))
        finally:
            evaluating[me] -= 1

    def construct(s, cache):
        if s['how'] == 'new':
            web.handed.append(json.loads(json.dumps(docs[s['doc']])))
            schema = JSONSchema(web.handed[-1], uri=URI(s['doc']), catalog=cat, cacheid=cache, metaschema_uri=meta)
        else:
            schema = cat.get_schema(URI(s['doc']), metaschema_uri=meta, cacheid=cache)
        return schema if s['uri'] == s['doc'] else cat.get_schema(URI(s['uri']), cacheid=cache)

    for n, s in enumerate(plan['subjects']):
        if s['doc'] not in corpus['docs']:
            raise Skip
        try:
            oracle.reg.lookup(s['uri'])
        except Exception:
            raise Skip
        # the same in a cache of its own, where nothing ever changes
        schema, twin = (construct(s, cache) for cache in (s['cache'], 'twin-' + s['cache']))
        expected = {}
        for i in s['insts']:
            if i >= len(instances):
                raise Skip
            expected[i] = None
            if oracle.verdict(s['uri'], i) is None:
                ctx.probe('no verdict')
                continue
            try:
                with Injector(boot.PREFIX, 'line') as count:
                    got = evaluate(twin, instances[i])
            except RecursionError:
                continue
            if count.count > 40000:
                ctx.probe('expensive')
                continue
            expected[i] = got
        subjects.append((s, schema, expected))
    for s, schema, expected in subjects:
        if s['warm']:
            for i in s['insts']:
                if expected[i] is not None:
                    evaluate(schema, instances[i])

    changes = [0]

    def state():
        web.off, out = True, {}
        try:
            for c in CACHES + [f'twin-{c}' for c in CACHES] + ['__meta__']:
                for u in known:
                    try:
                        out[c, u] = cat.get_schema(URI(u), cacheid=c)
                    except CatalogError:
                        out[c, u] = None
        finally:
            web.off = False
        return out

    def judge(op, what, watch=True):
        if op['subject'] >= len(subjects):
            raise Skip
        s, schema, expected = subjects[op['subject']]
        want = expected.get(op['inst'])
        if want is None:
            return
        inside = op.get('inside')
        before = state() if watch and not inside else None
        count = [0]

        def hook(kind, data):
            count[0] += 1
            if inside and count[0] == inside[0]:
                me = 'main'
                depth, evaluating[me] = evaluating.get(me, 0), 0
                try:
                    perform(inside[1], f'{what}, from inside')
                finally:
                    evaluating[me] = depth

        if watch:
            control.fn = hook
        got = evaluate(schema, instances[op['inst']])
        if watch:
            control.fn = None
        ctx.checks += 1
        ctx.state('evaluate', got['valid'], changes[0])
        d = difference(got, want)
        if d:
            raise Violation('wrong-result', f'{what}: {s["uri"]} on {brief(corpus["instances"][op["inst"]])}: {d}')
        if before is not None:
            ctx.checks += 1
            after = state()
            for k in before:
                if after[k] is not before[k]:
                    raise Violation('evaluation-changes-cache', f'{what}: {k[1]} in cache {k[0]}')
        if changes[0]:
            ctx.nontrivial = True

    def perform(op, what):
        changes[0] += 1
        ctx.fault(f'catalog-change-{op["op"]}')
        fault = op.get('fault')
        try:
            if fault:
                inj = Injector(boot.PREFIX, 'line', fault['n'], getattr(builtins, fault['exc'])('simulated'), ('atomic.py',), True)
                with inj:
                    change(op)
            else:
                change(op)
            outcome = 'ok'
        except (Violation, Skip):
            raise
        except BaseException as e:
            outcome = type(e).__name__
        ctx.ev(what, op['op'], op['uri'], op['cache'], outcome)
        ctx.state(op['op'], outcome)

    def change(op):
        name, uri, cache, n = op['op'], URI(op['uri']), op['cache'], op['n']
        if name == 'delete':
            cat.del_schema(uri, cacheid=cache)
        elif name == 'clear':
            for u in known:
                cat.del_schema(URI(u), cacheid=cache)
        elif name == 'new':
            JSONSchema(op['value'], uri=uri, catalog=cat, cacheid=cache, metaschema_uri=meta)
        elif name == 'embedded':
            JSONSchema({'$defs': {'a': {'$id': op['uri'].split('#')[0], 'not': {}, '$anchor': 'one'}}}, catalog=cat, cacheid=cache,
                       uri=URI('https://s.test/intruder'), metaschema_uri=meta)
        elif name == 'add':
            cat.add_schema(uri, JSONSchema(op['value'], catalog=cat, cacheid='other', metaschema_uri=meta), cacheid=cache)
        elif name == 'end':
            if not ended[0]:
                ended[0] = True
                context.__exit__(None, None, None)
        elif name == 'sources':
            if n % 3 == 0:
                for u in list(docs):
                    web.always_fail[u] = 'OSError'
            else:
                class Other(jschon.catalog.Source):
                    def __call__(self, relative_path):
                        web.fetch('')
                        return op['value']
                for prefix in ('https://s.test/', 'https://s.test/dir/', None):
                    cat.add_uri_source(URI(prefix) if prefix else None, Other())
        elif name == 'documents':
            for u in corpus['docs']:
                docs[u] = op['value']
            cat.del_schema(URI(op['other']), cacheid=cache)
            cat.get_schema(URI(op['other']), cacheid=cache, metaschema_uri=meta)
        elif name == 'format':
            @format_validator(hooks.FORMAT, instance_types=('null', 'boolean', 'number', 'string', 'array', 'object'))
            def validate(data):
                control('format', data)
                if not hooks.odd(data):
                    raise ValueError('opposite')

            if n % 2:
                format_validator('b')(lambda data: None)
            cat.enable_formats('b', 'email', 'date')
        elif name == 'vocabulary':
            class Opposite(Keyword):
                key = ['x-hook', 'type', '$ref', 'properties', 'title'][n % 5]

                def evaluate(self, instance, result):
                    result.fail('opposite')

            names = metas.VOCABS[draft]
            cat.create_vocabulary(URI([hooks.VOCAB, metas.vocab_uri(draft, names[n % len(names)])][n % 2]), Opposite)
        elif name == 'metaschema':
            u = [URI(hooks.META), URI(refeval.SCHEMA_URI[draft]), URI(metas.meta_of(draft, 'core')), meta][n % 4]
            if n % 3:
                cat.del_schema(u, cacheid='__meta__')
            if n % 3 > 1:
                docs[hooks.META] = metas.make(hooks.META, draft, 'small')
                web.overlay[refeval.SCHEMA_URI[draft]] = lambda: metas.make(refeval.SCHEMA_URI[draft], draft, 'strict')
                cat.create_metaschema(u)
            if n % 3 == 0:
                cat.add_schema(u, JSONSchema(op['value'], catalog=cat, cacheid='other', metaschema_uri=meta), cacheid='__meta__')
        elif name == 'get':
            cat.get_schema(uri, cacheid=cache, metaschema_uri=meta)
        elif name == 'bad':
            doc = corpus['docs'].get(op['other'])
            bad = {**doc, 'allOf': [{'$ref': '#/nowhere/at/all'}]} if isinstance(doc, dict) else {'$ref': '#/nowhere'}
            JSONSchema(bad, uri=URI(op['other']), catalog=cat, cacheid=cache, metaschema_uri=meta)
        elif name == 'catalog':
            c = Catalog(name=cat.name)
            c.create_vocabulary(URI(metas.vocab_uri(draft, 'core')))
        elif name == 'scribble':
            for doc in web.handed:
                scribble(doc, n)
        elif name == 'collect':
            gc.collect()

    for step, op in enumerate(plan['ops']):
        what = f'step {step}'
        if op['op'] == 'evaluate':
            judge(op, what)
        elif op['op'] == 'threads':
            s = Scheduler(ctx, op['sched'], boot.PREFIX)

            def body(t, ops):
                def f():
                    for n, o in enumerate(ops):
                        if o['op'] == 'evaluate':
                            judge(o, f'{what}, thread {t}', watch=False)
                        else:
                            perform(o, f'{what}, thread {t}')
                return f

            for t, ops in enumerate(op['threads']):
                s.spawn(body(t, ops))
            changes[0] += 1
            for status, value in s.run():
                if status == 'exc':
                    raise value
        else:
            perform(op, what)
    for n, (s, schema, expected) in enumerate(subjects):
        for i in s['insts']:
            judge({'subject': n, 'inst': i}, 'in the end')


def shrink(plan):
    for ops in list_shrinks(plan['ops']):
        yield dict(plan, ops=ops)
    for i, op in enumerate(plan['ops']):
        def alt(**kw):
            return dict(plan, ops=plan['ops'][:i] + [{**op, **kw}] + plan['ops'][i + 1:])
        if op.get('fault'):
            yield alt(fault=None)
        if op.get('inside'):
            yield alt(inside=None)
        if op['op'] == 'threads':
            for ts in list_shrinks(op['threads']):
                if ts:
                    yield alt(threads=ts)
            for j, t in enumerate(op['threads']):
                for ops in list_shrinks(t):
                    yield alt(threads=op['threads'][:j] + [ops] + op['threads'][j + 1:])
    for i, s in enumerate(plan['subjects']):
        if len(s['insts']) > 1:
            for insts in list_shrinks(s['insts']):
                if insts:
                    yield dict(plan, subjects=plan['subjects'][:i] + [dict(s, insts=insts)] + plan['subjects'][i + 1:])
        if s['warm']:
            yield dict(plan, subjects=plan['subjects'][:i] + [dict(s, warm=False)] + plan['subjects'][i + 1:])
    if len(plan['subjects']) > 1:
        yield dict(plan, subjects=plan['subjects'][:-1])
    for c in shrink_corpus(plan['corpus']):
        yield dict(plan, corpus=c)
