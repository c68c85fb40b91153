"""C08: concurrent evaluations do not influence each other."""
from sim import boot, hooks, sched, seams
from sim.corpus import Oracle, Web, catalog_for, gen_corpus, meta_uri, shrink_corpus
from sim.inject import Injector
from sim.kernel import Skip, Violation
from sim.outcome import capture, difference
from sim.runner import list_shrinks
from sim.sched import Scheduler, gen_sched
from sim.values import brief

PID = 'C08'
DRAFTS = ('2019-09', '2020-12')
RUNS = {'quick': 5000, 'thorough': 60000}
FORMATS = ['flag', 'basic', 'detailed', 'verbose', 'hierarchical']
RULE = ('A case is a set of 1-3 interlinked schema documents, constructed twice, with shared instances, and 2-4 threads that '
        'evaluate (sub)schemas and read the output, validate schemas against their metaschema, and (up to one of them) '
        'construct, load, replace and delete schemas, under a schedule. Non-trivial: two evaluations overlapped.')
MEASURE = 'hash of the sequence of context switches (threads, source line) and of verdicts'
REAL = ['jschon.jsonschema', 'jschon.output', 'jschon.catalog', 'jschon.vocabulary', 'jschon.formats machinery', 'jschon.atomic',
        'jschon.uri', 'jschon.jsonpointer', 'jschon.json', 'real Python threads']
STUB = ['thread scheduling and locks', 'sources (in memory)']
ASSUMPTIONS = ['Threads can be switched at every line, jump, call and return of jschon code, and in format validators.',
               'What an evaluation gives when it runs alone is taken from a second construction of the same documents.']


def gen(rng, tier):
    corpus = gen_corpus(rng, ndocs=(1, 4), dense=0.4)
    keyword = corpus['mode'] == '2020-12' and rng.random() < 0.2
    if rng.random() < 0.6:
        hooks.sprinkle(rng, corpus['docs'], rng.choice([0.1, 0.3]), keyword)
    oracle = Oracle(corpus)
    targets = oracle.targets()
    uris = list(corpus['docs'])
    n = rng.choice([2, 2, 3, 4])
    hot = rng.choice(uris)
    hot_inst = rng.randrange(len(corpus['instances']))
    focus = rng.random() < 0.4  # all on the same schema, with different instances
    threads = []
    for t in range(n):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.random()
            if k < 0.9:
                for _ in range(6):
                    u, d = (hot, hot) if focus or rng.random() < 0.5 else rng.choice(targets)
                    i = hot_inst if not focus and rng.random() < 0.5 else rng.randrange(len(corpus['instances']))
                    if oracle.verdict(u, i) is not None:
                        break
                ops.append({'op': 'eval', 'uri': u, 'doc': d, 'formats': rng.sample(FORMATS, rng.choice([0, 1, 2])), 'inst': i})
            else:
                ops.append({'op': 'validate', 'uri': rng.choice(uris)})
        threads.append(ops)
    if rng.random() < 0.4:
        threads[-1] = [{'op': rng.choice(['new', 'get', 'del', 'context', 'source', 'formats', 'vocabulary']), 'uri': rng.choice(uris)}
                       for _ in range(rng.choice([1, 2, 4]))]
    return {'corpus': corpus, 'keyword': keyword, 'threads': threads, 'warm': rng.random() < 0.3,
            'nest': rng.random() < 0.2, 'sched': gen_sched(rng, n, rng.choice([1000, 5000, 40000]))}


def run(plan, ctx):
    import jschon
    from jschon import JSON, JSONSchema, URI
    seams.env = seams.Environment(ctx)
    corpus = plan['corpus']
    oracle = Oracle(corpus)
    cat = catalog_for(corpus)
    docs = dict(corpus['docs'])
    web = Web(ctx, docs)
    web.install(cat)
    control = hooks.Controller()
    meta = hooks.install(cat, corpus['draft'], docs, control, plan['keyword'])

    def build(c):
        out = {}
        for u in corpus['docs']:
            out[u] = cat.get_schema(URI(u), metaschema_uri=meta, cacheid=c)
        return out, [JSON(i) for i in corpus['instances']]

    twins, twin_instances = build('twin')
    subjects, instances = build('subject')
    schema_of = {}
    expected = {}

    def alone(f, formats=FORMATS):
        with Injector(boot.PREFIX, 'line') as count:
            out = capture(f(), formats)
        if count.count > 40000:
            ctx.probe('expensive')
        return out if count.count <= 40000 else None

    for ops in plan['threads']:
        for op in ops:
            if op.get('doc', op['uri']) not in corpus['docs']:
                raise Skip
            if op['op'] == 'eval':
                if op['inst'] >= len(instances):
                    raise Skip
                key = op['uri'], op['inst']
                if key in expected:
                    continue
                expected[key] = None
                try:
                    if oracle.verdict(*key) is None:
                        ctx.probe('no verdict')
                        continue
                    twin = cat.get_schema(URI(op['uri']), cacheid='twin')
                    expected[key] = alone(lambda: twin.evaluate(twin_instances[op['inst']]))
                except RecursionError:
                    continue
                except oracle_errors() as e:
                    raise Skip
                schema_of[op['uri']] = cat.get_schema(URI(op['uri']), cacheid='subject')
            elif op['op'] == 'validate':
                expected['validate', op['uri']] = alone(lambda: twins[op['uri']].validate(), ['flag'])
    if plan['warm']:
        for (u, i) in list(expected):
            if u != 'validate' and expected[u, i] is not None:
                schema_of[u].evaluate(instances[i])

    active = set()
    overlapped = [0]
    busy = {}

    def hook(kind, data):
        s = sched.current
        if s is None or s.me() is None:
            return
        s.point()
        tid = s.me().tid
        if plan['nest'] and not busy.get(tid):
            busy[tid] = True
            try:
                for key in sorted((k for k in expected if k[0] != 'validate' and expected[k] is not None), key=str)[:1]:
                    got = schema_of[key[0]].evaluate(instances[key[1]])
                    ctx.checks += 1
                    if got.valid is not expected[key]['valid']:
                        raise Violation('wrong-result', f'nested evaluation of {key[0]}: {got.valid}')
            finally:
                busy[tid] = False

    control.fn = hook

    def compare(key, result, formats, what):
        got = capture(result, formats)
        want = {k: expected[key][k] for k in got}
        ctx.checks += 1
        d = difference(got, want)
        if d:
            raise Violation('wrong-result', f'{what}: {d}')

    def client(tid, ops):
        def body():
            for n, op in enumerate(ops):
                name, uri = op['op'], op['uri']
                what = f'thread {tid}, operation {n} ({name} {uri})'
                if name in ('eval', 'validate'):
                    key = (uri, op['inst']) if name == 'eval' else (name, uri)
                    if expected[key] is None:
                        ctx.probe('no reference result')
                        continue
                    active.add(tid)
                    switches = ctx.switches
                    others = len(active) > 1
                    if name == 'eval':
                        r = schema_of[uri].evaluate(instances[op['inst']])
                    else:
                        r = subjects[uri].validate()
                    compare(key, r, op.get('formats', ['flag']), what)
                    if (others or len(active) > 1) and ctx.switches > switches:
                        overlapped[0] += 1
                    active.discard(tid)
                    ctx.ev(tid, n, name, uri, 'valid' if r.valid else 'invalid')
                    ctx.state(tid, n, r.valid)
                    continue
                ctx.fault(f'catalog-change-{name}')
                if name == 'new':
                    JSONSchema(docs[uri], uri=URI(uri), catalog=cat, cacheid='subject', metaschema_uri=meta)
                elif name == 'get':
                    cat.get_schema(URI(uri), cacheid='other', metaschema_uri=meta)
                elif name == 'del':
                    cat.del_schema(URI(uri), cacheid='subject')
                elif name == 'context':
                    with cat.cache() as c:
                        cat.get_schema(URI(uri), cacheid=c, metaschema_uri=meta)
                elif name == 'source':
                    cat.add_uri_source(URI('https://u.test/'), jschon.catalog.LocalSource('/nonexistent'))
                elif name == 'formats':
                    cat.enable_formats('email', 'date')
                elif name == 'vocabulary':
                    cat.create_vocabulary(URI('https://x.test/vocab/other'))
                ctx.ev(tid, n, name, uri)
        return body

    s = Scheduler(ctx, plan['sched'], boot.PREFIX)
    for tid, ops in enumerate(plan['threads']):
        s.spawn(client(tid, ops))
    for status, value in s.run():
        if status == 'exc':
            raise value
    control.fn = None
    # and once more, alone
    for key in sorted((k for k in expected if expected[k] is not None), key=str):
        r = subjects[key[1]].validate() if key[0] == 'validate' else schema_of[key[0]].evaluate(instances[key[1]])
        compare(key, r, ['flag'] if key[0] == 'validate' else FORMATS, f'afterwards, {key[0]}')
    ctx.nontrivial = overlapped[0] > 0


def oracle_errors():
    from sim.refeval import Unresolvable
    return (Unresolvable,)


def shrink(plan):
    ts = plan['threads']
    for i in range(len(ts)):
        if len(ts) > 2:
            yield dict(plan, threads=ts[:i] + ts[i + 1:])
        for ops in list_shrinks(ts[i]):
            yield dict(plan, threads=ts[:i] + [ops] + ts[i + 1:])
        for j, op in enumerate(ts[i]):
            if op.get('formats'):
                yield dict(plan, threads=ts[:i] + [ts[i][:j] + [dict(op, formats=[])] + ts[i][j + 1:]] + ts[i + 1:])
    for k in ('warm', 'nest'):
        if plan[k]:
            yield dict(plan, **{k: False})
    for c in shrink_corpus(plan['corpus']):
        yield dict(plan, corpus=c)
