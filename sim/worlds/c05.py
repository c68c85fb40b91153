"""C05: threads sharing a catalog never see half-built schemas."""
from sim import boot, metas, sched, seams
from sim.corpus import Oracle, Web, catalog_for, gen_corpus, meta_uri, shrink_corpus
from sim.kernel import Skip, Violation
from sim.lin import Op, linearizable
from sim.runner import list_shrinks
from sim.sched import Scheduler, gen_sched
from sim.values import brief

PID = 'C05'
DRAFTS = ('2019-09', '2020-12')
RUNS = {'quick': 4500, 'thorough': 90000}
RULE = ('A case is a set of 1-4 interlinked schema documents served by slow or failing sources, 2-4 threads with 1-5 '
        'operations each (lookups of documents, embedded resources, anchors and pointers, direct constructions, deletions, '
        'metaschema lookups, evaluations, cache contexts), and a schedule. Non-trivial: threads were switched while at least '
        'two of them had an operation in progress.')
MEASURE = 'hash of the sequence of context switches (threads, source line) and of operation outcomes'
REAL = ['jschon.jsonschema', 'jschon.catalog', 'jschon.vocabulary', 'jschon.atomic', 'jschon.uri', 'jschon.jsonpointer',
        'jschon.json', 'rfc3986', 'real Python threads']
STUB = ['thread scheduling and locks (one thread at a time, chosen by the simulator)', 'sources (in memory, slow or failing on demand)']
ASSUMPTIONS = ['Threads can be switched at every line, jump, call and return of jschon code, at lock operations and in sources.']
ERRORS = ['CatalogError', 'OSError', 'ValueError', 'TimeoutError', 'KeyboardInterrupt']
META_URIS = ['https://s.test/meta/one', 'https://s.test/dir/meta/two']


def gen(rng, tier):
    corpus = gen_corpus(rng, ndocs=(1, 4))
    targets = Oracle(corpus).targets()
    uris = list(corpus['docs'])
    n = rng.choice([2, 2, 2, 3, 3, 4])
    caches = rng.choice([['default'], ['default'], ['default', 'c1']])
    hot = rng.choice(uris)
    threads = []
    meta = rng.random() < 0.15
    for t in range(n):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            k = rng.random()
            c = rng.choice(caches)
            if meta and k < 0.5:
                ops.append({'op': rng.choice(['meta', 'meta', 'use-meta']), 'uri': rng.choice(META_URIS), 'cache': c})
            elif k < 0.5:
                ops.append({'op': 'get', 'uri': hot if rng.random() < 0.5 else rng.choice(uris), 'cache': c})
            elif k < 0.65:
                u, d = rng.choice(targets)
                ops.append({'op': 'get', 'uri': u, 'doc': d, 'cache': c})
            elif k < 0.78:
                ops.append({'op': 'new', 'uri': hot if rng.random() < 0.4 else rng.choice(uris), 'cache': c})
            elif k < 0.84:
                ops.append({'op': 'del', 'uri': hot if rng.random() < 0.4 else rng.choice(uris), 'cache': c})
            elif k < 0.88:
                ops.append({'op': 'read', 'uri': rng.choice(uris), 'cache': c, 'back': rng.choice([None, hot, rng.choice(uris)])})
            elif k < 0.94:
                ops.append({'op': 'bad', 'uri': rng.choice(uris), 'cache': c})
            else:
                ops.append({'op': 'context', 'uri': rng.choice(uris)})
            ops[-1]['insts'] = [rng.randrange(len(corpus['instances'])) for _ in range(rng.choice([0, 1, 1, 2]))]
        threads.append(ops)
    return {'corpus': corpus, 'threads': threads, 'warm': [rng.choice(uris) for _ in range(rng.choice([0, 0, 0, 1]))],
            'fail': [[rng.choice(uris), rng.choice(ERRORS)] for _ in range(rng.choice([0, 0, 1, 2]))],
            'slow': rng.choice([None, 0.01, 1.0]), 'variants': [rng.choice(metas.VALID), rng.choice(metas.VALID)],
            'sched': gen_sched(rng, n, rng.choice([4000, 30000]))}


def run(plan, ctx):
    from jschon import JSON, JSONSchema, URI
    from jschon.exc import CatalogError
    seams.env = seams.Environment(ctx)
    corpus = plan['corpus']
    oracle = Oracle(corpus)
    cat = catalog_for(corpus)
    meta = meta_uri(corpus['draft'])
    draft = corpus['draft']
    docs = dict(corpus['docs'])
    for u, v in zip(META_URIS, plan['variants']):
        docs[u] = metas.make(u, draft, v)
    web = Web(ctx, docs)
    web.install(cat)
    instances = [JSON(i) for i in corpus['instances']]
    meta_probes = {u: [(JSON(d), e) for d, e in metas.probes(v, draft)] for u, v in zip(META_URIS, plan['variants'])}

    def judge(uri, schema, insts, what):
        for i in insts:
            if i >= len(instances):
                raise Skip
            expect = oracle.verdict(uri, i)
            if expect is None:
                ctx.probe('no reference verdict')
                continue
            got = schema.evaluate(instances[i]).valid
            ctx.checks += 1
            if got is not expect:
                raise Violation('wrong-verdict', f'{what}: {uri} says {got} to {brief(corpus["instances"][i])}, should say {expect}')

    for u in plan['warm']:
        if u in docs:
            cat.get_schema(URI(u), metaschema_uri=meta)
    history = []      # (cache, Op fields)
    clock = [0]
    failed_here = {}  # tid -> source failures
    active = set()

    def tick():
        clock[0] += 1
        return clock[0]

    def hook(uri):
        s = sched.current
        if s is None:
            return
        if plan['slow']:
            ctx.fault('source-slow')
            seams.env.sleep(plan['slow'])
        for f in fails:
            if f[0] == uri:
                fails.remove(f)
                tid = s.me().tid
                failed_here[tid] = failed_here.get(tid, 0) + 1
                ctx.fault('source-fails')
                from sim.corpus import make_exc
                raise make_exc(f[1])
        if back.get(s.me().tid):
            # a source that itself needs a schema
            op = back.pop(s.me().tid)
            ctx.probe('source uses the catalog')
            cat.get_schema(URI(op['back']), metaschema_uri=meta, cacheid=op['cache'])

    back = {}
    fails = [list(f) for f in plan['fail']]
    web.hook = hook
    keep = []

    def perform(tid, n, op):
        name, uri = op['op'], op['uri']
        what = f'thread {tid}, operation {n} ({name} {uri})'
        c = op.get('cache')
        if name in ('meta', 'use-meta'):
            if name == 'meta':
                m = cat.get_metaschema(URI(uri))
            else:
                s = JSONSchema({'$schema': uri, 'title': 'strict', 'minLength': 2}, catalog=cat, cacheid=c)
                if s.evaluate(JSON('a')).valid or not s.evaluate(JSON('ab')).valid:
                    raise Violation('wrong-verdict', f'{what}: the schema using it')
                m = s.metaschema
            for inst, expect in meta_probes[uri]:
                ctx.checks += 1
                if m.evaluate(inst).valid is not expect:
                    raise Violation('wrong-verdict', f'{what}: metaschema on {brief(inst.value)}')
            return m
        if op.get('doc', uri) not in corpus['docs']:
            raise Skip
        if name == 'get':
            if uri not in docs and uri.split('#')[0] not in docs:
                # an embedded resource: known once its document is
                cat.get_schema(URI(op['doc']), metaschema_uri=meta, cacheid=c)
                try:
                    oracle.reg.lookup(uri)
                except Exception:
                    raise Skip
            schema = cat.get_schema(URI(uri), metaschema_uri=meta, cacheid=c)
            judge(uri, schema, op['insts'], what)
            return schema
        if name == 'new':
            schema = JSONSchema(docs[uri], uri=URI(uri), catalog=cat, cacheid=c, metaschema_uri=meta)
            judge(uri, schema, op['insts'], what)
            return schema
        if name == 'del':
            cat.del_schema(URI(uri), cacheid=c)
            return None
        if name == 'bad':
            # replaces the document for a while, and fails
            doc = docs[uri]
            bad = {**doc, 'allOf': [{'$ref': '#/nowhere/at/all'}]} if isinstance(doc, dict) else {'$ref': '#/nowhere'}
            JSONSchema(bad, uri=URI(uri), catalog=cat, cacheid=c, metaschema_uri=meta)
            return None
        if name == 'read':
            if op['back'] in docs:
                back[tid] = op
            try:
                doc = cat.load_json(URI(uri))
            finally:
                back.pop(tid, None)
            ctx.checks += 1
            if doc != docs[uri]:
                raise Violation('wrong-document', f'{what}: {brief(doc)}')
            return None
        if name == 'context':
            with cat.cache() as cid:
                s1 = cat.get_schema(URI(uri), metaschema_uri=meta, cacheid=cid)
                judge(uri, s1, op['insts'], what)
                s2 = cat.get_schema(URI(uri), metaschema_uri=meta, cacheid=cid)
                if s1 is not s2:
                    raise Violation('not-shared', f'{what}: two lookups in a private cache')
            return None

    overlapped = [False]

    def client(tid, ops):
        def body():
            for n, op in enumerate(ops):
                before = failed_here.get(tid, 0)
                active.add(tid)
                inv = tick()
                switches = ctx.switches
                try:
                    r = perform(tid, n, op)
                    err = None
                except (Violation, Skip):
                    raise
                except BaseException as e:
                    r, err = None, e
                ret = tick()
                if len(active) > 1 and ctx.switches > switches:
                    overlapped[0] = True
                active.discard(tid)
                keep.append(r)
                ctx.ev(f'{tid}.{n}', op['op'], op['uri'], 'ok' if err is None else type(err).__name__)
                ctx.state(tid, op['op'], type(err).__name__)
                if op['op'] == 'bad':
                    if err is None or not isinstance(err, CatalogError) and failed_here.get(tid, 0) == before:
                        raise Violation('wrong-outcome', f'thread {tid}, operation {n} ({op["op"]} {op["uri"]}): {err!r:.200}')
                elif err is not None:
                    if failed_here.get(tid, 0) == before:
                        raise Violation('spurious-failure', f'thread {tid}, operation {n} ({op["op"]} {op["uri"]}): '
                                                            f'{type(err).__name__}: {str(err)[:200]}')
                    ctx.probe('failed with its source')
                elif failed_here.get(tid, 0) != before:
                    raise Violation('fault-ignored', f'thread {tid}, operation {n} ({op["op"]} {op["uri"]})')
                else:
                    history.append((inv, ret, tid, n, op, r))
        return body

    s = Scheduler(ctx, plan['sched'], boot.PREFIX)
    for tid, ops in enumerate(plan['threads']):
        s.spawn(client(tid, ops))
    for tid, (status, value) in enumerate(s.run()):
        if status == 'exc':
            raise value
    web.hook = None
    # identity
    for c in ('default', 'c1', '__meta__'):
        ops = []
        for inv, ret, tid, n, op, r in history:
            name, uri = op['op'], op['uri']
            if name in ('meta', 'use-meta'):
                if c == '__meta__':
                    ops.append(Op(inv, ret, name, getter(uri, id(r)), id(r)))
            elif op.get('cache') == c:
                if name == 'get' and uri in corpus['docs']:
                    ops.append(Op(inv, ret, name, getter(uri, id(r)), id(r)))
                elif name == 'new':
                    ops.append(Op(inv, ret, name, setter(uri, id(r)), id(r)))
                elif name == 'del':
                    ops.append(Op(inv, ret, name, deleter(uri), None))
        ctx.checks += 1
        if ops and not linearizable(ops, ()):
            raise Violation('not-linearizable', f'cache {c}: no order of the operations explains which schema objects they gave: '
                            + '; '.join(f'[{o.inv},{o.ret}] {o.name} -> {str(o.result)[-4:]}' for o in ops))
    # afterwards
    for c in ('default', 'c1'):
        for u in corpus['docs']:
            schema = cat.get_schema(URI(u), metaschema_uri=meta, cacheid=c)
            judge(u, schema, range(len(instances)), 'afterwards')
    ctx.nontrivial = overlapped[0]


def put(state, uri, obj):
    return tuple(sorted([x for x in state if x[0] != uri] + [(uri, obj)]))


def getter(uri, obj):
    """A lookup gives what is known to be cached, or else something else."""
    def apply(state):
        have = dict(state)
        if uri in have:
            return state, have[uri]
        if obj in have.values():
            return state, 'another object'
        return put(state, uri, obj), obj
    return apply


def setter(uri, obj):
    return lambda state: (put(state, uri, obj), obj)


def deleter(uri):
    return lambda state: (tuple(x for x in state if x[0] != uri), None)


def shrink(plan):
    ts = plan['threads']
    for i in range(len(ts)):
        if len(ts) > 2:
            yield dict(plan, threads=ts[:i] + ts[i + 1:])
        for ops in list_shrinks(ts[i]):
            yield dict(plan, threads=ts[:i] + [ops] + ts[i + 1:])
        for j, op in enumerate(ts[i]):
            if op['insts']:
                yield dict(plan, threads=ts[:i] + [ts[i][:j] + [dict(op, insts=op['insts'][:-1])] + ts[i][j + 1:]] + ts[i + 1:])
    if plan['slow']:
        yield dict(plan, slow=None)
    for f in list_shrinks(plan['fail']):
        yield dict(plan, fail=f)
    for w in list_shrinks(plan['warm']):
        yield dict(plan, warm=w)
    for c in shrink_corpus(plan['corpus']):
        yield dict(plan, corpus=c)
