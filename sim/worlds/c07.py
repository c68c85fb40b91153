"""C07: verdicts depend only on the documents, not on how they were loaded."""
import json

from sim import boot, seams
from sim.corpus import Oracle, Web, catalog_for, gen_corpus, meta_uri, shrink_corpus, shuffled
from sim.kernel import Skip, Violation, derive
from sim.refeval import SCHEMA_URI
from sim.runner import list_shrinks
from sim.values import brief

PID = 'C07'
DRAFTS = ('2019-09', '2020-12', 'next')
RUNS = {'quick': 20000, 'thorough': 110000}
RULE = ('A case is a set of 1-4 generated interlinked schema documents (relative and absolute references, anchors, '
        'embedded resources, dynamic and recursive references, unevaluated* keywords, one or both drafts), instances, '
        'and 1-3 histories of lookups, direct constructions and failing loads in separate caches, with object members '
        'shuffled. Non-trivial: verdicts were compared in at least two different caches, or after a failed load.')
MEASURE = 'hash of the sequence of (action, outcome) and of all verdicts'
REAL = ['jschon.jsonschema', 'jschon.catalog', 'jschon.vocabulary', 'jschon.uri', 'jschon.jsonpointer', 'jschon.json', 'rfc3986']
STUB = ['sources (in memory, failing on demand)']
ASSUMPTIONS = ['The reference evaluator (sim/refeval.py) was cross-checked against python-jsonschema during development.',
               'Documents are identified by the URI they are retrieved by; resources embedded in a document are '
               'referenced from inside that document only.']
ERRORS = ['CatalogError', 'OSError', 'ValueError', 'KeyError', 'RuntimeError', 'TimeoutError', 'ConnectionError']
NEXT = 'https://json-schema.org/draft/next/schema'


def as_next(x):
    """Documents for 2020-12, for the next draft."""
    if isinstance(x, dict):
        x = {k: as_next(v) for k, v in x.items()}
        if isinstance(x.get('$id'), str):
            # no fragments, not even empty ones
            x['$id'] = x['$id'].removesuffix('#')
        if x.get('$schema') == SCHEMA_URI['2020-12']:
            x['$schema'] = NEXT
        return x
    return [as_next(v) for v in x] if isinstance(x, list) else x


def gen(rng, tier):
    corpus = gen_corpus(rng, dense=0.25)
    o = Oracle(corpus)
    targets = o.targets()
    uris = list(corpus['docs'])
    histories = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        acts = []
        for _ in range(rng.choice([0, 1, 2, 4])):
            k = rng.random()
            if k < 0.45:
                acts.append({'act': 'get', 'uri': rng.choice(uris)})
            elif k < 0.65:
                t, doc = rng.choice(targets)
                acts.append({'act': 'get', 'uri': t, 'doc': doc})
            elif k < 0.8:
                acts.append({'act': 'new', 'uri': rng.choice(uris), 'with': rng.choice(['uri', 'doc-id'])})
            else:
                acts.append({'act': 'fault', 'uri': rng.choice(uris), 'exc': rng.choice(ERRORS), 'n': rng.choice([1, 1, 2])})
        for _ in range(rng.choice([0, 2, 4])):
            t, doc = rng.choice(targets)
            acts.append({'act': 'eval', 'uri': t, 'doc': doc, 'inst': rng.randrange(len(corpus['instances']))})
        histories.append({'acts': acts, 'shuffle': rng.choice([None, rng.getrandbits(30)]),
                          'order': rng.sample(uris, len(uris)), 'cache': rng.choice(['default', 'cm', 'named'])})
    if histories:
        for h in histories[1:]:
            if h['cache'] == 'default':
                h['cache'] = 'named'
    return {'corpus': corpus, 'histories': histories,
            # the coming draft, as far as jschon has it, gives the verdicts of 2020-12
            'next': corpus.get('mode') == '2020-12' and rng.random() < 0.15}


def run(plan, ctx):
    import jschon
    from jschon import JSON, JSONSchema, URI
    from jschon.exc import CatalogError
    seams.env = seams.Environment(ctx)
    corpus = plan['corpus']
    oracle = Oracle(corpus)
    if plan.get('next'):
        cat, meta = boot.catalogs['next'], URI(NEXT)
        docs = as_next(corpus['docs'])
        ctx.probe('next')
    else:
        cat, meta, docs = catalog_for(corpus), meta_uri(corpus['draft']), corpus['docs']
    web = Web(ctx, docs)
    web.install(cat)
    instances = [JSON(i) for i in corpus['instances']]
    compared = [0]
    failed = [0]

    def attempt(f, what):
        """Do f, which may only fail if a source does."""
        while True:
            before = ctx.faults['source-fails']
            try:
                return f()
            except CatalogError as e:
                if ctx.faults['source-fails'] == before:
                    raise Violation('spurious-failure', f'{what}: CatalogError: {e}')
                failed[0] += 1
                ctx.probe('retries')
            except Exception as e:
                raise Violation('spurious-failure', f'{what}: {type(e).__name__}: {str(e)[:200]}')

    def get(uri, cacheid):
        return attempt(lambda: cat.get_schema(URI(uri), metaschema_uri=meta, cacheid=cacheid), f'get_schema({uri})')

    def judge(uri, i, schema):
        expect = oracle.verdict(uri, i)
        if expect is None:
            ctx.probe('no reference verdict')
            return
        got = schema.evaluate(instances[i]).valid
        compared[0] += 1
        ctx.checks += 1
        if got is not expect:
            raise Violation('wrong-verdict', f'{uri} says {got} to {brief(corpus["instances"][i])}, should say {expect}')
        ctx.state(uri, i, got)

    def history(h, cacheid):
        web.fail.clear()
        web.shuffle = derive(h['shuffle']) if h['shuffle'] is not None else None
        loaded = set()
        for act in h['acts']:
            name, uri = act['act'], act['uri']
            if name == 'fault':
                web.fail.setdefault(uri, []).extend([act['exc']] * act['n'])
            elif name == 'new':
                if uri not in corpus['docs']:
                    raise Skip
                doc = json.loads(json.dumps(docs[uri]))
                if web.shuffle:
                    doc = shuffled(doc, web.shuffle)
                kw = {'uri': URI(uri)}
                if act['with'] == 'doc-id' and isinstance(doc, dict) and '$id' in doc and ':' in doc['$id']:
                    kw = {}
                attempt(lambda: JSONSchema(doc, catalog=cat, cacheid=cacheid, metaschema_uri=meta, **kw), f'JSONSchema({uri})')
                loaded.add(uri)
            else:
                try:
                    oracle.reg.lookup(uri)
                except Exception:
                    raise Skip
                if act.get('doc', uri) not in corpus['docs']:
                    raise Skip
                base = uri.split('#')[0]
                if base not in corpus['docs'] and act['doc'] not in loaded:
                    get(act['doc'], cacheid)       # an embedded resource is known once its document is
                    loaded.add(act['doc'])
                schema = get(uri, cacheid)
                loaded.add(act.get('doc', uri))
                if name == 'eval':
                    if act['inst'] >= len(instances):
                        raise Skip
                    judge(uri, act['inst'], schema)
            ctx.ev(name, uri)
            ctx.state(name, uri)
        for uri in h['order']:
            if uri in corpus['docs']:
                schema = get(uri, cacheid)
                for i in range(len(instances)):
                    judge(uri, i, schema)

    used = 0
    for n, h in enumerate(plan['histories']):
        if h['cache'] == 'cm':
            with cat.cache() as cacheid:
                history(h, cacheid)
        else:
            history(h, 'default' if h['cache'] == 'default' else f'cache-{n}')
        used += 1
    ctx.ev('compared', compared[0])
    ctx.nontrivial = compared[0] > 0 and (used > 1 or failed[0] > 0)


def shrink(plan):
    for hs in list_shrinks(plan['histories']):
        if hs:
            yield dict(plan, histories=hs)
    for i, h in enumerate(plan['histories']):
        for acts in list_shrinks(h['acts']):
            yield dict(plan, histories=plan['histories'][:i] + [dict(h, acts=acts)] + plan['histories'][i + 1:])
        if h['shuffle'] is not None:
            yield dict(plan, histories=plan['histories'][:i] + [dict(h, shuffle=None)] + plan['histories'][i + 1:])
    if plan.get('next'):
        yield dict(plan, next=False)
    for c in shrink_corpus(plan['corpus']):
        yield dict(plan, corpus=c)
