"""C04: a failed schema construction leaves no trace."""
import collections.abc
import json
import sys
import uuid

from sim import boot, metas, refeval, seams
from sim.corpus import Oracle, Web, catalog_for, gen_corpus, gen_uri, meta_uri, shrink_corpus, unique
from sim.inject import Injector
from sim.kernel import Skip, Violation
from sim.outcome import capture, difference
from sim.refeval import resolve
from sim.runner import list_shrinks
from sim.values import brief

PID = 'C04'
DRAFTS = ('2019-09', '2020-12')
RUNS = {'quick': 8000, 'thorough': 100000}
RULE = ('A case is a set of 1-4 interlinked schema documents of which some are loaded, followed by 1-4 attempts to load or '
        'construct schemas, metaschemas or catalogs, into which a fault is injected (failing source, broken document, '
        'unresolvable reference, refused keyword value, allocation failure, interrupt, exhausted stack, nested failing '
        'attempt made from inside a source), and by retries. Non-trivial: at least one attempt failed after it had begun '
        'to change a cache or had fetched a document.')
MEASURE = 'hash of the sequence of (attempt, fault, exception type, fetches)'
REAL = ['jschon.jsonschema', 'jschon.catalog', 'jschon.vocabulary', 'jschon.atomic', 'jschon.uri', 'jschon.jsonpointer',
        'jschon.json', 'rfc3986']
STUB = ['sources (in memory, failing on demand)', 'uuid (seeded urandom)']
ASSUMPTIONS = ['Cache contents are observed by looking up every URI that the documents involved define, with the sources off.',
               'Interrupts do not strike while another exception is being handled (such as in the rollback itself).']
ERRORS = ['CatalogError', 'OSError', 'ValueError', 'KeyError', 'RuntimeError', 'TypeError', 'AttributeError', 'MemoryError',
          'RecursionError', 'KeyboardInterrupt', 'SystemExit', 'StopIteration', 'GeneratorExit', 'AssertionError']
CACHES = ['default', 'c1', 'c2']
META_URIS = ['https://s.test/meta/one', 'https://s.test/dir/meta/two']

# keyword, value: what makes a schema be refused ('@@...': not JSON)
BREAKS = [
    ['$ref', '#/nowhere'], ['$ref', '#nowhere'], ['$ref', 'https://s.test/no/such/document'], ['$ref', 7],
    ['$dynamicRef', '#/nowhere'], ['$dynamicRef', '#nowhere'], ['$id', 'https://s.test/x#fragment'], ['$id', 5],
    ['$schema', 'not absolute'], ['$schema', 'https://s.test/no/such/metaschema'], ['pattern', '('],
    ['patternProperties', {'(': None}], ['allOf', [3]], ['properties', {'a': 3}], ['items', '@@set'], ['const', '@@set'],
    ['x-any', '@@object'], ['properties', '@@raise'], ['$defs', '@@raise'], ['enum', '@@raise-list'], ['default', '@@raise'],
    ['if', '@@set'], ['anyOf', [True, {'oneOf': [None]}]], ['required', '@@object'], ['x-deep', '@@deep'], ['not', '@@raise'],
]


class Raising(collections.abc.Mapping):
    """A mapping that fails halfway."""

    def __init__(self, data, after, exc):
        self.data, self.after, self.exc = data, after, exc

    def __getitem__(self, k):
        return self.data[k]

    def __len__(self):
        return len(self.data)

    def __iter__(self):
        for n, k in enumerate(self.data):
            if n == self.after:
                raise self.exc
            yield k
        raise self.exc


class RaisingList(collections.abc.Sequence):
    def __len__(self):
        return 3

    def __getitem__(self, i):
        if i == 0:
            return 1
        raise RuntimeError('simulated')


def marker(v):
    if v == '@@set':
        return {1, 2}
    if v == '@@object':
        return object()
    if v == '@@raise':
        return Raising({'a': {'$anchor': 'zz'}, 'b': True}, 1, RuntimeError('simulated'))
    if v == '@@raise-list':
        return RaisingList()
    if v == '@@nan':
        return float('nan')
    if v == '@@deep':
        x = []
        for _ in range(5000):
            x = [x]
        return x
    return json.loads(json.dumps(v))


def broken(doc, b):
    """A copy of `doc` that is refused."""
    doc = json.loads(json.dumps(doc))
    spots = []

    def walk(v):
        if isinstance(v, dict):
            spots.append(v)
            for k, x in v.items():
                if k in refeval.ONE or k == 'items' and isinstance(x, dict):
                    walk(x)
                elif (k in refeval.MANY or k in ('items', 'prefixItems')) and isinstance(x, list):
                    for y in x:
                        walk(y)
                elif k in refeval.NAMED and isinstance(x, dict):
                    for y in x.values():
                        walk(y)

    walk(doc)
    key, value = b['break']
    if not isinstance(doc, dict):
        return marker('@@set')
    if b['where'] == 'defs' or not spots:
        doc.setdefault('$defs', {})
        doc['$defs'] = {**doc['$defs'], 'zzz': {key: marker(value)}}
        if b['first']:
            doc = {'$defs': doc.pop('$defs'), **doc}
        return doc
    spot = spots[b['where'] % len(spots)]
    old = dict(spot)
    spot.clear()
    if b['first']:
        spot[key] = marker(value)
    spot.update({k: v for k, v in old.items() if k != key or not b['first']})
    spot[key] = marker(value)
    return doc


def gen_break(rng):
    return {'break': rng.choice(BREAKS), 'where': rng.choice(['defs', rng.randrange(30), rng.randrange(6), 0]),
            'first': rng.random() < 0.3}


def gen_fault(rng, uris):
    k = rng.random()
    if k < 0.22:
        return {'k': 'source', 'uri': rng.choice(uris), 'exc': rng.choice(ERRORS)}
    if k < 0.34:
        return {'k': 'nth', 'n': rng.choice([1, 1, 2, 2, 3, 4]), 'exc': rng.choice(ERRORS)}
    if k < 0.50:
        return {'k': 'document', 'uri': rng.choice(uris), **gen_break(rng)}
    if k < 0.54:
        return {'k': 'content', 'uri': rng.choice(uris), 'value': rng.choice([None, 3, 'a', [], [{}]])}
    if k < 0.70:
        return {'k': 'alloc', 'frac': rng.random()}
    if k < 0.88:
        return {'k': 'line', 'frac': rng.random(), 'exc': rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError'])}
    if k < 0.96:
        return {'k': 'stack', 'n': rng.choice([20, 30, 40, 50, 60, 80, 100, 130, 170, 220])}
    return None


def gen(rng, tier):
    corpus = gen_corpus(rng)
    targets = [t for t, _ in Oracle(corpus).targets()]
    uris = list(corpus['docs'])
    caches = CACHES[:rng.choice([1, 1, 2, 3])]
    attempts = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        k = rng.random()
        cache = rng.choice(caches)
        if k < 0.35:
            a = {'kind': 'get', 'uri': rng.choice(uris if rng.random() < 0.6 else targets), 'cache': cache,
                 'fault': gen_fault(rng, uris)}
        elif k < 0.75:
            a = {'kind': 'new', 'doc': rng.choice(uris), 'cache': cache, 'fault': gen_fault(rng, uris),
                 'at': rng.choice(['own', 'own', 'none', 'other', 'new'])}
            a['at'] = {'own': a['doc'], 'none': None, 'other': rng.choice(targets).split('#')[0], 'new': 'https://s.test/fresh'}[a['at']]
            if rng.random() < 0.4:
                a['broken'] = gen_break(rng)
        elif k < 0.93:
            a = {'kind': 'meta', 'uri': rng.choice(META_URIS), 'cache': cache,
                 'variant': rng.choice(metas.VALID + 2 * metas.INVALID + metas.REFUSED), 'draft': rng.choice(DRAFTS),
                 'dep': rng.choice([None, None] + uris), 'entry': rng.choice(['create', 'get', 'schema', 'load', 'subschema']),
                 'fault': gen_fault(rng, uris) if rng.random() < 0.6 else None}
            if rng.random() < 0.15:
                a['nested'] = rng.choice(META_URIS)
            elif a['entry'] in ('schema', 'load', 'subschema') and rng.random() < 0.4:
                # there is nothing wrong with the metaschema, but with the schema that uses it
                a['misused'] = rng.choice([['allOf', [{'$ref': 'https://s.test/no/such/document'}]], ['not', {'pattern': '('}],
                                           ['properties', {'p': {'$ref': '#/$defs/nowhere'}}], ['anyOf', 17]])
                a['variant'] = rng.choice(['strict', 'strict', 'full'])
        else:
            a = {'kind': 'catalog', 'name': rng.choice(['catalog', 'fresh', 'fresh', 'other']),
                 'versions': rng.choice([['2020-12'], ['2019-09'], ['2019-09', '2020-12'], ['2020-12', 'bogus'], ['bogus']]),
                 'fault': rng.choice([None, {'k': 'alloc', 'frac': rng.random()},
                                      {'k': 'file', 'n': rng.randrange(12), 'errno': rng.choice([2, 5, 13, 24, 'KeyboardInterrupt', 'SystemExit'])},
                                      {'k': 'stack', 'n': rng.choice([20, 40, 60, 100, 150, 200])}])}
        a['retry'] = rng.random() < 0.4
        if a['kind'] != 'catalog' and rng.random() < 0.2:
            a['inner'] = {'at': rng.choice([1, 1, 2, 3]), 'doc': rng.choice(uris), 'uri': rng.choice(uris + targets),
                          'cache': rng.choice(caches), **gen_break(rng)}
        attempts.append(a)
    return {'corpus': corpus, 'pre': [[rng.choice(uris), rng.choice(caches)] for _ in range(rng.choice([0, 0, 1, 2, 3]))],
            'attempts': attempts, 'order': rng.sample(uris, len(uris))}


def identifiers(doc, base):
    """All URIs that (anything resembling) a schema document may register."""
    out = set()

    def walk(v, base):
        if isinstance(v, list):
            for x in v:
                walk(x, base)
        if isinstance(v, dict):
            if isinstance(v.get('$id'), str):
                try:
                    base = resolve(base, v['$id']).rstrip('#')
                except ValueError:
                    pass
                out.add(base)
            for k in ('$anchor', '$dynamicAnchor'):
                if isinstance(v.get(k), str):
                    out.add(f'{base}#{v[k]}')
            for x in v.values():
                walk(x, base)

    out.add(base)
    walk(doc, base)
    return out


def run(plan, ctx):
    from jschon import JSON, JSONSchema, Catalog, URI, create_catalog
    from jschon.exc import CatalogError
    seams.env = seams.Environment(ctx)
    corpus = plan['corpus']
    oracle = Oracle(corpus)
    cat = catalog_for(corpus)
    meta = meta_uri(corpus['draft'])
    docs = dict(corpus['docs'])
    web = Web(ctx, docs)
    web.install(cat)
    instances = [JSON(i) for i in corpus['instances']]
    caches = list(CACHES) + ['twin', '__meta__']
    candidates = {t for t, _ in oracle.targets() if '#/' not in t}
    for u, d in docs.items():
        candidates |= identifiers(d, u)
    for u in META_URIS + ['https://s.test/fresh', 'https://s.test/x', 'https://s.test/fresh#zz']:
        candidates |= {u, u + '#meta'}
    for u, d in docs.items():
        candidates |= {f'{u}#zz'} | identifiers(d, 'https://s.test/fresh')
        if isinstance(d, dict) and isinstance(d.get('$anchor'), str):
            candidates |= {f'{x}#{d["$anchor"]}' for x in META_URIS}
    for a in plan['attempts']:
        if a.get('at'):
            for d in docs.values():
                candidates |= identifiers(d, a['at'].split('#')[0])
            candidates.add(a['at'])
    candidates = sorted(candidates)
    uris = {}

    def U(s):
        if s not in uris:
            uris[s] = URI(s)
        return uris[s]

    def urns():
        out = []
        for data in seams.env.randoms:
            if len(data) == 16:
                out.append(f'urn:uuid:{uuid.UUID(bytes=data, version=4)}')
        return out

    used = {'default', 'twin', '__meta__'}

    def snapshot():
        web.off = True
        try:
            snap = {}
            for c in caches:
                for s in candidates + [x for u in urns() for x in [u] + [u + '#' + n for n in ('zz', 'one', 'node', 'A')]]:
                    try:
                        snap[c, s] = cat.get_schema(U(s), cacheid=c)
                    except CatalogError:
                        snap[c, s] = None
            names = {}
            for name in ('catalog', 'fresh', 'other', 'sim-2019-09', 'sim-2020-12'):
                try:
                    names[name] = Catalog.get_catalog(name)
                except CatalogError:
                    names[name] = None
            return snap, names
        finally:
            web.off = False

    def same(before, what):
        after = snapshot()
        ctx.checks += 1
        for key in sorted(set(before[0]) | set(after[0])):
            b, a = before[0].get(key), after[0].get(key)
            if a is not b:
                how = 'was not there before' if b is None else 'is gone' if a is None else 'is another one now'
                raise Violation('trace-left', f'{what}: the schema {key[1]} in cache {key[0]} {how}')
        for n in before[1]:
            if before[1][n] is not after[1][n]:
                raise Violation('trace-left', f'{what}: the catalog registry has changed for {n}')
        for c in caches:
            if c not in used:
                try:
                    with cat.cache(c):
                        pass
                except CatalogError:
                    raise Violation('trace-left', f'{what}: cache identifier {c} is in use now')
                ctx.checks += 1

    usurped = [False]

    def takes_over(a):
        return a['kind'] == 'new' and a['at'] not in (None, a['doc'], 'https://s.test/fresh')

    def settled(a, before, obj, target, what):
        """A successful attempt is found, and nothing else has been touched."""
        after = snapshot()[0]
        ctx.checks += 1
        mine = set()
        if usurped[0] or takes_over(a):
            return                   # what has been displaced is fetched and constructed again
        if a['kind'] == 'new':
            for at in {a['doc'], a['at'] or a['doc']}:
                mine |= identifiers(docs[a['doc']], at) | {at}
        elif a['kind'] == 'meta':
            mine = {s for s in candidates if s.split('#')[0] in META_URIS + ['https://s.test/fresh', 'https://s.test/x']}
        c = a.get('cache')
        for key in sorted(set(before[0]) | set(after)):
            b, now = before[0].get(key), after.get(key)
            if b is now or key[1] in mine and key[0] in (c, '__meta__'):
                continue
            if b is not None:
                raise Violation('collateral-damage', f'{what}, which succeeded: the schema {key[1]} in cache {key[0]} '
                                                     f'{"is gone" if now is None else "is another one now"}')
            if key[0] not in (c, '__meta__'):
                raise Violation('collateral-damage', f'{what}, which succeeded: the schema {key[1]} is in cache {key[0]} now')
        if a['kind'] == 'get' and (c, a['uri']) in after and after[c, a['uri']] is not obj or \
                a['kind'] == 'new' and a['at'] == a['doc'] and after[c, a['doc']] is not obj:
            raise Violation('not-found', f'{what}, which succeeded: its schema is not found in the cache')

    def judge(uri, schema, twin=None):
        for i in range(len(instances)):
            expect = oracle.verdict(uri, i)
            if expect is None:
                ctx.probe('no reference verdict')
                continue
            got = schema.evaluate(instances[i])
            ctx.checks += 1
            if got.valid is not expect:
                raise Violation('wrong-verdict', f'{uri} says {got.valid} to {brief(corpus["instances"][i])}, should say {expect}')
            if twin is not None:
                d = difference(capture(got), capture(twin.evaluate(instances[i])))
                if d:
                    raise Violation('unlike-twin', f'{uri} on {brief(corpus["instances"][i])}: {d}')

    twins = {u: cat.get_schema(U(u), metaschema_uri=meta, cacheid='twin') for u in docs}
    web.counts.clear()
    for u, c in plan['pre']:
        if u not in docs:
            raise Skip
        used.add(c)
        cat.get_schema(U(u), metaschema_uri=meta, cacheid=c)

    def action(a, retry=False):
        """(callable, is it expected to succeed without faults, URI and cache of what it gives)"""
        c = a.get('cache')
        if a['kind'] == 'get':
            base = a['uri'].split('#')[0]
            try:
                oracle.reg.lookup(a['uri'])
            except Exception:
                raise Skip
            return (lambda: cat.get_schema(U(a['uri']), metaschema_uri=meta, cacheid=c)), base in docs, a['uri']
        if a['kind'] == 'new':
            if a['doc'] not in docs:
                raise Skip
            doc = docs[a['doc']]
            ok = True
            if a.get('broken') and not retry:
                doc = broken(doc, a['broken'])
                ok = False
            own = isinstance(doc, dict) and isinstance(doc.get('$id'), str) and ':' in doc['$id']
            at = a['at'] if not retry or own else a['doc']
            if at != a['doc'] and not own:
                ok = False           # relative references may lead nowhere from there
            return (lambda: JSONSchema(doc, catalog=cat, cacheid=c, metaschema_uri=meta, uri=U(at) if at else None)), ok, \
                a['doc'] if own or at == a['doc'] else None
        if a['kind'] == 'meta':
            variant = a['variant'] if not retry else 'small'
            if a.get('dep') and a['dep'] not in docs:
                raise Skip
            nested = a.get('nested')
            docs[a['uri']] = metas.make(a['uri'], a['draft'], variant, a.get('dep'), nested)
            ok = variant in metas.VALID and not nested and not a.get('dep')
            user = {'$schema': a['uri'], 'title': 'strict', 'type': 'object'}
            if a.get('misused') and not retry:
                user[a['misused'][0]] = a['misused'][1]
                ok = False
            if a['entry'] == 'create':
                f = lambda: cat.create_metaschema(U(a['uri']))
            elif a['entry'] == 'get':
                f = lambda: cat.get_metaschema(U(a['uri']))
            elif a['entry'] == 'schema':
                f = lambda: JSONSchema(user, catalog=cat, cacheid=c, uri=U('https://s.test/fresh'))
            elif a['entry'] == 'subschema':
                f = lambda: JSONSchema({'$defs': {'a': {'$id': 'https://s.test/x', **user}, 'b': {'$anchor': 'zz'}}},
                                       catalog=cat, cacheid=c, uri=U('https://s.test/fresh'), metaschema_uri=meta)
            else:
                docs['https://s.test/fresh'] = user
                f = lambda: cat.get_schema(U('https://s.test/fresh'), cacheid=c)
            return f, ok, None
        versions = [v for v in a['versions'] if not retry or v != 'bogus'] or ['2020-12']
        return (lambda: create_catalog(*versions, name=a['name'])), 'bogus' not in versions, None

    odd = []

    def inner_hook(spec):
        left = [spec['at']]

        def hook(uri):
            left[0] -= 1
            if left[0] == 0:
                web.hook = None
                try:
                    JSONSchema(broken(docs.get(spec['doc'], {}), spec), catalog=cat, cacheid=spec['cache'],
                               metaschema_uri=meta, uri=U(spec['uri']))
                except Exception as e:
                    ctx.fault('nested-attempt-fails')
                    ctx.ev('nested attempt failed', type(e).__name__)
                else:
                    odd.append('nested attempt succeeded')
        return hook

    def dry(a):
        """Count allocations and lines of the attempt, in a cache of its own."""
        if a['kind'] in ('meta', 'catalog'):
            return {'alloc': 700, 'line': 30000}
        counts = {}
        for kind in ('alloc', 'line'):
            with cat.cache('dry') as c:
                f, _, _ = action(dict(a, cache=c))
                with Injector(boot.PREFIX, kind, exclude=('atomic.py',)) as inj:
                    try:
                        f()
                    except Exception:
                        pass
                counts[kind] = inj.count
        return counts

    nontrivial = 0
    for n, a in enumerate(plan['attempts']):
        fault = a['fault']
        f, ok, target = action(a)
        what = f'attempt {n} ({a["kind"]}, {fault["k"] if fault else "no fault"})'
        inj = None
        limit = None
        if fault:
            k = fault['k']
            if k == 'source':
                web.fail = {fault['uri']: [fault['exc']]}
            elif k == 'nth':
                web.nth = [fault['n'], fault['exc']]
            elif k == 'document':
                if fault['uri'] in docs:
                    web.overlay = {fault['uri']: lambda u=fault['uri']: broken(docs[u], fault)}
            elif k == 'content':
                web.overlay = {fault['uri']: lambda: fault['value']}
            elif k == 'file':
                seams.env.vendor_faults = [None] * fault['n'] + [fault['errno']]
            elif k in ('alloc', 'line'):
                count = dry(a)[k]
                exc = MemoryError('simulated') if k == 'alloc' else __import__('builtins').__dict__[fault['exc']]('simulated')
                inj = Injector(boot.PREFIX, k, 1 + int(fault['frac'] * count), exc, exclude=('atomic.py',), calm=True)
            elif k == 'stack':
                limit = fault['n']
        if a.get('inner'):
            web.hook = inner_hook(a['inner'])
        before = snapshot()
        fetched = web.total()
        faults = ctx.faults.copy()
        raised = None
        try:
            try:
                if inj is not None:
                    with inj:
                        obj = f()
                elif limit is not None:
                    old = sys.getrecursionlimit()
                    depth = 0
                    frame = sys._getframe()
                    while frame is not None:
                        depth += 1
                        frame = frame.f_back
                    sys.setrecursionlimit(depth + limit)
                    try:
                        obj = f()
                    finally:
                        sys.setrecursionlimit(old)
                else:
                    obj = f()
            except (Violation, Skip):
                raise
            except BaseException as e:
                raised = e
        finally:
            web.fail, web.nth, web.overlay, web.hook = {}, None, {}, None
            seams.env.vendor_faults = []
        if odd:
            ctx.probe(odd[0])
            return
        if inj is not None and inj.fired:
            ctx.fault('memory-error' if fault['k'] == 'alloc' else 'interrupt')
        if limit is not None and has_cause(raised, RecursionError):
            ctx.fault('stack-exhausted')
        ctx.ev(what, 'raised' if raised is not None else 'succeeded', type(raised).__name__ if raised is not None else '')
        ctx.state(a['kind'], fault['k'] if fault else None, type(raised).__name__, web.total() - fetched)
        if raised is None:
            struck = {k for k in ('source-fails', 'memory-error', 'interrupt', 'metaschema-file')
                      if ctx.faults[k] != faults[k]}
            if struck and ctx.faults['nested-attempt-fails'] == faults['nested-attempt-fails']:
                raise Violation('fault-ignored', f'{what} succeeded although: {", ".join(sorted(struck))}')
            if a.get('broken') or ctx.faults['source-serves-broken-document'] != faults['source-serves-broken-document']:
                ctx.probe('broken document accepted')
                return
            if a['kind'] == 'meta' and not ok or a['kind'] == 'new' and target is None:
                # schemas of unknown meaning are in the caches from here on
                ctx.probe('nothing known of the result')
                return
            used.add(a.get('cache'))
            settled(a, before, obj, target, what)
            usurped[0] |= takes_over(a)
        else:
            if fault is None and ok:
                if not a.get('inner') or ctx.faults['nested-attempt-fails'] == faults['nested-attempt-fails']:
                    raise Violation('spurious-failure', f'{what}: {type(raised).__name__}: {str(raised)[:200]}')
                raise Violation('nested-failure-matters', f'{what}: {type(raised).__name__}: {str(raised)[:200]}')
            same(before, f'{what}, which raised {type(raised).__name__}: {brief(str(raised))}')
            if web.total() > fetched or inj is not None or limit is not None or a['kind'] != 'get':
                nontrivial += 1
        if a['retry'] or a['kind'] == 'meta':
            f, ok, target = action(a, retry=True)
            try:
                obj = f()
            except Exception as e:
                if ok:
                    raise Violation('retry-fails', f'{what}, then again without a fault: {type(e).__name__}: {str(e)[:300]}')
                ctx.probe('retry cannot work')
            else:
                used.add(a.get('cache'))
                usurped[0] |= takes_over(a)
                if target is not None:
                    judge(target, obj)
                elif a['kind'] == 'catalog':
                    if Catalog.get_catalog(a['name']) is not obj:
                        raise Violation('retry-fails', f'catalog {a["name"]} is not registered')
                    v = ([v for v in a['versions'] if v != 'bogus'] or ['2020-12'])[0]
                    s = JSONSchema({'type': 'string'}, catalog=a['name'],
                                   metaschema_uri=URI(f'https://json-schema.org/draft/{v}/schema'))
                    if not s.validate().valid or s.evaluate(JSON(1)).valid or not s.evaluate(JSON('a')).valid:
                        raise Violation('wrong-verdict', 'schema in a catalog created by a retry')
                elif a['kind'] == 'meta' and raised is not None and ok:
                    m = cat.get_metaschema(U(a['uri']))
                    for doc, expect in metas.probes('small', a['draft']):
                        if m.evaluate(JSON(doc)).valid is not expect:
                            raise Violation('wrong-verdict', f'metaschema created by a retry, on {doc}')
        elif a['kind'] == 'new' and target is None and raised is None:
            return
        docs.pop('https://s.test/fresh', None)
    # all is well again
    for c in [c for c in CACHES if c in used]:
        for u in plan['order']:
            if u in corpus['docs']:
                try:
                    schema = cat.get_schema(U(u), metaschema_uri=meta, cacheid=c)
                except Exception as e:
                    raise Violation('retry-fails', f'get_schema({u}) in {c} after all: {type(e).__name__}: {str(e)[:300]}')
                judge(u, schema, twins[u])
    ctx.nontrivial = nontrivial > 0


def has_cause(e, cls):
    seen = set()
    while e is not None and id(e) not in seen:
        if isinstance(e, cls):
            return True
        seen.add(id(e))
        e = e.__cause__ or e.__context__
    return False


def shrink(plan):
    for xs in list_shrinks(plan['attempts']):
        if xs:
            yield dict(plan, attempts=xs)
    for xs in list_shrinks(plan['pre']):
        yield dict(plan, pre=xs)
    for i, a in enumerate(plan['attempts']):
        def alt(**kw):
            return dict(plan, attempts=plan['attempts'][:i] + [{**a, **kw}] + plan['attempts'][i + 1:])
        for k in ('inner', 'broken', 'nested', 'dep', 'misused'):
            if a.get(k):
                yield alt(**{k: None})
        if a['fault']:
            yield alt(fault=None)
        if a['retry']:
            yield alt(retry=False)
    for c in shrink_corpus(plan['corpus']):
        yield dict(plan, corpus=c)
