"""C12: an invalid metaschema is refused every time, a valid one is accepted every time."""
import builtins
import json

from sim import boot, metas, sched, seams
from sim.corpus import Web
from sim.inject import Injector
from sim.kernel import Skip, Violation
from sim.refeval import SCHEMA_URI
from sim.runner import list_shrinks
from sim.sched import Scheduler, gen_sched
from sim.values import brief

PID = 'C12'
DRAFTS = ('2019-09', '2020-12')
RUNS = {'quick': 7500, 'thorough': 120000}
RULE = ('A case is a web of 1-4 metaschema documents (naming each other or themselves as metaschema, extending each other, '
        'referencing ordinary schemas that use them; valid, or with one of 16 flaws) and a history of 2-12 operations: access to '
        'a metaschema by any of six ways, with or without a fault (failing source, memory error, interrupt), change of a document '
        'at its source, registration of a vocabulary, deletion from the cache, simultaneous access by 2-3 threads. '
        'Non-trivial: some metaschema was accessed twice, and some access was refused or faulty.')
MEASURE = 'hash of the sequence of (operation, what the document is like, outcome)'
REAL = ['jschon.catalog', 'jschon.vocabulary', 'jschon.jsonschema', 'jschon.atomic', 'jschon.uri', 'jschon.jsonpointer',
        'jschon.json']
STUB = ['sources (in memory)', 'thread scheduling']
ASSUMPTIONS = ['What makes a metaschema invalid is known by construction of the documents.',
               'A schema needs another keyword than $schema for its metaschema to be accessed.',
               'Metaschemas do not name each other as metaschemas in a circle of two or more.']
METAS = ['https://s.test/meta/one', 'https://s.test/dir/meta/two', 'urn:ex:meta', 'https://s.test/meta/three']
OWN = 'https://x.test/vocab/own'
NEW = 'https://x.test/vocab/unknown'
ENTRIES = ['get', 'get', 'create', 'schema', 'schema', 'param', 'load', 'subschema']
CTOR = ['missing-ref', 'late-missing-ref', 'bad-pointer', 'pattern']
VALIDITY = ['type', 'properties', 'deep', 'anchor', 'keyword-value']
SHAPE = ['scalar', 'list']
FIELDS = {'x-own': OWN, 'x-new': NEW}


def gen_spec(rng, draft, i, count):
    names = list(metas.VOCABS[draft])
    if rng.random() < 0.4:
        names = ['core'] + [n for n in names[1:] if rng.random() < (0.9 if n in ('applicator', 'validation') else 0.6)]
    spec = {'names': names, 'core': True, 'own': None, 'new': None, 'optional': rng.sample(names[1:], min(len(names) - 1, 1))
            if rng.random() < 0.2 else [], 'novocab': False, 'flaw': None, 'schema': 'official', 'dep': None, 'extends': None,
            'strict': rng.random() < 0.15, 'title': rng.random() < 0.5, 'bad-uri': False}
    k = rng.random()
    if k < 0.12:
        spec['flaw'] = rng.choice(CTOR)
    elif k < 0.4:
        spec['flaw'] = rng.choice(VALIDITY)
    elif k < 0.42:
        spec['flaw'] = rng.choice(SHAPE)
    elif k < 0.55:
        spec['core'] = rng.choice([False, 'absent', 'two', 'absent'])
    elif k < 0.58:
        spec['bad-uri'] = True
    elif k < 0.68:
        spec['novocab'] = True
    if rng.random() < 0.25:
        spec['own'] = rng.random() < 0.6
    if rng.random() < 0.25:
        spec['new'] = rng.random() < 0.6
    if rng.random() < 0.2:
        spec['alike'] = rng.sample(metas.ALIKE, rng.choice([1, 1, 2]))
    k = rng.random()
    if k < 0.25 and i + 1 < count:
        spec['schema'] = METAS[rng.randrange(i + 1, count)]
    elif k < 0.35:
        spec['schema'] = 'self'
    elif k < 0.37:
        spec['schema'] = None
    if rng.random() < 0.2 and i + 1 < count:
        spec['extends'] = METAS[rng.randrange(i + 1, count)]
    if rng.random() < 0.2:
        spec['dep'] = rng.randrange(3)
    if rng.random() < 0.03:
        spec.update({'bare': True, 'schema': None, 'novocab': True, 'flaw': None, 'extends': None, 'dep': None, 'strict': False})
    return spec


def gen(rng, tier):
    draft = rng.choice(DRAFTS)
    count = rng.choice([1, 1, 2, 2, 3, 4])
    served = {METAS[i]: gen_spec(rng, draft, i, count) for i in range(count)}
    hot = rng.choice(list(served))

    def access():
        op = {'op': 'access', 'entry': rng.choice(ENTRIES), 'uri': hot if rng.random() < 0.6 else rng.choice(list(served)),
              'fault': None, 'defaults': None}
        if op['entry'] == 'create' and rng.random() < 0.6:
            op['defaults'] = ['core'] + [n for n in metas.VOCABS[draft][1:] if rng.random() < 0.7]
            op['meta'] = rng.random() < 0.4
        return op

    def fault():
        k = rng.random()
        if k < 0.4:
            return {'k': 'source', 'uri': rng.choice(list(served)), 'exc': rng.choice(ERRORS)}
        if k < 0.6:
            return {'k': 'nth', 'n': rng.choice([1, 1, 2, 3]), 'exc': rng.choice(ERRORS)}
        if k < 0.7:
            return {'k': 'alloc', 'n': int(2 ** rng.uniform(0, 10))}
        return {'k': 'line', 'n': int(2 ** rng.uniform(3, 15)), 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])}

    ops = []
    for _ in range(rng.choice([2, 3, 4, 6, 8, 12])):
        k = rng.random()
        if k < 0.68:
            op = access()
            if rng.random() < 0.35:
                op['fault'] = fault()
        elif k < 0.8:
            u = hot if rng.random() < 0.6 else rng.choice(list(served))
            i = METAS.index(u)
            op = {'op': 'serve', 'uri': u, 'spec': None if rng.random() < 0.1 else gen_spec(rng, draft, i, count)}
        elif k < 0.86:
            op = {'op': 'vocabulary', 'uri': rng.choice([OWN, NEW])}
        elif k < 0.93:
            op = {'op': 'delete', 'uri': hot if rng.random() < 0.6 else rng.choice(list(served))}
        else:
            n = rng.choice([2, 2, 3])
            op = {'op': 'threads', 'threads': [[dict(access(), defaults=None) for _ in range(rng.choice([1, 1, 2]))]
                                               for _ in range(n)],
                  'slow': rng.random() < 0.7, 'sched': gen_sched(rng, n, 20000)}
        ops.append(op)
    return {'draft': draft, 'catalog': rng.choice(['all', 'all', 'all', draft, draft, *DRAFTS]), 'served': served,
            'deps': [rng.choice([None, 'official', rng.choice(list(served))]) for _ in range(3)], 'ops': ops,
            'own': rng.random() < 0.8}


ERRORS = ['CatalogError', 'OSError', 'ValueError', 'KeyError', 'RuntimeError', 'TimeoutError', 'KeyboardInterrupt', 'MemoryError']


def document(uri, draft, spec, deps):
    if spec is None:
        return None
    if spec.get('bare'):
        return {}
    flaw = spec['flaw']
    schema = {'official': SCHEMA_URI[draft], 'self': uri}.get(spec['schema'], spec['schema'])
    doc = metas.make(uri, draft, flaw if flaw in CTOR + VALIDITY else 'full', nested=schema or 'x')
    if schema is None:
        del doc['$schema']
    doc['allOf'] = [r for r in doc['allOf'] if not r['$ref'].startswith('https://json-schema.org/')
                    or r['$ref'].rsplit('/', 1)[1] in spec['names']]
    if not doc['allOf']:
        del doc['allOf']
    if spec['extends']:
        doc.setdefault('allOf', []).append({'$ref': spec['extends']})
    if spec['dep'] is not None:
        doc['$defs'] = {'dep': {'$ref': dep_uri(spec['dep'])}}
    if spec['strict']:
        doc.setdefault('properties', {})['title'] = {'const': 'strict'}
        doc['required'] = ['title']
    if spec['title']:
        doc['title'] = 'strict'
    v = {metas.vocab_uri(draft, n): n not in spec['optional'] for n in spec['names']}
    core = metas.vocab_uri(draft, 'core')
    if spec['core'] == 'absent':
        del v[core]
    elif spec['core'] == 'two':
        v[metas.vocab_uri('2019-09' if draft == '2020-12' else '2020-12', 'core')] = True
    else:
        v[core] = spec['core']
    if spec['own'] is not None:
        v[OWN] = spec['own']
    if spec['new'] is not None:
        v[NEW] = spec['new']
    for u in spec.get('alike') or ():
        v[u] = False
    if spec['bad-uri']:
        v['no uri'] = True
    doc['$vocabulary'] = v
    if spec['novocab']:
        del doc['$vocabulary']
    if flaw == 'scalar':
        return 17
    if flaw == 'list':
        return [doc]
    return json.loads(json.dumps(doc))


def dep_uri(i):
    return f'https://s.test/dep{i}.json'


class Refused(Exception):
    pass


class Unknown(Exception):
    pass


class Model:
    def __init__(self, plan):
        self.plan = plan
        self.draft = plan['draft']
        self.drafts = DRAFTS if plan['catalog'] == 'all' else (plan['catalog'],)
        self.served = dict(plan['served'])
        self.cached = {}          # URI -> what it is like
        self.plain = {}           # likewise, of those that were only referenced
        self.deps = set()
        self.versions = {}        # vocabulary -> version

    def save(self):
        return dict(self.cached), dict(self.plain), set(self.deps)

    def restore(self, saved):
        self.cached, self.plain, self.deps = (type(x)(x) for x in saved)

    def access(self, op):
        """Raises Refused, without leaving a trace."""
        saved = self.save()
        try:
            if op['entry'] == 'create':
                self.create(op['uri'], op['defaults'], [], op.get('meta'))
            else:
                self.ensure(op['uri'], [])
        except Refused:
            self.restore(saved)
            raise
        return self.cached[op['uri']]

    def ensure(self, uri, stack):
        if uri not in self.cached:
            self.create(uri, None, stack)
        return self.cached[uri]

    def create(self, uri, defaults, stack, meta=False):
        spec = self.spec(uri, stack)
        if spec['flaw'] in SHAPE:
            raise Refused('not a mapping')
        if self.draft not in self.drafts and (spec['core'] is not True or spec['novocab']):
            raise Unknown
        supply = dict.fromkeys(spec['names'])
        if spec['novocab']:
            if not defaults:
                raise Refused('no core vocabulary')
            supply = dict.fromkeys(defaults)
        elif spec['core'] in ('absent', 'two'):
            if defaults:
                raise Unknown
            raise Refused('no unique core vocabulary')
        elif spec['core'] is False:
            raise Refused('core vocabulary not required')
        if self.draft not in self.drafts:
            raise Refused('unknown core vocabulary')
        if not spec['novocab']:
            if spec['bad-uri']:
                raise Refused('not a URI')
            for key, v in (('own', OWN), ('new', NEW)):
                if spec[key] is not None:
                    if v in self.versions:
                        supply[v] = self.versions[v]
                    elif spec[key]:
                        raise Refused('unknown vocabulary')
        entry = {'supply': supply, 'checks': set(spec['names']), 'strict': spec['strict'], 'title': spec['title']}
        interpreter = self.construct(uri, dict(spec, schema=spec['schema'] or ('official' if meta else None)), entry, stack)
        if spec.get('bare'):
            entry.update(checks=set())
        # is it valid?
        if interpreter is not None and interpreter['checks'] is None:
            raise Unknown
        if spec['flaw'] in VALIDITY:
            if interpreter is not None and (interpreter['checks'] is None or not
                                            {'core', 'applicator', 'validation'} <= interpreter['checks']):
                raise Unknown
            raise Refused('invalid')
        if interpreter is not None and interpreter['strict']:
            if spec['title'] and (interpreter['checks'] is None or 'applicator' not in interpreter['checks']):
                raise Unknown
            raise Refused('invalid')     # at the latest, its subschemas have no title
        self.cached[uri] = entry
        self.plain.pop(uri, None)

    def spec(self, uri, stack):
        if uri in stack or uri + '!' in stack:
            raise Unknown
        spec = self.served.get(uri)
        if spec is None:
            raise Refused('not served')
        return spec

    def construct(self, uri, spec, entry, stack, plain=False):
        """What happens to a metaschema document like to any schema document."""
        stack = stack + [uri + '!' if plain else uri]
        interpreter = None
        if spec['schema'] is None:
            raise Refused('no metaschema')
        if spec['schema'] == 'self':
            interpreter = entry
        elif spec['schema'] != 'official':
            interpreter = self.ensure(spec['schema'], stack)
        if interpreter is not None and not {'core', 'applicator', 'validation'} <= set(interpreter['supply']):
            raise Unknown
        if spec['flaw'] in CTOR:
            raise Refused(spec['flaw'])
        if spec['flaw'] is not None:
            entry['checks'] = None
        if spec['dep'] is not None and spec['dep'] not in self.deps:
            m = self.plan['deps'][spec['dep']]
            if f'{m}!' in stack:
                raise Unknown
            if m in stack:
                pass
            elif m not in (None, 'official'):
                self.ensure(m, stack)
            self.deps.add(spec['dep'])
        if spec['extends']:
            e = spec['extends']
            if e in stack or e + '!' in stack:
                raise Unknown
            if e not in self.cached and e not in self.plain:
                other = self.spec(e, stack)
                if other['flaw'] in SHAPE or other['schema'] == 'self':
                    raise Unknown
                if other['schema'] is None:
                    other = dict(other, schema='official' if spec['schema'] == 'self' else spec['schema'])
                    if spec['schema'] == 'self':
                        raise Unknown
                sub = {'supply': {}, 'checks': set() if other.get('bare') else set(other['names']), 'strict': other['strict'], 'title': other['title']}
                self.construct(e, other, sub, stack, True)
                if e not in self.cached:
                    self.plain[e] = sub
            sub = self.cached.get(e) or self.plain[e]
            if sub['checks'] is None or entry['checks'] is None:
                entry['checks'] = None
            else:
                entry['checks'] = entry['checks'] | sub['checks']
            entry['strict'] = entry['strict'] or sub['strict']
        return interpreter


def run(plan, ctx):
    from jschon import JSON, JSONSchema, URI
    from jschon.vocabulary import Keyword
    from jschon.vocabulary.format import format_validator
    seams.env = seams.Environment(ctx)
    draft = plan['draft']
    cat = boot.catalogs[plan['catalog']]
    model = Model(plan)
    docs = {}
    web = Web(ctx, docs)
    web.install(cat)
    official = SCHEMA_URI[draft]

    @format_validator('x-sim')
    def validate(data):
        raise ValueError('simulated rejection')

    cat.enable_formats('x-sim')

    def serve(uri):
        doc = document(uri, draft, model.served.get(uri), plan['deps'])
        if doc is None:
            docs.pop(uri, None)
        else:
            docs[uri] = doc

    for u in plan['served']:
        serve(u)
    for i, m in enumerate(plan['deps']):
        docs[dep_uri(i)] = {'minLength': 2} if m is None else {'$schema': official if m == 'official' else m, 'minLength': 2}

    def register(uri):
        version = model.versions.get(uri, 0) + 1
        field = next(k for k, v in FIELDS.items() if v == uri)

        class Own(Keyword):
            key = field

            def evaluate(self, instance, result):
                if instance.data == f'v{version}':
                    result.fail('simulated failure')

        cat.create_vocabulary(URI(uri), Own)
        model.versions[uri] = version

    if plan['own']:
        register(OWN)
    serial = [0]
    objects = {}              # URI -> the accepted object

    def enter(op):
        """Access a metaschema; returns it."""
        uri, entry = op['uri'], op['entry']
        serial[0] += 1
        n = serial[0]
        body = {'title': 'strict', 'minLength': 2}
        if entry == 'get':
            return cat.get_metaschema(URI(uri))
        if entry == 'create':
            defaults = [URI(metas.vocab_uri(draft, d)) for d in op['defaults'] or ()]
            return cat.create_metaschema(URI(uri), *defaults, **({'metaschema_uri': URI(official)} if op.get('meta') else {}))
        if entry == 'schema' or entry == 'subschema' and draft not in model.drafts:
            return JSONSchema({'$schema': uri, **body}, catalog=cat, cacheid=n).metaschema
        if entry == 'param':
            return JSONSchema(body, catalog=cat, cacheid=n, metaschema_uri=URI(uri)).metaschema
        if entry == 'load':
            docs[f'https://s.test/user/{n}'] = {'$schema': uri, **body}
            return cat.get_schema(URI(f'https://s.test/user/{n}'), cacheid=n).metaschema
        root = JSONSchema({'$schema': official, '$defs': {'a': {'$id': f'https://s.test/user/{n}', '$schema': uri, **body}}},
                          catalog=cat, cacheid=n)
        return root['$defs']['a'].metaschema

    def probe(uri, entry, m, what):
        """Does the metaschema do what it should?"""
        ctx.checks += 1
        if m is not cat.get_metaschema(URI(uri)):
            raise Violation('not-shared', f'{what}: another lookup gives another metaschema')
        supply = entry['supply']

        def supplies(name):
            return name in supply

        unevaluated = 'unevaluated' if draft == '2020-12' else 'applicator'
        fmt = 'format-annotation' if draft == '2020-12' else 'format'
        cases = [({'$ref': '#/$defs/x', '$defs': {'x': False}}, 1, not supplies('core')),
                 ({'type': 'string'}, 3, not supplies('validation')),
                 ({'properties': {'a': False}}, {'a': 1}, not supplies('applicator')),
                 ({'unevaluatedProperties': False}, {'a': 1}, not supplies(unevaluated)),
                 ({'format': 'x-sim'}, 'a', not supplies(fmt))]
        for field, v in FIELDS.items():
            for version in (1, 2):
                cases.append(({field: 1}, f'v{version}', supply.get(v) != version))
        for frag, inst, expect in cases:
            serial[0] += 1
            got = JSONSchema({'$schema': uri, **frag}, catalog=cat, cacheid=serial[0]).evaluate(JSON(inst)).valid
            ctx.checks += 1
            if got is not expect:
                raise Violation('wrong-keywords', f'{what}: a schema {brief(frag)} that uses it says {got} to {brief(inst)}')
        checks = entry['checks']
        if checks is None:
            return
        for frag, needs in (({}, None), ({'minLength': -1}, {'validation'}), ({'description': 3}, {'meta-data'}),
                            ({'allOf': [{'minLength': -1}]}, {'validation', 'applicator'}), ({'contentEncoding': 3}, {'content'}),
                            ({'$comment': 3}, {'core'})):
            for title in ('strict', 'other'):
                if 'allOf' in frag and entry['strict']:
                    continue
                expect = not (needs and needs <= checks) and (title == 'strict' or not entry['strict'])
                serial[0] += 1
                got = JSONSchema({'$schema': uri, 'title': title, **frag}, catalog=cat, cacheid=serial[0]).validate().valid
                ctx.checks += 1
                if got is not expect:
                    raise Violation('wrong-verdict', f'{what}: it says {got} to a schema {brief(frag)}, title {title}')

    accessed = {}
    refusals = [0]

    def settle(op, what, m, raised, struck):
        """Compare an access with what it should give."""
        uri = op['uri']
        was = uri in model.cached
        saved = model.save()
        try:
            entry, why = model.access(op), None
        except Refused as e:
            entry, why = None, str(e)
        ctx.checks += 1
        accessed[uri] = accessed.get(uri, 0) + 1
        ctx.ev(what, 'accepted' if raised is None else f'refused: {type(raised).__name__}: {brief(str(raised))}', why or '')
        ctx.state(op['entry'], why, raised is None, struck, was)
        if entry is None:
            refusals[0] += 1
            if raised is None:
                raise Violation('invalid-accepted', f'{what}, access {accessed[uri]}: it should be refused ({why})')
            if not struck and not isinstance(raised, Exception):
                raise raised
            return
        if raised is not None:
            if not struck:
                raise Violation('valid-refused', f'{what}, access {accessed[uri]}: {type(raised).__name__}: {str(raised)[:300]}')
            refusals[0] += 1
            model.restore(saved)
            return
        if was and op['entry'] != 'create' and uri in objects and m is not objects[uri]:
            raise Violation('not-shared', f'{what}: it was cached, but this is another object')
        for u in set(objects) - set(model.cached):
            del objects[u]
        objects[uri] = m
        probe(uri, entry, m, what)

    def attempt(op):
        try:
            return enter(op), None
        except (Violation, Skip):
            raise
        except BaseException as e:
            return None, e

    try:
        for step, op in enumerate(plan['ops']):
            what = f'step {step}: {op["op"]}'
            if op['op'] == 'serve':
                model.served[op['uri']] = op['spec']
                serve(op['uri'])
                ctx.ev(what, op['uri'])
            elif op['op'] == 'vocabulary':
                register(op['uri'])
                ctx.ev(what, op['uri'])
            elif op['op'] == 'delete':
                cat.del_schema(URI(op['uri']), cacheid='__meta__')
                model.cached.pop(op['uri'], None)
                model.plain.pop(op['uri'], None)
                objects.pop(op['uri'], None)
                ctx.ev(what, op['uri'])
            elif op['op'] == 'access':
                what = f'step {step}: {op["entry"]} {op["uri"]}'
                fault = op['fault']
                inj = None
                if fault:
                    if fault['k'] == 'source':
                        web.fail = {fault['uri']: [fault['exc']]}
                    elif fault['k'] == 'nth':
                        web.nth = [fault['n'], fault['exc']]
                    else:
                        exc = MemoryError('simulated') if fault['k'] == 'alloc' else getattr(builtins, fault['exc'])('simulated')
                        inj = Injector(boot.PREFIX, fault['k'], fault['n'], exc, exclude=('atomic.py',), calm=True)
                faults = ctx.faults['source-fails']
                if inj is not None:
                    with inj:
                        m, raised = attempt(op)
                    if inj.fired:
                        ctx.fault('memory-error' if fault['k'] == 'alloc' else 'interrupt')
                else:
                    m, raised = attempt(op)
                web.fail, web.nth = {}, None
                struck = ctx.faults['source-fails'] != faults or inj is not None and bool(inj.fired)
                settle(op, what, m, raised, struck)
            elif op['op'] == 'threads':
                # only if the documents at the sources are those in the cache
                if any(u in model.cached or u in model.plain for u in METAS) or model.deps:
                    ctx.probe('threads not used')
                    continue
                results = []

                def body(ops):
                    def f():
                        for o in ops:
                            results.append((o, *attempt(o)))
                    return f

                web.hook = lambda uri: op['slow'] and sched.current is not None and seams.env.sleep(0.1)
                s = Scheduler(ctx, op['sched'], boot.PREFIX)
                for ops in op['threads']:
                    s.spawn(body(ops))
                for status, value in s.run():
                    if status == 'exc':
                        raise value
                web.hook = None
                ctx.fault('threads')
                for o, m, raised in results:
                    # 'create' gives one of its own
                    o = dict(o, entry='create' if o['entry'] == 'create' else 'get')
                    saved = model.save()
                    try:
                        model.access(o)
                        why = None
                    except Refused as e:
                        why = str(e)
                    ctx.checks += 1
                    accessed[o['uri']] = accessed.get(o['uri'], 0) + 1
                    if why is not None:
                        refusals[0] += 1
                        if raised is None:
                            raise Violation('invalid-accepted', f'{what}: {o["uri"]} should be refused ({why})')
                    elif raised is not None:
                        raise Violation('valid-refused', f'{what}: {o["uri"]}: {type(raised).__name__}: {str(raised)[:300]}')
        for u in list(plan['served']) * 2:
            op = {'op': 'access', 'entry': 'get', 'uri': u, 'fault': None, 'defaults': None}
            m, raised = attempt(op)
            settle(op, f'in the end: get {u}', m, raised, False)
    except Unknown:
        ctx.probe('nothing known of the result')
    ctx.nontrivial = refusals[0] > 0 and any(n > 1 for n in accessed.values())


def shrink(plan):
    for ops in list_shrinks(plan['ops']):
        yield dict(plan, ops=ops)
    for i, op in enumerate(plan['ops']):
        def alt(**kw):
            return dict(plan, ops=plan['ops'][:i] + [{**op, **kw}] + plan['ops'][i + 1:])
        if op.get('fault'):
            yield alt(fault=None)
        if op.get('entry') not in (None, 'get'):
            yield alt(entry='get', defaults=None)
        if op['op'] == 'threads':
            for t in list_shrinks(op['threads']):
                if len(t) > 1:
                    yield alt(threads=t)
        if op['op'] == 'serve' and op['spec']:
            for s in simpler(op['spec']):
                yield alt(spec=s)
    for u in plan['served']:
        if len(plan['served']) > 1:
            yield dict(plan, served={k: v for k, v in plan['served'].items() if k != u})
        for s in simpler(plan['served'][u]):
            yield dict(plan, served=dict(plan['served'], **{u: s}))
    if plan['catalog'] != 'all':
        yield dict(plan, catalog='all')


def simpler(spec):
    for key, plain in (('own', None), ('new', None), ('optional', []), ('dep', None), ('extends', None), ('strict', False),
                       ('title', False), ('flaw', None), ('schema', 'official'), ('novocab', False), ('core', True),
                       ('bad-uri', False)):
        if spec[key] != plain:
            yield dict(spec, **{key: plain})
