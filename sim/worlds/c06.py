"""C06: schema caches and catalogs are isolated and die on time."""
from sim import boot, metas, seams
from sim.kernel import Violation
from sim.runner import list_shrinks
from sim.sched import Scheduler, gen_sched

PID = 'C06'
DRAFTS = ('2019-09', '2020-12')
RUNS = {'quick': 7000, 'thorough': 70000}
RULE = ('A case is a history of 3-25 operations by several clients on three catalogs and several cache identifiers (contexts '
        'entered and left in any order, normally, by exceptions or by being abandoned; constructions, lookups, deletions, '
        'failing constructions, colliding random identifiers; sources, vocabularies, formats and metaschemas), or 2-3 threads '
        'doing so under a schedule. After each step everything visible is compared with a model. Non-trivial: at least one '
        'context was left while another cache held something, or threads contended for an identifier.')
MEASURE = 'hash of the sequence of (operation, cache, outcome)'
REAL = ['jschon.catalog', 'jschon.jsonschema', 'jschon.vocabulary', 'jschon.vocabulary.format', 'jschon.atomic', 'jschon.uri',
        'jschon.json', 'real Python threads']
STUB = ['sources (in memory)', 'uuid (seeded urandom, colliding on demand)', 'thread scheduling and locks']
ASSUMPTIONS = ['A cache from which every schema was deleted may or may not count as in use, unless a context holds it.']

CATS = {'A': '2020-12', 'B': '2019-09', 'C': '2020-12'}
IDS = ['default', 'x', 'y', 'z']
# what the clients call these: any hashable values will do
NAMES = [['x', 'y', 'z'], ['x', 'y', 'z'], ['', 0, '0'], [0, '', 'X'], [False, 'False', 1], ['default ', 'Default', ''], ['1', 1, 0], [-1, -2, '-1'],
         ['__meta', 'meta', 'None'], [0.5, '0.5', 0]]
URIS = ['https://s.test/a', 'https://s.test/b', 'urn:ex:c']
VOCAB = 'https://x.test/vocab/own'
META = 'https://s.test/meta'
FORMATS = ['x-sim-one', 'x-sim-two']


def gen(rng, tier):
    if rng.random() < 0.2:
        n = rng.choice([2, 2, 3])
        ids = ['x'] if rng.random() < 0.6 else ['x', 'y', None]
        threads = []
        for _ in range(n):
            ops = []
            for _ in range(rng.choice([1, 2, 3])):
                ops.append({'id': rng.choice(ids), 'uris': [rng.choice(URIS) for _ in range(rng.choice([0, 1, 2]))],
                            'how': rng.choice(['normal', 'normal', 'exc']), 'get': rng.random() < 0.3})
            threads.append(ops)
        return {'mode': 'threads', 'threads': threads, 'collide': rng.random() < 0.3, 'names': rng.choice(NAMES), 'sched': gen_sched(rng, n, 3000)}
    ops = []
    n_handles = 0
    open_ = []
    for _ in range(rng.choice([3, 6, 10, 16, 25])):
        k = rng.random()
        cat = rng.choice('AAABC')
        where = rng.choice(open_) if open_ and rng.random() < 0.6 else rng.choice(IDS)
        if k < 0.16:
            ops.append({'op': 'enter', 'cat': cat, 'id': rng.choice(['x', 'x', 'y', 'z', 'default', '__meta__', None, None]),
                        'h': n_handles, 'style': rng.choice(['with', 'generator', 'nested-generator'])})
            open_.append(n_handles)
            n_handles += 1
        elif k < 0.30 and open_:
            h = rng.choice(open_) if rng.random() < 0.5 else open_[-1]
            ops.append({'op': 'exit', 'h': h, 'how': rng.choice(['normal', 'normal', 'exc', 'base', 'abandon'])})
            if rng.random() < 0.9:
                open_.remove(h)
        elif k < 0.55:
            ops.append({'op': 'new', 'cat': cat, 'in': where, 'uri': rng.choice(URIS), 'ref': rng.choice([None, None] + URIS),
                        'n': rng.randrange(100), 'part': rng.choice(['', '', POINTER])})
            if rng.random() < 0.25:
                # found there, but identified otherwise
                ops[-1]['at'] = rng.choice(URIS)
        elif k < 0.68:
            ops.append({'op': 'get', 'cat': cat, 'in': where, 'uri': rng.choice(URIS), 'part': rng.choice(['', '', POINTER])})
        elif k < 0.76:
            ops.append({'op': 'del', 'cat': cat, 'in': where, 'uri': rng.choice(URIS), 'part': rng.choice(['', '', '#a', '/e'])})
        elif k < 0.82:
            ops.append({'op': 'fail', 'cat': cat, 'in': where, 'uri': rng.choice(URIS), 'ref': rng.choice([None] + URIS),
                        'n': rng.randrange(100)})
        elif k < 0.86:
            ops.append({'op': 'source', 'cat': cat, 'n': rng.randrange(100)})
        elif k < 0.90:
            ops.append({'op': 'vocabulary', 'cat': cat, 'n': rng.randrange(3)})
        elif k < 0.94:
            ops.append({'op': 'metaschema', 'cat': cat})
        elif k < 0.98:
            ops.append({'op': 'format', 'cat': cat, 'format': rng.choice(FORMATS)})
        else:
            ops.append({'op': 'catalog', 'cat': cat, 'same-name': rng.random() < 0.5})
    return {'mode': 'history', 'ops': ops, 'collide': rng.random() < 0.2, 'names': rng.choice(NAMES)}


# where a subschema (which accepts everything) can be
PLACES = [
    lambda s: {'$defs': {'q': s}},
    lambda s: {'allOf': [True, s]},
    lambda s: {'anyOf': [s]},
    lambda s: {'oneOf': [False, s]},
    lambda s: {'prefixItems': [s], 'items': [s]},
    lambda s: {'prefixItems': [True, s], 'items': [True, s]},
    lambda s: {'items': s},
    lambda s: {'additionalProperties': s},
    lambda s: {'properties': {'p': s}},
    lambda s: {'patternProperties': {'^p': s}},
    lambda s: {'dependentSchemas': {'p': s}},
    lambda s: {'propertyNames': s},
    lambda s: {'contains': s},
    lambda s: {'if': s, 'then': True},
    lambda s: {'if': True, 'then': s},
    lambda s: {'if': False, 'else': s},
    lambda s: {'not': {'not': s}},
    lambda s: {'unevaluatedProperties': s},
    lambda s: {'unevaluatedItems': s},
]


def build(uri, n, ref, draft='2020-12', part=''):
    def put(sub, i):
        place = PLACES[i % len(PLACES)](sub)
        if draft == '2020-12' and isinstance(place.get('items'), list):
            del place['items']
        if draft == '2019-09':
            place.pop('prefixItems', None)
        return place
    k = n % 10000
    anchor = {'$dynamicAnchor' if draft == '2020-12' and k % 3 == 0 else '$anchor': 'a', 'title': f'{n}a'}
    doc = {'if': {'type': 'object'}, 'then': {}, 'else': {'const': n}, '$defs': {'a': put(anchor, k), 'e': put({'$id': uri + '/e', 'title': f'{n}e'}, k // 7)}}
    if k % 5 == 0:
        doc['allOf'] = [doc.pop('$defs')['a'], put({'$id': uri + '/e', 'title': f'{n}e'}, k // 5)]
    doc.setdefault('$defs', {})['n'] = {'const': n}
    if ref:
        ref += part
        kw = '$dynamicRef' if draft == '2020-12' and k % 4 == 0 else '$ref'
        doc.setdefault('$defs', {})['r'] = put({kw: ref}, k // 3) if k % 2 else {kw: ref}
        doc['then'] = {'properties': {'via': {kw: ref}}}
    if draft == '2019-09' and k % 3 != 2:
        doc['then'].setdefault('properties', {})['self'] = {'$recursiveRef': '#'}
    return doc


PARTS = ['', '#a', '/e']
POINTER = '#/$defs/n'


class Client(Exception):
    pass


class ClientBase(BaseException):
    pass


def ident(plan, name):
    return plan['names']['xyz'.index(name)] if name in ('x', 'y', 'z') else name


def run(plan, ctx):
    seams.env = seams.Environment(ctx)
    if plan['mode'] == 'threads':
        return threads(plan, ctx)
    return history(plan, ctx)


def history(plan, ctx):
    import jschon
    from jschon import JSON, JSONSchema, URI, Catalog
    from jschon.exc import CatalogError
    from jschon.vocabulary import Keyword
    from jschon.vocabulary.format import format_validator
    for f in FORMATS:
        @format_validator(f)
        def validate(value):
            if value != 'fine':
                raise ValueError('not fine')

    cats = {'A': boot.catalogs['all'], 'B': boot.catalogs['2019-09'], 'C': boot.catalogs['2020-12']}
    meta = {k: URI(f'https://json-schema.org/draft/{d}/schema') for k, d in CATS.items()}
    caches = {}                # (cat, id) -> {uri: schema or 'something'}
    held = {}                  # (cat, id) -> handle
    handles = {}
    content = {}               # cat -> n of what its source serves, or None
    vocabularies = {}          # cat -> n
    metaschemas = {}           # cat -> n of the vocabulary it was created with
    formats = {k: set() for k in cats}
    off = [False]
    left_while_others = 0
    U = {u + p: URI(u + p) for u in URIS for p in PARTS}
    keep = []

    def serve(cat):
        class S(jschon.catalog.Source):
            def __call__(self, relative_path):
                if off[0]:
                    raise CatalogError('off')
                if relative_path == META:
                    return meta_doc(cat)
                if content.get(cat) is None or relative_path not in URIS:
                    raise CatalogError(f'no document {relative_path}')
                return build(relative_path, content[cat], None, CATS[cat])
        return S()

    def meta_doc(cat):
        doc = metas.make(META, CATS[cat], 'full')
        doc['$vocabulary'][VOCAB] = True
        return doc

    def where(op):
        """(cat, id) that the operation is about"""
        if isinstance(op['in'], int):
            h = handles.get(op['in'])
            if h is None or h['refused']:
                return None
            return h['cat'], h['id']
        return op['cat'], ident(plan, op['in'])

    def registered(key, uri):
        return caches.get(key, {}).get(uri)

    numbers = {}               # (cat, id) -> {uri: number that its schema accepts}
    bound = []                 # (step, schema, ref, number that the referenced schema accepts)

    def learn(key, uri, schema, n):
        numbers.setdefault(key, {})[uri] = n
        caches.setdefault(key, {})
        for p in PARTS:
            caches[key][uri + p] = 'something'
        caches[key][uri] = schema

    def check(step):
        off[0] = True
        try:
            ids = {'default', '__meta__', *plan['names']} | {i for _, i in caches} | {h['id'] for h in handles.values() if not h['refused']}
            for name, cat in cats.items():
                for cid in sorted(ids, key=repr):
                    model = caches.get((name, cid), {})
                    for u in U:
                        try:
                            got = cat.get_schema(U[u], cacheid=cid)
                        except CatalogError:
                            got = None
                        expect = model.get(u)
                        ctx.checks += 1
                        if expect in ('something', 'maybe') and got is not None:
                            model[u] = got
                        elif expect == 'maybe':
                            del model[u]
                        elif got is not expect:
                            what = 'is not there' if got is None else 'is there' if expect is None else 'is another one'
                            cid_ = repr(cid) if cid in ('default', '__meta__', *plan['names']) else 'random'
                            raise Violation('isolation', f'after step {step}: in catalog {name}, cache {cid_}, the schema {u} {what}')
                    if cid != '__meta__':
                        try:
                            got = cat.get_schema(URI(META), cacheid=cid)
                        except CatalogError:
                            got = None
                        ctx.checks += 1
                        if got is not None:
                            raise Violation('isolation', f'after step {step}: the metaschema of catalog {name} is in another cache, too')
                    for u in URIS:
                        try:
                            got = cat.get_schema(URI(u + POINTER), cacheid=cid)
                        except CatalogError:
                            got = None
                        ctx.checks += 1
                        if got is not (model[u]['$defs']['n'] if model.get(u) is not None else None):
                            raise Violation('isolation', f'after step {step}: in catalog {name}, the schema {u}{POINTER} is another one')
                try:
                    cat.get_schema(URI(META), cacheid='__meta__')
                    has = True
                except CatalogError:
                    has = False
                if has != (name in metaschemas):
                    raise Violation('isolation', f'after step {step}: metaschema in catalog {name}: {has}')
                try:
                    cat.get_vocabulary(URI(VOCAB))
                    has = True
                except CatalogError:
                    has = False
                if has != (name in vocabularies):
                    raise Violation('isolation', f'after step {step}: vocabulary in catalog {name}: {has}')
                for f in FORMATS:
                    if cat.is_format_enabled(f) is not (f in formats[name]):
                        raise Violation('isolation', f'after step {step}: format {f} in catalog {name}')
        finally:
            off[0] = False

    def bindings(bound):
        for step, s, n in bound:
            ctx.checks += 1
            for wrap in (lambda x: x, lambda x: {'self': x}):
                if wrap(0) and 'self' not in s.value['then']['properties']:
                    continue
                if not s.evaluate(JSON(wrap({'via': n}))).valid or s.evaluate(JSON(wrap({'via': -1 - n}))).valid:
                    raise Violation('isolation', f'the schema of step {step} refers to something else')

    def behaviour(name):
        """What schemas newly constructed in a catalog do."""
        cat = cats[name]
        with cat.cache() as cid:
            for f in FORMATS:
                s = JSONSchema({'format': f}, catalog=cat, cacheid=cid, metaschema_uri=meta[name])
                ctx.checks += 1
                if s.evaluate(JSON('bad')).valid is (f in formats[name]) or not s.evaluate(JSON('fine')).valid:
                    raise Violation('isolation', f'format {f} in catalog {name}')
            s = JSONSchema({'x-own': 1}, catalog=cat, cacheid=cid, metaschema_uri=meta[name])
            if not s.evaluate(JSON(7)).valid:
                raise Violation('isolation', f'a keyword of another vocabulary asserts in catalog {name}')
            if name in metaschemas:
                s = JSONSchema({'$schema': META, 'x-own': 1}, catalog=cat, cacheid=cid)
                n = metaschemas[name]
                ctx.checks += 1
                if s.evaluate(JSON(n)).valid or not s.evaluate(JSON(n + 1)).valid:
                    raise Violation('isolation', f'the keyword of the vocabulary of catalog {name} is not in effect')

    for name, cat in cats.items():
        cat.add_uri_source(None, serve(name))

    def enter(cat, cid, style):
        if style == 'with':
            cm = cats[cat].cache(cid) if cid is not None else cats[cat].cache()
            return {'cm': cm, 'id': cm.__enter__(), 'style': style}

        def g():
            with (cats[cat].cache(cid) if cid is not None else cats[cat].cache()) as c:
                yield c
        if style == 'nested-generator':
            def g2(inner=g):
                yield from inner()
            it = g2()
        else:
            it = g()
        return {'cm': it, 'id': next(it), 'style': style}

    def leave(h, how):
        cm = h.pop('cm')
        exc = {'exc': Client('simulated'), 'base': ClientBase('simulated')}.get(how)
        try:
            if h['style'] == 'with':
                if how == 'abandon':
                    del cm
                elif exc is None:
                    cm.__exit__(None, None, None)
                elif cm.__exit__(type(exc), exc, None):
                    raise Violation('exception-lost', 'a cache context swallowed an exception')
            else:
                if how == 'abandon':
                    del cm
                elif exc is None:
                    for _ in cm:
                        pass
                else:
                    try:
                        cm.throw(exc)
                    except StopIteration:
                        raise Violation('exception-lost', 'a cache context swallowed an exception')
        except (Client, ClientBase) as e:
            if e is not exc:
                raise
        if how != 'normal':
            ctx.fault({'exc': 'block-raises', 'base': 'block-raises-base', 'abandon': 'block-abandoned'}[how])

    for step, op in enumerate(plan['ops']):
        name = op['op']
        outcome = 'ok'
        if 'in' in op and where(op) is None:
            continue
        if name == 'enter':
            cid = ident(plan, op['id'])
            key = op['cat'], cid
            if op['id'] is None and plan['collide'] and seams.env.randoms:
                # the random identifier drawn next has been drawn before
                again = seams.env.randoms[-1]
                orig = seams.env.rng.randbytes
                first = [True]

                def randbytes(n):
                    if first[0] and n == len(again):
                        first[0] = False
                        ctx.fault('identifier-collision')
                        return again
                    return orig(n)
                seams.env.rng.randbytes = randbytes
            try:
                h = enter(op['cat'], cid, op['style'])
            except CatalogError:
                h = None
            finally:
                seams.env.rng.__dict__.pop('randbytes', None)
            in_use = {(c, i) for c, i in caches if caches[c, i]} | set(held) | {(c, '__meta__') for c in cats}
            if h is None:
                outcome = 'refused'
                ctx.checks += 1
                if op['id'] is not None and key not in in_use and key not in caches and op['id'] != 'default':
                    raise Violation('refused', f'step {step}: cache identifier {cid!r} is not in use')
                if op['id'] is None and not plan['collide']:
                    raise Violation('refused', f'step {step}: no free random identifier')
                handles[op['h']] = {'refused': True}
            else:
                key = op['cat'], h['id']
                ctx.checks += 1
                if key in in_use:
                    raise Violation('handed-out-twice', f'step {step}: cache identifier {"(random)" if cid is None else repr(cid)} is in use')
                handles[op['h']] = {'refused': False, 'cat': op['cat'], **h}
                held[key] = op['h']
                caches[key] = {}
        elif name == 'exit':
            h = handles.get(op['h'])
            if h is None or h['refused'] or 'cm' not in h:
                outcome = 'nothing'
            else:
                leave(h, op['how'])
                if any(v for k, v in caches.items() if k != (h['cat'], h['id'])):
                    left_while_others += 1
                caches.pop((h['cat'], h['id']), None)
                held.pop((h['cat'], h['id']), None)
        elif name in ('new', 'fail'):
            key = where(op)
            uri, ref = op['uri'], op['ref']
            cat = key[0]
            available = ref is None or ref == uri or registered(key, ref) is not None or content.get(cat) is not None
            doc = build(uri, op['n'], ref, CATS[cat], op.get('part', ''))
            if name == 'fail':
                doc.setdefault('$defs', {})['z'] = {'$ref': '#/nowhere'}
            at = op.get('at', uri)
            if at in (uri, ref) or registered(key, at) is not None:
                at = uri
            elif op['n'] % 2:
                doc = {'$id': uri, **doc}
            else:
                doc['$id'] = uri
            try:
                s = JSONSchema(doc, catalog=cats[cat], cacheid=key[1], uri=URI(at), metaschema_uri=meta[cat])
            except CatalogError as e:
                outcome = 'failed'
                ctx.fault('construction-fails')
                if name == 'new' and available:
                    raise Violation('spurious-failure', f'step {step}: {e}')
            else:
                if name == 'fail':
                    raise Violation('wrong-outcome', f'step {step}: an unresolvable reference was resolved')
                ctx.checks += 1
                if not available:
                    raise Violation('isolation', f'step {step}: a reference to {ref} was resolved, to what?')
                if not s.evaluate(JSON(op['n'])).valid or s.evaluate(JSON(-1)).valid:
                    raise Violation('wrong-verdict', f'step {step}')
                learn(key, uri, s, op['n'])
                if at != uri:
                    caches[key][at] = 'maybe'
                if ref and ref != uri and registered(key, ref) is None:
                    learn(key, ref, 'something', content[cat])
                if ref:
                    bound.append((step, s, numbers[key][ref]))
                    bindings(bound[-1:])
        elif name == 'get':
            key = where(op)
            have = registered(key, op['uri'])
            try:
                s = cats[key[0]].get_schema(URI(op['uri'] + op['part']), cacheid=key[1], metaschema_uri=meta[key[0]])
                if op['part']:
                    s = s.parentschema
            except CatalogError as e:
                outcome = 'not found'
                if have is not None or content.get(key[0]) is not None:
                    raise Violation('spurious-failure', f'step {step}: get_schema({op["uri"]}): {e}')
            else:
                ctx.checks += 1
                if have is None:
                    if content.get(key[0]) is None:
                        raise Violation('isolation', f'step {step}: {op["uri"]} came from nowhere')
                    if not s.evaluate(JSON(content[key[0]])).valid or s.evaluate(JSON(-1)).valid:
                        raise Violation('isolation', f'step {step}: {op["uri"]} is not what the source of this catalog has')
                    learn(key, op['uri'], s, content[key[0]])
                elif have not in ('something', s):
                    raise Violation('isolation', f'step {step}: {op["uri"]} is another one')
        elif name == 'del':
            key = where(op)
            cats[key[0]].del_schema(U[op['uri'] + op['part']], cacheid=key[1])
            caches.get(key, {}).pop(op['uri'] + op['part'], None)
        elif name == 'source':
            content[op['cat']] = op['n']
        elif name == 'vocabulary':
            n = op['n']

            class Own(Keyword):
                key = 'x-own'

                def evaluate(self, instance, result, n=n):
                    if instance.data == n:
                        result.fail('that number')
            cats[op['cat']].create_vocabulary(URI(VOCAB), Own)
            vocabularies[op['cat']] = n
        elif name == 'metaschema':
            cat = op['cat']
            if cat in metaschemas:
                continue
            try:
                cats[cat].create_metaschema(URI(META))
            except jschon.exc.JschonError:
                outcome = 'failed'
                if cat in vocabularies:
                    raise
            else:
                if cat not in vocabularies:
                    raise Violation('isolation', f'step {step}: the vocabulary of another catalog is used in {cat}')
                metaschemas[cat] = vocabularies[cat]
        elif name == 'format':
            cats[op['cat']].enable_formats(op['format'])
            formats[op['cat']].add(op['format'])
        elif name == 'catalog':
            cat = op['cat']
            old = cats[cat]
            new = Catalog(name=old.name if op['same-name'] else f'new-{step}')
            keep.append(new)
            ctx.checks += 1
            if Catalog.get_catalog(new.name) is not new:
                raise Violation('isolation', f'step {step}: the registry has not the new catalog')
            for u in U:
                for cid in ('default', *plan['names']):
                    try:
                        new.get_schema(U[u], cacheid=cid)
                    except CatalogError:
                        continue
                    raise Violation('isolation', f'step {step}: a new catalog has {u}')
            for d in DRAFTS:
                try:
                    new.get_metaschema(URI(f'https://json-schema.org/draft/{d}/schema'))
                except CatalogError:
                    continue
                raise Violation('isolation', f'step {step}: a new catalog has the metaschema of {d}')
            for f in FORMATS:
                if new.is_format_enabled(f):
                    raise Violation('isolation', f'step {step}: a new catalog has format {f} enabled')
            try:
                new.get_vocabulary(URI(VOCAB))
            except CatalogError:
                pass
            else:
                raise Violation('isolation', f'step {step}: a new catalog has the vocabulary')
        ctx.ev(step, name, outcome)
        ctx.state(name, op.get('cat'), op.get('in'), op.get('id'), outcome)
        check(step)
    for name in cats:
        behaviour(name)
    bindings(bound)
    # leaving in any order
    for i in sorted(handles):
        h = handles[i]
        if 'cm' in h:
            leave(h, 'normal')
            caches.pop((h['cat'], h['id']), None)
    check('last')
    # identifiers of left contexts can be entered again
    for i in sorted(handles):
        h = handles[i]
        if not h['refused'] and (h['cat'], h['id']) not in caches:
            ctx.checks += 1
            try:
                with cats[h['cat']].cache(h['id']):
                    pass
            except CatalogError:
                raise Violation('not-gone', f'the identifier of context {i} is still in use after it was left')
    ctx.nontrivial = left_while_others > 0


def threads(plan, ctx):
    from jschon import JSON, JSONSchema, URI
    from jschon.exc import CatalogError
    cat = boot.catalogs['all']
    meta = URI('https://json-schema.org/draft/2020-12/schema')
    clock = [0]
    stays = []     # (id, tid, from inv, ret of enter, inv, ret of exit)
    refusals = []
    served = [0]

    import jschon

    class S(jschon.catalog.Source):
        def __call__(self, relative_path):
            served[0] += 1
            return build(relative_path, 1000 + served[0], None)
    cat.add_uri_source(None, S())
    if plan['collide']:
        def randbytes(n, orig=seams.env.rng.randbytes, drawn=[]):
            drawn.append(orig(n))
            if len(drawn) % 3 == 2 and len(drawn[-2]) == n:
                ctx.fault('identifier-collision')
                return drawn[-2]
            return drawn[-1]
        seams.env.rng.randbytes = randbytes

    def tick():
        clock[0] += 1
        return clock[0]

    def client(tid, ops):
        def body():
            for n, op in enumerate(ops):
                t0 = tick()
                t1 = t2 = None
                try:
                    try:
                        with (cat.cache(ident(plan, op['id'])) if op['id'] is not None else cat.cache()) as cid:
                            t1 = tick()
                            mine = {}
                            for j, u in enumerate(op['uris']):
                                v = tid * 100 + n * 10 + j
                                if op['get'] and u not in mine:
                                    mine[u] = cat.get_schema(URI(u), cacheid=cid, metaschema_uri=meta)
                                else:
                                    mine[u] = JSONSchema(build(u, v, None), catalog=cat, cacheid=cid, uri=URI(u), metaschema_uri=meta)
                                for w, s in mine.items():
                                    ctx.checks += 1
                                    if cat.get_schema(URI(w), cacheid=cid) is not s:
                                        raise Violation('isolation', f'thread {tid}: {w} in its own cache is another one')
                            for w in URIS:
                                if w not in mine and not op['get']:
                                    before = served[0]
                                    s = cat.get_schema(URI(w), cacheid=cid, metaschema_uri=meta)
                                    if served[0] == before:
                                        raise Violation('isolation', f'thread {tid}: {w} was in its new cache already')
                                    break
                            t2 = tick()
                            if op['how'] == 'exc':
                                ctx.fault('block-raises')
                                raise Client('simulated')
                    except Client:
                        pass
                    stays.append((cid, tid, t0, t1, t2, tick()))
                    outcome = 'ok'
                except CatalogError as e:
                    if t1 is not None:
                        raise
                    refusals.append((ident(plan, op['id']), tid, t0, tick()))
                    outcome = 'refused'
                ctx.ev(tid, n, op['id'] or 'random', outcome)
                ctx.state(tid, n, outcome)
        return body

    s = Scheduler(ctx, plan['sched'], boot.PREFIX)
    for tid, ops in enumerate(plan['threads']):
        s.spawn(client(tid, ops))
    for status, value in s.run():
        if status == 'exc':
            raise value
    contended = False
    for i, (cid, tid, a0, a1, a2, a3) in enumerate(stays):
        for cid2, tid2, b0, b1, b2, b3 in stays[:i]:
            ctx.checks += 1
            if cid == cid2 and a1 < b2 and b1 < a2:
                raise Violation('handed-out-twice', f'threads {tid} and {tid2} were in the same cache at the same time')
            if cid == cid2 and a0 < b3 and b0 < a3:
                contended = True
    for rid, tid, r0, r1 in refusals:
        ctx.checks += 1
        contended = True
        if rid is None and plan['collide']:
            continue
        if not any(cid == rid and a0 < r1 and r0 < a3 for cid, _, a0, a1, a2, a3 in stays):
            raise Violation('refused', f'thread {tid}: the identifier was not in use')
    for cid in {c for c, *_ in stays}:
        ctx.checks += 1
        try:
            with cat.cache(cid):
                for u in URIS:
                    before = served[0]
                    cat.get_schema(URI(u), cacheid=cid, metaschema_uri=meta)
                    if served[0] == before:
                        raise Violation('not-gone', f'{u} is still in a cache that was left')
        except CatalogError:
            raise Violation('not-gone', 'an identifier is still in use after all contexts were left')
    ctx.nontrivial = contended


def shrink(plan):
    if plan['names'] != NAMES[0]:
        yield dict(plan, names=NAMES[0])
    if plan['mode'] == 'history':
        for ops in list_shrinks(plan['ops']):
            yield dict(plan, ops=ops)
        if plan['collide']:
            yield dict(plan, collide=False)
        return
    ts = plan['threads']
    for i in range(len(ts)):
        if len(ts) > 2:
            yield dict(plan, threads=ts[:i] + ts[i + 1:])
        for ops in list_shrinks(ts[i]):
            yield dict(plan, threads=ts[:i] + [ops] + ts[i + 1:])
        for j, op in enumerate(ts[i]):
            if op['uris']:
                yield dict(plan, threads=ts[:i] + [ts[i][:j] + [dict(op, uris=op['uris'][:-1])] + ts[i][j + 1:]] + ts[i + 1:])
