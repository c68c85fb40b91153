"""C14: each resource is loaded once per cache, and shared."""
import json

from sim import boot, metas, sched, seams
from sim.corpus import BASES, NAMES, Web, gen_id, gen_uri, relative
from sim.kernel import Skip, Violation
from sim.refeval import SCHEMA_URI, join
from sim.runner import list_shrinks
from sim.sched import Scheduler, gen_sched

PID = 'C14'
DRAFTS = ('2019-09', '2020-12')
RUNS = {'quick': 8000, 'thorough': 200000}
RULE = ('A case is a graph of 1-5 documents that reference each other (and themselves, cyclically; by URI, anchor, pointer, '
        'dynamic anchor, from and to embedded resources) and a history of 1-14 operations: lookups by any identifier in up to 3 '
        'caches and in temporary ones, direct constructions, deletions, changes at the source, failing sources, several threads '
        'at once, and evaluations that walk along the references. Non-trivial: a resource was looked up or referenced again '
        'after it had been fetched.')
MEASURE = 'hash of the sequence of (operation, documents fetched)'
REAL = ['jschon.catalog', 'jschon.jsonschema', 'jschon.vocabulary', 'jschon.atomic', 'jschon.uri', 'jschon.jsonpointer', 'jschon.json']
STUB = ['sources (in memory)', 'thread scheduling']
ASSUMPTIONS = ["Each document's $id, if any, is the URI it is retrieved by; embedded resources are referenced by their own URI only "
               'from within their document.',
               'Which object a reference is bound to is observed by a keyword that is evaluated as part of it.']
META = 'https://s.test/meta/mark'
DEP = 'https://s.test/meta/dependency'
VOCAB = 'https://x.test/vocab/mark'
CACHES = ['default', 'c1', 'c2']
ODD = ['a b', 'a/b', 'a~b', '~1', 'a%b', '%25', 'é', '𝒳', '"', '#', '?x', "it's", '', '0', '-', '..', 'a:b', '^a$', '{b}', '\\', '`|<>', '+']
ERRORS = ['CatalogError', 'OSError', 'ValueError', 'RuntimeError', 'KeyboardInterrupt']


def gen(rng, tier):
    draft = rng.choice(DRAFTS)
    count = rng.choice([1, 2, 2, 3, 3, 4, 5])
    uris = []
    while len(uris) < count:
        u = rng.choice(BASES) + rng.choice(NAMES) if rng.random() < 0.8 else gen_uri(rng, uris)
        if u not in uris:
            uris.append(u)
    docs = {}
    for d, uri in enumerate(uris):
        place = rng.choice(['$defs', '$defs', 'dependentSchemas'])
        nodes = [{'kind': 'root', 'uri': uri, 'path': '', 'base': uri}]
        for n in range(rng.choice([0, 1, 1, 2, 3])):
            kind = rng.choice(['anchor', 'anchor', 'plain', 'embedded', 'dynamic' if draft == '2020-12' else 'anchor'])
            name = f'd{n}'
            inside = rng.choice([x for x in nodes if x['kind'] in ('root', 'embedded')])
            node = {'kind': kind, 'path': f'{inside["path"]}/{place}/{name}', 'base': inside['base']}
            if kind == 'embedded':
                node['uri'] = node['base'] = f'https://s.test/dir/embedded-{d}-{n}'
                node['id'] = gen_id(rng, node['uri'], inside['base'])
            elif kind == 'plain':
                node['uri'] = f'{uri}#{node["path"]}'
            else:
                node['anchor'] = f'{kind[0]}-{d}-{n}'
                node['uri'] = f'{inside["base"]}#{node["anchor"]}'
            nodes.append(node)
        for node in nodes:
            if rng.random() < 0.15:
                node['odd'] = rng.choice(ODD)
        docs[uri] = {'id': gen_id(rng, uri, uri) if rng.random() < 0.5 else None, 'schema': rng.random() < 0.3, 'nodes': nodes,
                     'version': 1}
    dense = rng.choice([1, 1, 2, 3])
    for uri in uris:
        for node in docs[uri]['nodes']:
            node['edges'] = []
            for _ in range(rng.randrange(dense + 1)):
                t = rng.choice(uris) if rng.random() < 0.8 else uri
                cands = [(i, x) for i, x in enumerate(docs[t]['nodes'])]
                i, target = rng.choice(cands)
                pointer = f'{t}#{target["path"]}' if target['path'] else t
                same = t == uri
                forms = [pointer]
                if target['kind'] == 'root':
                    forms = [t, t, t + '#']
                elif target['base'] == t or same:
                    forms.append(target['uri'])
                ref = rng.choice(forms)
                kw = '$ref'
                if draft == '2020-12' and (rng.random() < 0.15 or target['kind'] == 'dynamic' and rng.random() < 0.6):
                    kw = '$dynamicRef'
                if draft == '2019-09' and rng.random() < 0.08:
                    # to the root of the resource
                    kw, ref, t = '$recursiveRef', '#', uri
                    i = next(i for i, x in enumerate(docs[uri]['nodes']) if x['uri'] == node['base'])
                else:
                    ref = relative(rng, ref, node['base'])
                node['edges'].append({'ref': ref, 'kw': kw, 'to': [t, i], 'where': rng.choice(['plain', 'plain', 'allOf', 'items'])})

    caches = CACHES[:rng.choice([1, 1, 2, 3])]
    hot = rng.choice(uris)

    def lookup():
        uri = hot if rng.random() < 0.4 else rng.choice(uris)
        i = rng.randrange(len(docs[uri]['nodes'])) if rng.random() < 0.4 else 0
        return {'op': 'get', 'doc': uri, 'node': i, 'form': rng.randrange(2), 'cache': rng.choice(caches)}

    ops = []
    for _ in range(rng.choice([1, 2, 3, 5, 8, 14])):
        k = rng.random()
        op = lookup()
        if k < 0.4:
            if rng.random() < 0.3:
                op['fail'] = [rng.choice(uris + [META, DEP]), rng.choice(ERRORS)]
        elif k < 0.5:
            op['op'] = 'new'
        elif k < 0.6:
            op['op'] = rng.choice(['delete', 'delete', 'delete-root'])
        elif k < 0.7:
            op['op'] = 'change'
        elif k < 0.75:
            op['op'] = 'delete-meta'
        elif k < 0.8:
            op['op'] = 'context'
        elif k < 0.92:
            op['op'] = 'walk'
            op['path'] = [rng.randrange(100) for _ in range(rng.choice([1, 2, 3, 5]))]
        else:
            n = rng.choice([2, 2, 3])
            op = {'op': 'threads', 'threads': [[lookup() for _ in range(rng.choice([1, 2, 3]))] for _ in range(n)],
                  'sched': gen_sched(rng, n, 15000), 'slow': rng.random() < 0.7}
        ops.append(op)
    return {'draft': draft, 'docs': docs, 'ops': ops, 'dep': rng.random() < 0.5,
            'walks': [rng.randrange(100) for _ in range(4)]}


def render(uri, spec, draft):
    """The document."""
    doc = {}
    for node in spec['nodes']:
        body = {'x-mark': node['path']}
        if node['kind'] == 'root':
            if spec['schema']:
                body['$schema'] = META
            if spec['id'] is not None:
                body['$id'] = spec['id']
            body['x-version'] = spec['version']
        if node.get('id') is not None:
            body['$id'] = node['id']
        if node.get('anchor'):
            body['$anchor' if node['kind'] == 'anchor' else '$dynamicAnchor'] = node['anchor']
        edges = {}
        for n, e in enumerate(node['edges']):
            edge = {e['kw']: e['ref']}
            if e['where'] == 'allOf':
                edge = {'allOf': [True, edge]}
            elif e['where'] == 'items':
                edge = {'items': edge}
            edges[f'e{n}'] = edge
        if 'odd' in node:
            edges[node['odd']] = {'items': True, 'not': {'type': 'null'}}
        if edges:
            body['properties'] = edges
        if not node['path']:
            doc.update(body)
        else:
            *above, name = node['path'].split('/')[1:]
            place = doc
            for k in above:
                place = place.setdefault(k, {})
            place[name] = body
    return json.loads(json.dumps(doc))


def run(plan, ctx):
    from jschon import JSON, JSONSchema, URI
    from jschon.exc import CatalogError
    from jschon.vocabulary import Keyword
    seams.env = seams.Environment(ctx)
    draft = plan['draft']
    cat = boot.catalogs['all']
    specs = {u: dict(s) for u, s in plan['docs'].items()}
    check(specs)
    docs = {u: render(u, s, draft) for u, s in specs.items()}
    meta_doc = metas.make(META, draft, 'full', DEP if plan['dep'] else None)
    meta_doc['$vocabulary'][VOCAB] = True
    docs[META] = meta_doc
    docs[DEP] = {'$schema': SCHEMA_URI[draft], 'type': 'object'}
    web = Web(ctx, docs)
    web.install(cat)
    seen = []

    class Mark(Keyword):
        key = 'x-mark'

        def evaluate(self, instance, result):
            seen.append((str(instance.path), self.json.value, self.parentschema, result))

    cat.create_vocabulary(URI(VOCAB), Mark)
    meta, other = URI(META), URI(SCHEMA_URI[DRAFTS[draft == DRAFTS[0]]])
    cached = {}               # cache -> {document: Loaded}
    meta_cached = set()       # of META, DEP
    again = [0]

    class Loaded:
        """A document in a cache."""

        def __init__(self, doc):
            self.doc = doc
            self.version = specs[doc]['version']
            self.bound = {}   # document -> Loaded
            self.obj = None

    def load(doc, cache, fetched, entry=None):
        have = cached.setdefault(cache, {})
        if entry is None and doc in have:
            again[0] += 1
            return
        if entry is None:
            fetched.append(doc)
            entry = Loaded(doc)
        have[doc] = entry
        need_meta(fetched)
        for node in specs[doc]['nodes']:
            for e in node['edges']:
                load(e['to'][0], cache, fetched)
                entry.bound[e['to'][0]] = have[e['to'][0]]

    def need_meta(fetched):
        for u in [META] + [DEP] * plan['dep']:
            if u not in meta_cached:
                meta_cached.add(u)
                fetched.append(u)

    def save():
        return {c: dict(d) for c, d in cached.items()}, set(meta_cached)

    def restore(saved):
        cached.clear()
        cached.update({c: dict(d) for c, d in saved[0].items()})
        meta_cached.clear()
        meta_cached.update(saved[1])

    def address(op):
        """[URI to look up, whether it can be found if the document is not cached]"""
        node = specs[op['doc']]['nodes'][op['node']]
        pointer = f'{op["doc"]}#{node["path"]}' if node['path'] else op['doc'] + '#' * op['form']
        if node['kind'] == 'root' or op['form'] == 0:
            return pointer, True
        return node['uri'], node['uri'].split('#')[0] == op['doc']

    def navigate(obj, path):
        for k in path.split('/')[1:]:
            obj = obj[k]
        return obj

    def settle(cache, what):
        """Look at what is cached."""
        web.off = True
        try:
            for doc, entry in cached.get(cache, {}).items():
                ctx.checks += 1
                try:
                    # whatever the metaschema it would get if it were not cached
                    obj = cat.get_schema(URI(doc), metaschema_uri=[None, meta, other][ctx.checks % 3], cacheid=cache)
                except CatalogError:
                    raise Violation('not-cached', f'{what}: {doc} is not in cache {cache}')
                if entry.obj is None:
                    entry.obj = obj
                if entry.obj is not obj:
                    raise Violation('not-shared', f'{what}: lookup of {doc} in cache {cache} gives another object')
                if obj['x-version'].value != entry.version:
                    raise Violation('wrong-version', f'{what}: {doc} in cache {cache} has version {obj["x-version"].value}, '
                                                     f'version {entry.version} was fetched')
                for node in specs[doc]['nodes']:
                    for u in {node['uri'], f'{doc}#{node["path"]}' if node['path'] else doc + '#'}:
                        ctx.checks += 1
                        try:
                            found = cat.get_schema(URI(u), cacheid=cache)
                        except CatalogError:
                            raise Violation('not-cached', f'{what}: {u} is not in cache {cache}')
                        if found is not navigate(obj, node['path']):
                            raise Violation('not-shared', f'{what}: lookup of {u} in cache {cache} gives another object')
                for sub in below(navigate(obj, rotate(specs[doc]['nodes'])['path'])):
                    ctx.checks += 1
                    u = sub.canonical_uri
                    if u is None:
                        raise Violation('no-uri', f'{what}: the schema at {sub.path} of {doc} in cache {cache} has no canonical URI')
                    try:
                        found = cat.get_schema(u, cacheid=cache)
                    except CatalogError as e:
                        raise Violation('not-cached', f'{what}: {u}, the canonical URI of the schema at {sub.path} of {doc}, is not in '
                                                      f'cache {cache}: {str(e)[:200]}')
                    if found is not sub:
                        raise Violation('not-shared', f'{what}: lookup of {u}, the canonical URI of the schema at {sub.path} of {doc}, '
                                                      f'in cache {cache} gives another object')
        finally:
            web.off = False

    def rotate(nodes):
        return nodes[ctx.checks % len(nodes)]

    def below(obj):
        if isinstance(obj, JSONSchema):
            yield obj
        if obj.type in ('object', 'array'):
            for x in obj.data.values() if obj.type == 'object' else obj.data:
                yield from below(x)

    def address_of(nodes, j):
        base = next(x for x in nodes if x['uri'] == nodes[j]['base'])
        return f'{base["uri"]}#{nodes[j]["path"][len(base["path"]):]}/x-mark'

    def counted(before):
        return sorted(u for u in web.counts for _ in range(web.counts[u] - before.get(u, 0)))

    def expect(before, fetched, what):
        got, want = counted(before), sorted(fetched)
        ctx.checks += 1
        ctx.state(tuple(got))
        ctx.ev(what, 'fetched', got)
        if got != want:
            raise Violation('wrong-fetches', f'{what}: fetched {got}, should fetch {want}')

    def walk(entry, path, what):
        """Follow references."""
        steps = []
        doc, i, e = entry.doc, 0, entry
        visited = {(entry.doc): {entry}}
        instance = here = {}
        where = ''
        for choice in path:
            edges = specs[doc]['nodes'][i]['edges']
            if not edges:
                break
            n = choice % len(edges)
            edge = edges[n]
            child = {}
            here[f'e{n}'] = [child] if edge['where'] == 'items' else child
            where += f'/e{n}' + ('/0' if edge['where'] == 'items' else '')
            t, j = edge['to']
            options = {e.bound[t] if edge['kw'] != '$recursiveRef' else e}
            if specs[t]['nodes'][j]['kind'] == 'dynamic' and edge['kw'] == '$dynamicRef':
                options |= visited.get(t, set())
            if edge['kw'] == '$dynamicRef' and len(options) > 1:
                # by the dynamic scope; not this property's business
                break
            e = options.pop()
            visited.setdefault(t, set()).add(e)
            steps.append((where, specs[t]['nodes'][j]['path'], e, f'{t}#{specs[t]["nodes"][j]["path"]}', address_of(specs[t]['nodes'], j)))
            doc, i, here = t, j, child
        seen.clear()
        entry.obj.evaluate(JSON(instance))
        found = {p: (mark, obj, result) for p, mark, obj, result in seen}
        for where, mark, e, uri, location in steps:
            ctx.checks += 1
            if where not in found:
                raise Violation('reference-not-followed', f'{what}: nothing evaluated at {where or "the root"}')
            m, obj, result = found[where]
            loc = str(result.absolute_uri)
            if m != mark or e.obj is not None and obj is not navigate(e.obj, mark):
                raise Violation('not-shared', f'{what}: the reference from {entry.doc} along {where} is bound to another object than '
                                              f'{uri}')
            if loc != location:
                raise Violation('wrong-location', f'{what}: the schema reached from {entry.doc} along {where} is at {location}, its '
                                                  f'evaluation is reported as that of {loc}')
            loc = str(result.parent.absolute_uri)
            if loc + '#' * ('#' not in loc) + '/x-mark' != location:
                raise Violation('wrong-location', f'{what}: the reference from {entry.doc} along {where} leads to {location}, it is '
                                                  f'reported as leading to {loc}')
        if steps:
            again[0] += 1

    for step, op in enumerate(plan['ops']):
        name = op['op']
        what = f'step {step}: {name}'
        before = dict(web.counts)
        if name != 'threads':
            if op['doc'] not in specs:
                raise Skip
            op = dict(op, node=op['node'] % len(specs[op['doc']]['nodes']))
            uri, findable = address(op)
            cache, doc = op['cache'], op['doc']
            what += f' {doc} in {cache}'
        saved = save()
        fetched = []
        if name == 'get':
            what = f'step {step}: get {uri} in {cache}'
            ctx.probe('lookup')
            if op.get('fail'):
                web.fail = {op['fail'][0]: [op['fail'][1]]}
            faults = ctx.faults['source-fails']
            try:
                obj, err = cat.get_schema(URI(uri), metaschema_uri=meta, cacheid=cache), None
            except (Violation, Skip):
                raise
            except BaseException as e:
                obj, err = None, e
            web.fail = {}
            if ctx.faults['source-fails'] != faults:
                if err is None:
                    raise Violation('fault-ignored', what)
                ctx.ev(what, type(err).__name__)
            elif doc not in cached.get(cache, {}) and not findable:
                if not isinstance(err, CatalogError):
                    raise Violation('wrong-outcome', f'{what}: {err!r:.200}')
            else:
                if err is not None:
                    raise Violation('spurious-failure', f'{what}: {type(err).__name__}: {str(err)[:200]}')
                load(doc, cache, fetched)
                expect(before, fetched, what)
                settle(cache, what)
                if obj is not navigate(cached[cache][doc].obj, specs[doc]['nodes'][op['node']]['path']):
                    raise Violation('not-shared', f'{what}: it gives another object than a later lookup')
        elif name == 'new':
            obj = JSONSchema(json.loads(json.dumps(docs[doc])), uri=URI(doc), catalog=cat, cacheid=cache, metaschema_uri=meta)
            entry = Loaded(doc)
            entry.obj = obj
            load(doc, cache, fetched, entry)
            expect(before, fetched, what)
            settle(cache, what)
        elif name in ('delete', 'delete-root'):
            for node in specs[doc]['nodes']:
                if node['kind'] != 'plain' and (name == 'delete' or node['kind'] == 'root'):
                    cat.del_schema(URI(node['uri']), cacheid=cache)
            if name == 'delete' or doc in cached.get(cache, {}):
                cached.get(cache, {}).pop(doc, None)
            if name == 'delete-root':
                obj = cat.get_schema(URI(doc), metaschema_uri=meta, cacheid=cache)
                load(doc, cache, fetched)
                expect(before, fetched, what)
                cached[cache][doc].obj = obj
                # other documents may be fetched, and refer to what is left of the old one, but not in this step:
                settle(cache, what)
        elif name == 'change':
            specs[doc] = dict(specs[doc], version=specs[doc]['version'] + 1)
            docs[doc] = render(doc, specs[doc], draft)
        elif name == 'delete-meta':
            for u in (META, META + '#meta', DEP):
                cat.del_schema(URI(u), cacheid='__meta__')
            meta_cached.clear()
        elif name == 'context':
            with cat.cache() as c:
                obj = cat.get_schema(URI(doc), metaschema_uri=meta, cacheid=c)
                load(doc, c, fetched)
                expect(before, fetched, what)
                settle(c, what)
                walk(cached[c][doc], plan['walks'], what)
            del cached[c]
        elif name == 'walk':
            if doc in cached.get(cache, {}):
                walk(cached[cache][doc], op['path'], what)
                expect(before, [], what)
        elif name == 'threads':
            ops = [o for t in op['threads'] for o in t]
            if any(o['doc'] not in specs for o in ops):
                raise Skip
            results = []

            def body(t, mine):
                def f():
                    for o in mine:
                        node = specs[o['doc']]['nodes'][o['node'] % len(specs[o['doc']]['nodes'])]
                        # an address that can be found in any case
                        u = f'{o["doc"]}#{node["path"]}' if node['path'] else o['doc']
                        results.append((o, node, u, cat.get_schema(URI(u), metaschema_uri=meta, cacheid=o['cache'])))
                return f

            web.hook = lambda u: op['slow'] and sched.current is not None and seams.env.sleep(0.1)
            s = Scheduler(ctx, op['sched'], boot.PREFIX)
            for t, mine in enumerate(op['threads']):
                s.spawn(body(t, mine))
            for status, value in s.run():
                if status == 'exc':
                    raise value
            web.hook = None
            ctx.fault('threads')
            for o in ops:
                load(o['doc'], o['cache'], fetched)
            expect(before, fetched, what)
            for c in sorted({o['cache'] for o in ops}):
                settle(c, what)
            for o, node, u, obj in results:
                ctx.checks += 1
                if obj is not navigate(cached[o['cache']][o['doc']].obj, node['path']):
                    raise Violation('not-shared', f'{what}: a thread got another object for {u} in {o["cache"]}')
    before = dict(web.counts)
    for c in list(cached):
        settle(c, 'in the end')
        for doc, entry in cached[c].items():
            for k in range(3):
                walk(entry, plan['walks'][k:], f'in the end, from {doc} in {c}')
    expect(before, [], 'in the end')
    ctx.nontrivial = again[0] > 0


def check(specs):
    """Is the graph in order (after shrinking)?"""
    for u, s in specs.items():
        for node in s['nodes']:
            if node['kind'] == 'embedded' and resolve(parent_base(s, node), node['id']).rstrip('#') != node['uri']:
                raise Skip
            for e in node['edges']:
                if e['to'][0] not in specs or e['to'][1] >= len(specs[e['to'][0]]['nodes']):
                    raise Skip


def parent_base(s, node):
    path = node['path'].rsplit('/', 2)[0]
    for n in s['nodes']:
        if n['path'] == path:
            return n['base']
    raise Skip


def resolve(base, ref):
    return join(base, ref) if base.startswith('https:') else ref


def shrink(plan):
    for ops in list_shrinks(plan['ops']):
        yield dict(plan, ops=ops)
    for i, op in enumerate(plan['ops']):
        def alt(**kw):
            return dict(plan, ops=plan['ops'][:i] + [{**op, **kw}] + plan['ops'][i + 1:])
        if op.get('fail'):
            yield alt(fail=None)
        if op.get('node'):
            yield alt(node=0)
        if op['op'] == 'threads':
            for ts in list_shrinks(op['threads']):
                if len(ts) > 1:
                    yield alt(threads=ts)
            for j, t in enumerate(op['threads']):
                for ops in list_shrinks(t):
                    yield alt(threads=op['threads'][:j] + [ops] + op['threads'][j + 1:])
    if plan['dep']:
        yield dict(plan, dep=False)
    for u, s in plan['docs'].items():
        def with_doc(new):
            docs = dict(plan['docs'])
            if new is None:
                del docs[u]
            else:
                docs[u] = new
            return dict(plan, docs=docs)
        if len(plan['docs']) > 1:
            yield with_doc(None)
        if len(s['nodes']) > 1:
            yield with_doc(dict(s, nodes=s['nodes'][:-1]))
        for k, plain in (('id', None), ('schema', False)):
            if s[k] != plain:
                yield with_doc(dict(s, **{k: plain}))
        for i, node in enumerate(s['nodes']):
            if 'odd' in node:
                yield with_doc(dict(s, nodes=s['nodes'][:i] + [{k: v for k, v in node.items() if k != 'odd'}] + s['nodes'][i + 1:]))
            for edges in list_shrinks(node['edges']):
                yield with_doc(dict(s, nodes=s['nodes'][:i] + [dict(node, edges=edges)] + s['nodes'][i + 1:]))
