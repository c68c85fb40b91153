"""An independent evaluator of JSON Schema 2019-09 and 2020-12, for verdicts.

It works on a whole set of documents, addressed by URI, and knows nothing of
catalogs, caches or loading. Only what the generators produce is supported.
"""
import re
from fractions import Fraction
from urllib.parse import unquote, urljoin

from sim.values import jeq

SCHEMA_URI = {d: f'https://json-schema.org/draft/{d}/schema' for d in ('2019-09', '2020-12')}
DRAFT_OF = {v: k for k, v in SCHEMA_URI.items()}

ONE = {'not', 'if', 'then', 'else', 'contains', 'additionalProperties', 'unevaluatedProperties', 'unevaluatedItems',
       'propertyNames'}
MANY = {'allOf', 'anyOf', 'oneOf'}
NAMED = {'$defs', 'properties', 'patternProperties', 'dependentSchemas'}


class Loop(Exception):
    """Evaluation does not end."""


class TooBig(Exception):
    """Evaluation takes more steps than we are ready to simulate."""


class Ambiguous(Exception):
    """The specification does not settle the outcome."""


class Unresolvable(Exception):
    """A reference has no target."""


def escape(t):
    return t.replace('~', '~0').replace('/', '~1')


def split_uri(uri):
    base, sep, frag = uri.partition('#')
    return base, (unquote(frag) if sep else None)


def remove_dot_segments(path):
    out = []
    segments = path.split('/')[1:]
    for n, segment in enumerate(segments):
        last = n == len(segments) - 1
        if segment in ('.', '..'):
            if segment == '..' and out:
                out.pop()
            if last:
                out.append('')
        else:
            out.append(segment)
    return '/' + '/'.join(out)


def join(base, ref):
    """RFC 3986, section 5.2, for a base with an authority. (`urljoin` drops empty path segments.)"""
    if not base.startswith('https://'):
        return urljoin(base, ref)
    parts = re.compile(r'(?:([^:/?#]+):)?(?://([^/?#]*))?([^?#]*)(?:\?([^#]*))?(?:#(.*))?', re.S)
    _, authority, path, query, _ = parts.fullmatch(base).groups()
    scheme, a, p, q, f = parts.fullmatch(ref).groups()
    if scheme is not None:
        return ref
    if a is not None:
        authority, path, query = a, remove_dot_segments(p) if p else '', q
    elif p:
        path = remove_dot_segments(p if p.startswith('/') else (path.rpartition('/')[0] if path else '') + '/' + p)
        query = q
    elif q is not None:
        query = q
    return f'https://{authority}{path}' + (f'?{query}' if query is not None else '') + (f'#{f}' if f else '')


def resolve(base, ref):
    if re.match(r'[A-Za-z][A-Za-z0-9+.-]*:', ref):
        return ref
    if ref.startswith('#'):
        return base.partition('#')[0] + ref
    return join(base, ref)


class Resource:
    __slots__ = ('uri', 'root', 'nodes', 'anchors', 'dynamic', 'doc')

    def __init__(self, uri, doc):
        self.uri = uri
        self.doc = doc            # URI of the document it is in
        self.root = None
        self.nodes = {}           # pointer within the resource -> Node
        self.anchors = {}
        self.dynamic = {}


class Node:
    """A schema or subschema."""
    __slots__ = ('value', 'resource', 'pointer', 'draft', 'kids', 'target')

    def __init__(self, value, resource, pointer, draft):
        self.value = value
        self.resource = resource
        self.pointer = pointer
        self.draft = draft
        self.kids = {}            # keyword -> Node | [Node] | {name: Node}
        self.target = {}          # reference keyword -> Node, resolved lazily

    def uri(self):
        from urllib.parse import quote
        return self.resource.uri + ('#' + quote(self.pointer, safe="/~!$&'()*+,;=:@?-._") if self.pointer else '')


class Registry:
    def __init__(self, docs, draft):
        """docs: {retrieval URI: document}; draft: of documents without $schema."""
        self.resources = {}
        self.docs = docs
        for uri, doc in docs.items():
            res = Resource(uri, uri)
            self.resources[uri] = res
            res.root = self._scan(doc, res, '', draft)

    def _scan(self, value, res, pointer, draft):
        if isinstance(value, dict):
            draft = DRAFT_OF[value['$schema']] if '$schema' in value else draft
            if '$id' in value:
                uri = resolve(res.uri, value['$id']).rstrip('#')
                if uri != res.uri:
                    # embedded, or the document says otherwise
                    inner = Resource(uri, res.doc)
                    self.resources[uri] = inner
                    if not pointer:
                        self.resources[res.uri] = inner
                    res, pointer = inner, ''
        node = Node(value, res, pointer, draft)
        res.nodes[pointer] = node
        if not pointer:
            res.root = node
        if not isinstance(value, dict):
            return node
        if '$anchor' in value:
            res.anchors[value['$anchor']] = node
        if draft == '2020-12' and '$dynamicAnchor' in value:
            res.anchors[value['$dynamicAnchor']] = node
            res.dynamic[value['$dynamicAnchor']] = node
        for k, v in value.items():
            p = f'{pointer}/{escape(k)}'
            if k in ONE or k == 'additionalItems' and draft == '2019-09' or \
                    k == 'items' and not (draft == '2019-09' and isinstance(v, list)):
                node.kids[k] = self._scan(v, res, p, draft)
            elif k in MANY or k == 'items' or k == 'prefixItems' and draft == '2020-12':
                node.kids[k] = [self._scan(x, res, f'{p}/{i}', draft) for i, x in enumerate(v)]
            elif k in NAMED:
                node.kids[k] = {n: self._scan(x, res, f'{p}/{escape(n)}', draft) for n, x in v.items()}
        return node

    def lookup(self, uri):
        """The node that `uri` denotes."""
        base, frag = split_uri(uri)
        res = self.resources.get(base)
        if res is None:
            raise Unresolvable(uri)
        if not frag:
            return res.root
        if frag.startswith('/'):
            node = res.nodes.get(frag)
        else:
            node = res.anchors.get(frag)
        if node is None:
            raise Unresolvable(uri)
        return node

    def target(self, node, kw):
        t = node.target.get(kw)
        if t is None:
            t = node.target[kw] = self.lookup(resolve(node.resource.uri, node.value[kw]))
        return t

    def reachable(self, uri):
        """The documents that are loaded when the one at `uri` is constructed."""
        todo, seen = [self.lookup(uri).resource.doc], set()
        while todo:
            doc = todo.pop()
            if doc in seen:
                continue
            seen.add(doc)
            for res in self.resources.values():
                if res.doc == doc:
                    for node in res.nodes.values():
                        if isinstance(node.value, dict):
                            for kw in ('$ref', '$dynamicRef'):
                                if kw in node.value and (kw == '$ref' or node.draft == '2020-12'):
                                    todo.append(self.target(node, kw).resource.doc)
        return seen

    def verdict(self, uri, instance, budget=4000):
        return Evaluation(self, budget).run(self.lookup(uri), instance)


NOTHING = (frozenset(), frozenset())


class Evaluation:
    def __init__(self, reg, budget):
        self.reg = reg
        self.budget = budget
        self.active = set()

    def run(self, node, instance):
        valid, _, _ = self.schema(node, instance, (), (), ())
        return valid

    def schema(self, node, inst, path, scope, entered):
        """(valid, evaluated property names, evaluated item indices).

        scope: the resources in the dynamic scope, outermost first;
        entered: the schemas in the dynamic scope (for $recursiveRef)."""
        self.budget -= 1
        if self.budget < 0:
            raise TooBig
        s = node.value
        if s is True:
            return True, *NOTHING
        if s is False:
            return False, *NOTHING
        if node.resource not in scope:
            scope += node.resource,
        if node not in entered:
            entered += node,
        key = (id(node), path, scope)
        if key in self.active:
            raise Loop
        self.active.add(key)
        try:
            return self.object_schema(node, s, inst, path, scope, entered)
        finally:
            self.active.discard(key)

    def object_schema(self, node, s, inst, path, scope, entered):
        kids = node.kids
        props, items = set(), set()
        ok = True

        def sub(n, i, p):
            return self.schema(n, i, p, scope, entered)

        def inplace(n):
            """Apply a subschema to the same instance, keeping its annotations."""
            v, p, it = sub(n, inst, path)
            if v:
                props.update(p)
                items.update(it)
            return v

        # references
        if '$ref' in s:
            ok &= inplace(self.reg.target(node, '$ref'))
        if node.draft == '2020-12' and '$dynamicRef' in s:
            t = self.reg.target(node, '$dynamicRef')
            frag = split_uri(s['$dynamicRef'])[1]
            if isinstance(t.value, dict) and frag and t.value.get('$dynamicAnchor') == frag:
                for r in scope:
                    if frag in r.dynamic:
                        t = r.dynamic[frag]
                        break
            ok &= inplace(t)
        if node.draft == '2019-09' and '$recursiveRef' in s:
            t = node.resource.root
            if t.value.get('$recursiveAnchor') is True:
                by_resource = next(r.root for r in scope if isinstance(r.root.value, dict)
                                   and r.root.draft == '2019-09' and r.root.value.get('$recursiveAnchor') is True)
                by_schema = next((n for n in entered if n.draft == '2019-09'
                                  and n.value.get('$recursiveAnchor') is True), t)
                if by_resource is not by_schema:
                    raise Ambiguous
                t = by_resource
            ok &= inplace(t)

        # in-place applicators
        # (a keyword that fails leaves no annotations behind; this cannot change the verdict,
        # but decides whether an unevaluated* keyword gets to recurse)
        for kw, test in (('allOf', all), ('anyOf', any), ('oneOf', lambda vs: sum(vs) == 1)):
            if kw in kids:
                results = [sub(n, inst, path) for n in kids[kw]]
                if test([v for v, _, _ in results]):
                    for _, p, it in results:
                        props.update(p)
                        items.update(it)
                else:
                    ok = False
        if 'not' in kids:
            ok &= not sub(kids['not'], inst, path)[0]
        if 'if' in kids:
            if inplace(kids['if']):
                if 'then' in kids:
                    ok &= inplace(kids['then'])
            elif 'else' in kids:
                ok &= inplace(kids['else'])
        if isinstance(inst, dict):
            results = [sub(n, inst, path) for name, n in kids.get('dependentSchemas', {}).items() if name in inst]
            if all(v for v, _, _ in results):
                for _, p, it in results:
                    props.update(p)
                    items.update(it)
            else:
                ok = False

        ok &= self.assertions(s, inst)
        if isinstance(inst, list):
            ok &= self.array(node, s, kids, inst, path, items, sub)
        if isinstance(inst, dict):
            ok &= self.object(node, s, kids, inst, path, props, sub)
        if not ok:
            return False, *NOTHING
        return True, frozenset(props), frozenset(items)

    def array(self, node, s, kids, inst, path, items, sub):
        ok = True
        n = len(inst)

        def at(schema, i):
            return sub(schema, inst[i], path + (i,))[0]

        def apply(schema_of, indices):
            """Apply a keyword to items; they are evaluated if all are valid."""
            nonlocal ok
            if all([at(schema_of(i), i) for i in indices]):
                items.update(indices)
            else:
                ok = False

        if node.draft == '2020-12':
            k = 0
            if 'prefixItems' in kids:
                k = min(n, len(kids['prefixItems']))
                apply(lambda i: kids['prefixItems'][i], range(k))
            if 'items' in kids:
                apply(lambda i: kids['items'], range(k, n))
        elif isinstance(kids.get('items'), list):
            k = min(n, len(kids['items']))
            apply(lambda i: kids['items'][i], range(k))
            if 'additionalItems' in kids:
                apply(lambda i: kids['additionalItems'], range(k, n))
        elif 'items' in kids:
            apply(lambda i: kids['items'], range(n))
        if 'contains' in kids:
            matched = [i for i in range(n) if at(kids['contains'], i)]
            contains = len(matched) >= s.get('minContains', 1)
            if 'maxContains' in s and len(matched) > s['maxContains']:
                ok = False
            if not contains:
                ok = False
            elif node.draft == '2020-12':
                items.update(matched)
        if 'unevaluatedItems' in kids:
            apply(lambda i: kids['unevaluatedItems'], [i for i in range(n) if i not in items])
        if 'minItems' in s:
            ok &= n >= s['minItems']
        if 'maxItems' in s:
            ok &= n <= s['maxItems']
        if s.get('uniqueItems'):
            ok &= not any(jeq(inst[i], inst[j]) for i in range(n) for j in range(i))
        return ok

    def object(self, node, s, kids, inst, path, props, sub):
        ok = True

        def at(schema, name):
            return sub(schema, inst[name], path + (name,))[0]

        def apply(pairs):
            """Apply a keyword to properties; they are evaluated if all are valid."""
            nonlocal ok
            pairs = list(pairs)
            if all([at(n, name) for n, name in pairs]):
                props.update(name for _, name in pairs)
            else:
                ok = False
            return {name for _, name in pairs}

        known = apply((n, name) for name, n in kids.get('properties', {}).items() if name in inst)
        known |= apply((n, name) for regex, n in kids.get('patternProperties', {}).items()
                       for name in inst if re.search(regex, name))
        if 'additionalProperties' in kids:
            apply((kids['additionalProperties'], name) for name in inst if name not in known)
        if 'propertyNames' in kids:
            for name in inst:
                ok &= sub(kids['propertyNames'], name, path + (name, 'name'))[0]
        if 'unevaluatedProperties' in kids:
            apply((kids['unevaluatedProperties'], name) for name in inst if name not in props)
        if 'required' in s:
            ok &= all(k in inst for k in s['required'])
        for k, ds in s.get('dependentRequired', {}).items():
            if k in inst:
                ok &= all(d in inst for d in ds)
        if 'minProperties' in s:
            ok &= len(inst) >= s['minProperties']
        if 'maxProperties' in s:
            ok &= len(inst) <= s['maxProperties']
        return ok

    @staticmethod
    def assertions(s, inst):
        if 'type' in s:
            types = s['type'] if isinstance(s['type'], list) else [s['type']]
            if not any(has_type(inst, t) for t in types):
                return False
        if 'enum' in s and not any(jeq(inst, v) for v in s['enum']):
            return False
        if 'const' in s and not jeq(inst, s['const']):
            return False
        if isinstance(inst, (int, float)) and not isinstance(inst, bool):
            if 'multipleOf' in s and Fraction(repr(inst)) % Fraction(repr(s['multipleOf'])) != 0:
                return False
            if 'minimum' in s and inst < s['minimum'] or 'maximum' in s and inst > s['maximum']:
                return False
            if 'exclusiveMinimum' in s and inst <= s['exclusiveMinimum'] or \
                    'exclusiveMaximum' in s and inst >= s['exclusiveMaximum']:
                return False
        if isinstance(inst, str):
            if 'minLength' in s and len(inst) < s['minLength'] or 'maxLength' in s and len(inst) > s['maxLength']:
                return False
            if 'pattern' in s and not re.search(s['pattern'], inst):
                return False
        return True


def has_type(v, t):
    return {'null': v is None, 'boolean': isinstance(v, bool),
            'number': isinstance(v, (int, float)) and not isinstance(v, bool),
            'integer': not isinstance(v, bool) and (isinstance(v, int) or isinstance(v, float) and v.is_integer()),
            'string': isinstance(v, str), 'array': isinstance(v, list), 'object': isinstance(v, dict)}[t]
