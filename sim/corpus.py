"""Sets of interlinked schema documents, and the sources that serve them."""
import copy
import json
from urllib.parse import quote

from sim import refeval
from sim.refeval import Node, Registry, join
from sim.values import gen_scalar

DEF_NAMES = ['a', 'b', 'c', 'd', 'x y', 'a/b', 'm~n', 'é', '%41', '', 'foo%25', '0', '日本', 'a+b', 'x%2By', 'p&q;r', 'a?b', '"q"', 'a^|b', '~1', '-', "'", '#', '\\', '%zz', '%C3']
PROPS = ['a', 'b', 'c', 'foo', 'bar']
PATTERNS = ['^a', 'o', '^b', '.', '^$', '[ab]', '^foo$', 'r$']
ANCHORS = ['one', 'two', 'A', 'x-1', '_y', 'n.m']
BASES = ['https://s.test/', 'https://s.test/dir/', 'https://s.test/dir/sub/', 'https://t.test/', 'tag:s.test,2024:', 'urn:ex:',
         'https://s.test/q?n=']
NAMES = ['a', 'b', 'b.json', 'c', 'dd', 'd', 'e.json', 'f%20g', '%C3%A9']


def gen_instance(rng, depth=2):
    k = rng.random()
    if depth <= 0 or k < 0.25:
        k = rng.randrange(12)
        if k == 0:
            return None
        if k <= 2:
            return rng.random() < 0.5
        if k <= 7:
            return rng.choice([0, 1, 2, 3, 4, 6, -1, 1.0, 0.5, 2.5, 10 ** 20, 0.3])
        return rng.choice(['', 'a', 'ab', 'foo', 'bar', 'abc', 'é'])
    if k < 0.55:
        return [gen_instance(rng, depth - 1) for _ in range(rng.choice([0, 1, 2, 2, 3, 4]))]
    return {rng.choice(PROPS): gen_instance(rng, depth - 1) for _ in range(rng.choice([0, 1, 2, 2, 3, 4]))}


REF = {'$ref': '@'}


class Gen:
    def __init__(self, rng, draft, unevaluated_items=True, refs=0.3):
        self.rng = rng
        self.draft = draft
        self.unevaluated_items = unevaluated_items
        self.refs = refs
        self.n = 0

    def schema(self, depth, root=False):
        rng = self.rng
        self.n += 1
        if not root:
            k = rng.random()
            if k < 0.06:
                return True
            if k < 0.10:
                return False
            if k < 0.10 + self.refs:
                s = dict(REF)
                if rng.random() < 0.25:
                    s.update(self.keywords(depth - 1, 1))
                return s
        return self.keywords(depth, rng.choice([1, 1, 2, 3]) if depth > 0 else 1)

    def keywords(self, depth, n):
        rng = self.rng
        s = {}
        if depth <= 0 or self.n > 60:
            for _ in range(n):
                self.assertion(s)
            return s
        for _ in range(n):
            k = rng.random()
            if k < 0.22:
                self.assertion(s)
            elif k < 0.55:
                self.object(s, depth)
            elif k < 0.75:
                self.array(s, depth)
            else:
                self.inplace(s, depth)
        if rng.random() < 0.2:
            s['unevaluatedProperties'] = self.schema(0) if rng.random() < 0.5 else False
        if self.unevaluated_items and rng.random() < 0.15:
            s['unevaluatedItems'] = self.schema(0) if rng.random() < 0.5 else False
        if rng.random() < 0.12:
            s[rng.choice(['title', '$comment', 'description', 'x-unknown', 'examples', 'default', 'deprecated', 'readOnly',
                          'contentEncoding', 'format', '', 'X'])] = rng.choice(['a', 'b'])
            if 'examples' in s:
                s['examples'] = [1]
            if 'deprecated' in s or 'readOnly' in s:
                s.update({k: True for k in ('deprecated', 'readOnly') if k in s})
        if rng.random() < 0.3:
            items = list(s.items())
            rng.shuffle(items)
            s = dict(items)
        return s

    def assertion(self, s):
        rng = self.rng
        k = rng.randrange(14)
        if k <= 2:
            s['type'] = rng.choice(['object', 'array', 'string', 'integer', 'number', 'boolean', 'null', ['object', 'array'],
                                    ['string', 'integer', 'object'], ['array', 'null', 'number']])
        elif k == 3:
            s['enum'] = [gen_instance(rng, 1) for _ in range(rng.randrange(1, 4))]
        elif k == 4:
            s['const'] = gen_instance(rng, 1)
        elif k == 5:
            s['required'] = rng.sample(PROPS, rng.randrange(1, 3))
        elif k == 6:
            s['minimum'] = rng.choice([0, 1, 2, 0.5])
        elif k == 7:
            s['maximum'] = rng.choice([0, 1, 3, 2.5])
        elif k == 8:
            s[rng.choice(['minLength', 'maxLength'])] = rng.randrange(4)
        elif k == 9:
            s['pattern'] = rng.choice(PATTERNS)
        elif k == 10:
            s[rng.choice(['minItems', 'maxItems', 'minProperties', 'maxProperties'])] = rng.randrange(4)
        elif k == 11:
            s[rng.choice(['exclusiveMinimum', 'exclusiveMaximum'])] = rng.choice([0, 1, 2])
        elif k == 12:
            s['multipleOf'] = rng.choice([1, 2, 0.5, 0.1, 3, 1e-10])
        else:
            if rng.random() < 0.5:
                s['uniqueItems'] = True
            else:
                s['dependentRequired'] = {rng.choice(PROPS): [rng.choice(PROPS)]}

    def object(self, s, depth):
        rng = self.rng
        k = rng.randrange(10)
        if k <= 3:
            s['properties'] = {p: self.schema(depth - 1) for p in rng.sample(PROPS, rng.randrange(1, 4))}
        elif k == 4:
            s['patternProperties'] = {p: self.schema(depth - 1) for p in rng.sample(PATTERNS, rng.randrange(1, 3))}
        elif k == 5:
            s['additionalProperties'] = self.schema(depth - 1)
        elif k == 6:
            s['propertyNames'] = self.schema(0)
        elif k == 7:
            s['dependentSchemas'] = {p: self.schema(depth - 1) for p in rng.sample(PROPS, rng.randrange(1, 3))}
        else:
            s['properties'] = {p: self.schema(depth - 1) for p in rng.sample(PROPS, rng.randrange(1, 3))}
            s['additionalProperties'] = self.schema(0)

    def array(self, s, depth):
        rng = self.rng
        k = rng.randrange(8)
        if k <= 2:
            s['items'] = self.schema(depth - 1)
        elif k <= 4:
            subs = [self.schema(depth - 1) for _ in range(rng.randrange(1, 3))]
            if self.draft == '2020-12':
                s['prefixItems'] = subs
                if rng.random() < 0.5:
                    s['items'] = self.schema(0)
            else:
                s['items'] = subs
                if rng.random() < 0.5:
                    s['additionalItems'] = self.schema(0)
        else:
            s['contains'] = self.schema(depth - 1)
            if rng.random() < 0.3:
                s['minContains'] = rng.randrange(3)
            if rng.random() < 0.3:
                s['maxContains'] = rng.randrange(3)

    def inplace(self, s, depth):
        rng = self.rng
        k = rng.randrange(9)
        if k <= 5:
            s[rng.choice(['allOf', 'allOf', 'anyOf', 'anyOf', 'oneOf'])] = [
                self.schema(depth - 1) for _ in range(rng.randrange(1, 4))]
        elif k == 6:
            s['not'] = self.schema(depth - 1)
        else:
            s['if'] = self.schema(depth - 1)
            if rng.random() < 0.7:
                s['then'] = self.schema(depth - 1)
            if rng.random() < 0.7:
                s['else'] = self.schema(depth - 1)


def sibling(rng, uri):
    """Another URI that resembles it."""
    if '?' in uri:
        return rng.choice([uri.partition('?')[0], uri + '2', uri.partition('?')[0] + '?m=a'])
    return rng.choice([uri + '?v=2', uri + '?', uri + '/', uri[:-1] + uri[-1].swapcase(), uri + '.json', uri + '/a', uri + uri[-1]]
                      if '%' not in uri else [uri + '?v=2', uri + 'x'])


def gen_uri(rng, taken):
    while True:
        if taken and rng.random() < 0.25:
            uri = sibling(rng, rng.choice(sorted(taken)))
            if uri not in taken and not uri.endswith('?'):
                return uri
        uri = rng.choice(BASES) + rng.choice(NAMES)
        if uri not in taken:
            return uri


def gen_small(rng, drafts=('2020-12', '2019-09')):
    """A single document with a few keywords that depend on each other, and
    instances most of which differ in what they make of it."""
    draft = rng.choice(drafts)
    scalars = rng.sample([0, 1, 2, 3, 'a', 'foo', '', None, True, 0.5], 4)
    props = rng.sample(PROPS, 3)
    on_array = rng.random() < 0.5

    def leaf():
        k = rng.randrange(7)
        return [lambda: {'const': rng.choice(scalars)}, lambda: {'enum': rng.sample(scalars, 2)},
                lambda: {'type': rng.choice(['number', 'string', 'integer', 'null', 'boolean'])},
                lambda: {'not': {'const': rng.choice(scalars)}}, lambda: {'minimum': 1}, lambda: {'maxLength': 1},
                lambda: {'$ref': '#/$defs/d'}][k]()

    def whole():
        """About the whole instance."""
        if on_array:
            return rng.choice([{'minItems': rng.randrange(1, 4)}, {'maxItems': rng.randrange(1, 4)}, {'contains': leaf()},
                               {'items': [leaf()] if draft == '2019-09' else leaf()}, {'uniqueItems': True},
                               {'contains': leaf(), 'maxContains': rng.choice([1, 2])}])
        return rng.choice([{'required': [rng.choice(props)]}, {'properties': {rng.choice(props): leaf()}},
                           {'patternProperties': {rng.choice(PATTERNS): leaf()}}, {'minProperties': rng.randrange(1, 4)},
                           {'dependentRequired': {props[0]: [props[1]]}}, {'propertyNames': {'maxLength': rng.choice([1, 2])}},
                           {'maxProperties': rng.randrange(1, 4)}])

    def arrays():
        k = rng.randrange(4)
        if k == 0:
            return {'contains': leaf(), **{kw: rng.randrange(3) for kw in rng.choice([['minContains'], ['maxContains'], [
                'minContains', 'maxContains']])}}
        subs = [leaf() for _ in range(rng.choice([1, 2]))]
        if k == 1:
            return {'prefixItems': subs, 'items': leaf()} if draft == '2020-12' else {'items': subs, 'additionalItems': leaf()}
        if k == 2:
            s = {'prefixItems' if draft == '2020-12' else 'items': subs}
            if draft == '2020-12' and rng.random() < 0.6:
                s['contains'] = leaf()
            return {**s, 'unevaluatedItems': rng.random() > 0.6 or leaf()}
        return {'items': leaf()}

    def objects():
        s = {}
        k = rng.randrange(4)
        if k != 1:
            s['properties'] = {p: leaf() for p in rng.sample(props, rng.choice([1, 2]))}
        if k != 0:
            s['patternProperties'] = {p: leaf() for p in rng.sample(PATTERNS, rng.choice([1, 2]))}
        if k != 3:
            s[rng.choice(['additionalProperties', 'unevaluatedProperties'])] = rng.random() > 0.6 or leaf()
        return s

    body = {}
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.randrange(8)
        if k <= 3:
            body.update(arrays() if on_array else objects())
        elif k == 4:
            body.update({'if': whole(), 'then': whole(), 'else': whole()})
        elif k == 5:
            body[rng.choice(['allOf', 'anyOf', 'oneOf'])] = [whole() for _ in range(rng.choice([2, 3]))]
        elif k == 6:
            kw = 'unevaluatedItems' if on_array else 'unevaluatedProperties'
            sub = whole()
            body = {rng.choice(['allOf', 'anyOf', 'oneOf']): [sub, {**body, **whole()}], kw: rng.random() > 0.7 or leaf()}
        elif not on_array:
            body['dependentSchemas'] = {p: whole() for p in rng.sample(props, 2)}
    if rng.random() < 0.3:
        body = shuffled(body, rng)
    doc = {'$defs': {'d': {'enum': scalars[:2]}}, **body}
    instances = []
    for _ in range(rng.choice([3, 6])):
        n = rng.choice([0, 1, 2, 2, 3, 4])
        instances.append([rng.choice(scalars) for _ in range(n)] if on_array
                         else {p: rng.choice(scalars) for p in rng.sample(PROPS, n)})
    if rng.random() < 0.3:
        # one level further down
        if rng.random() < 0.5:
            doc = {'$defs': doc.pop('$defs'), 'items': doc}
            instances = [[x] + [rng.choice(instances)] * rng.randrange(2) for x in instances]
        else:
            doc = {'$defs': doc.pop('$defs'), 'additionalProperties': doc}
            instances = [{rng.choice(PROPS): x, rng.choice(PROPS): rng.choice(instances)} for x in instances]
    return {'draft': draft, 'mode': draft, 'docs': {gen_uri(rng, ()): doc}, 'instances': instances}


VALUES = [0, 1, 2, -1, 1.5, 0.1, 0.3, 100, 10 ** 20, 1e20, 2 ** 53, 2 ** 53 + 1, 1e-7, 1e300, -0.0, True, False, None, '', '0', '1', 'true', 'null',
          'a', 'A', 'ab', ' ', 'é', 'e\u0301', '\U0001f600', '\U0001f600a', 'a\nb', '\u0000', '\u2028', [], {}, [[]], [0], [False], ['a', 1], [1, 'a'],
          {'a': 1}, {'a': 1, 'b': [2, {'c': None}]}, {'': 0}, {'a': None}, {'a': {}}, {'é': 1}, {'a': [], 'b': {}}, '[1]', '{"a": 1}']


def variant(v, rng):
    """The same value, differently written."""
    if isinstance(v, bool):
        return v
    if isinstance(v, int) and float(v) == v:
        return float(v) if rng.random() < 0.5 else v
    if isinstance(v, float) and v == int(v):
        return int(v) if rng.random() < 0.5 else v
    if isinstance(v, list):
        return [variant(x, rng) for x in v]
    if isinstance(v, dict):
        return {k: variant(v[k], rng) for k in rng.sample(list(v), len(v))}
    return v


def near(v, rng):
    """Another value, though not by much."""
    if isinstance(v, bool):
        return rng.choice([not v, int(v), float(v), 'true' if v else 'false', str(v)])
    if v is None:
        return rng.choice(['', 0, False, 'null', [], {}])
    if isinstance(v, (int, float)):
        return rng.choice([v + 1, v - 1, -v, v * 2, v / 2, str(v), [v], bool(v), v + 0.1, v + 1e-9])
    if isinstance(v, str):
        return rng.choice([v + 'a', v[:-1], v.upper(), v.lower(), [v], v + '\U0001f600', v[::-1], v + '\n', ' ' + v, list(v)])
    if isinstance(v, list):
        if v and rng.random() < 0.7:
            i = rng.randrange(len(v))
            return rng.choice([v[:i] + [near(v[i], rng)] + v[i + 1:], v[::-1], v[:i] + v[i + 1:], v + [v[i]]])
        return rng.choice([v + [None], [v], {str(i): x for i, x in enumerate(v)}, v + [[]]])
    if v and rng.random() < 0.7:
        k = rng.choice(list(v))
        rest = {a: b for a, b in v.items() if a != k}
        return rng.choice([rest, {**v, k: near(v[k], rng)}, {**rest, k + ' ': v[k]}, {**v, 'z': None}, {**rest, k: None}])
    return rng.choice([{**v, 'z': None}, [v], list(v), {**v, '': 0}])


def gen_values(rng, drafts=('2020-12', '2019-09')):
    """A single document that asks what values are, and instances that are
    these values, or nearly."""
    draft = rng.choice(drafts)
    vs = rng.sample(VALUES, 4)

    def some(v):
        k = rng.random()
        return copy.deepcopy(v) if k < 0.3 else variant(v, rng) if k < 0.65 else near(v, rng)

    strings = [v for v in VALUES if isinstance(v, str)]
    numbers = [v for v in VALUES if isinstance(v, (int, float)) and not isinstance(v, bool)]
    k = rng.randrange(10)
    lists = False
    if k == 0:
        s = {'const': vs[0]}
    elif k == 1:
        s = {'enum': vs[:rng.choice([1, 2, 3])]}
    elif k == 2:
        s = {'uniqueItems': rng.random() < 0.9}
        lists = True
    elif k == 3:
        s = {'contains': {'const': vs[0]}, **rng.choice([{}, {'maxContains': 1}, {'minContains': 2}])}
        lists = True
    elif k == 4:
        vs = rng.sample(strings, 4)
        s = {rng.choice(['minLength', 'maxLength']): rng.choice([0, 1, 1, 2, 2, 3])}
    elif k == 5:
        vs = rng.sample(numbers, 4)
        s = {rng.choice(['minimum', 'maximum', 'exclusiveMinimum', 'exclusiveMaximum']): some(vs[0])}
        if not isinstance(*s.values(), (int, float)) or isinstance(*s.values(), bool):
            s = {'minimum': 1}
    elif k == 6:
        vs = rng.sample(numbers, 4)
        s = {'multipleOf': rng.choice([1, 2, 0.1, 0.01, 0.3, 1e-7, 1.5, 3, 10 ** 20, 1e300])}
    elif k == 7:
        s = {'type': rng.choice(['integer', 'number', 'boolean', 'null', 'string', 'array', 'object', ['integer', 'string'], ['number', 'null']])}
    elif k == 8:
        names = rng.sample(strings, 3)
        vs = [{n: rng.choice(VALUES) for n in rng.sample(names, m)} for m in (1, 2, 3, 0)]
        s = rng.choice([{'required': names[:2]}, {'properties': {n: {'type': rng.choice(['integer', 'string', 'null'])} for n in names}, 'additionalProperties': False},
                        {'propertyNames': {'enum': names[:2]}}, {'dependentRequired': {names[0]: names[1:]}}, {'propertyNames': {'maxLength': 1}},
                        {'dependentSchemas': {n: {'minProperties': 2} for n in names}}, {'maxProperties': 2}])
    else:
        vs = rng.sample(strings, 4)
        s = {'pattern': rng.choice(['^.$', '^..$', '^a', 'a$', '\U0001f600', '^\\S', 'e.', '^$', '[^a]', '\\d', '^[A-Z]'])}
    doc = {**s}
    instances = []
    for _ in range(rng.choice([4, 8])):
        if lists:
            a = [some(rng.choice(vs[:2])) for _ in range(rng.choice([1, 2, 2, 3]))] + [rng.choice(vs)] * rng.randrange(2)
            instances.append(a)
        else:
            instances.append(some(rng.choice([vs[0], *vs])))
    k = rng.random()
    if k < 0.15:
        doc = {'items': doc}
        instances = [[i, rng.choice(instances)] for i in instances]
    elif k < 0.3:
        doc = {'additionalProperties': doc}
        instances = [{rng.choice(PROPS): i} for i in instances]
    elif k < 0.4:
        doc = {'not': doc}
    return {'draft': draft, 'mode': draft, 'docs': {gen_uri(rng, ()): doc}, 'instances': instances}


def gen_unevaluated(rng, drafts=('2020-12', '2019-09')):
    """A single document with an unevaluated* keyword, everything it depends
    on somewhere below it, and instances that concern much of it."""
    draft = rng.choice(drafts)
    on_array = rng.random() < 0.35
    props = PROPS[:4]
    defs = {}

    def some():
        return rng.choice([True, True, True, {'type': 'integer'}, {'minimum': 1}, {'type': ['integer', 'string']}])

    def item():
        if on_array:
            k = rng.random()
            if draft == '2020-12':
                if k < 0.5:
                    return {'prefixItems': [some() for _ in range(rng.choice([1, 2, 2, 3]))]}
                return {'contains': rng.choice([{'const': 1}, {'type': 'integer'}, {'type': 'string'}])} if k < 0.8 else {'minItems': 1}
            if k < 0.7:
                return {'items': [some() for _ in range(rng.choice([1, 2, 2, 3]))], **({'additionalItems': some()} if rng.random() < 0.2 else {})}
            return {'minItems': 1} if k < 0.9 else {'items': some()}
        k = rng.random()
        if k < 0.65:
            s = {'properties': {p: some() for p in rng.sample(props, rng.choice([1, 1, 2]))}}
            if rng.random() < 0.25:
                s['required'] = [rng.choice(list(s['properties']))]
            return s
        if k < 0.85:
            return {'patternProperties': {rng.choice(['^a', '^b', 'c', 'oo']): some()}}
        return {'required': [rng.choice(props)]} if k < 0.95 else {'additionalProperties': some()}

    def node(depth):
        if depth <= 0 or rng.random() < 0.25:
            return item()
        s = {} if rng.random() < 0.6 else item()
        for kw in rng.sample(['allOf', 'anyOf', 'anyOf', 'oneOf', 'if', '$ref', 'dependentSchemas', 'not', 'unevaluated'], rng.choice([1, 1, 2])):
            if kw in ('allOf', 'anyOf', 'oneOf'):
                s[kw] = [node(depth - 1) for _ in range(rng.choice([1, 2, 2, 3]))]
            elif kw == 'if':
                s['if'] = node(depth - 1)
                s.update({k: node(depth - 1) for k in ('then', 'else') if rng.random() < 0.7})
            elif kw == '$ref':
                name = f'd{len(defs)}'
                defs[name] = None
                defs[name] = node(depth - 1)
                s['$ref'] = f'#/$defs/{name}'
            elif kw == 'dependentSchemas' and not on_array:
                s[kw] = {p: node(depth - 1) for p in rng.sample(props, rng.choice([1, 2]))}
            elif kw == 'not':
                s['not'] = node(depth - 1) if rng.random() < 0.4 else {'not': node(depth - 1)}
            elif kw == 'unevaluated' and rng.random() < 0.4:
                s['unevaluatedItems' if on_array else 'unevaluatedProperties'] = some()
        return shuffled(s, rng) if rng.random() < 0.5 else s

    doc = node(rng.choice([1, 2, 2, 3]))
    doc['unevaluatedItems' if on_array else 'unevaluatedProperties'] = False if rng.random() < 0.8 else {'type': 'string'}
    if defs:
        doc['$defs'] = defs
    items = list(doc.items())
    rng.shuffle(items)
    value = lambda: rng.choice([0, 1, 1, 2, 3, 'a'])  # noqa: E731
    instances = [[value() for _ in range(rng.randrange(4))] if on_array else {p: value() for p in rng.sample(props, rng.randrange(5))}
                 for _ in range(rng.choice([5, 8]))]
    return {'draft': draft, 'mode': draft, 'docs': {gen_uri(rng, ()): dict(items)}, 'instances': instances}


def gen_dense(rng, drafts=('2020-12', '2019-09')):
    """A single document full of keywords that each have several parts, and
    instances that concern most of them."""
    draft = rng.choice(drafts)
    g = Gen(rng, draft, refs=0)
    names = rng.sample(['a', 'b', 'c', 'd', 'x y'], rng.randrange(1, 4))

    def leaf():
        k = rng.random()
        if k < 0.15:
            return {'$ref': '#/$defs/' + quote(rng.choice(names))}
        if k < 0.25:
            return rng.random() < 0.6
        if k < 0.35:
            return {'const': rng.choice([1, 2, 'foo', 'a'])}
        if k < 0.5:
            return {'required': [rng.choice(PROPS)]}
        s = {}
        for _ in range(rng.choice([1, 1, 2])):
            g.assertion(s)
        return s

    def node(depth):
        if depth <= 0:
            return leaf()
        s = {}
        some = (lambda: node(depth - 1) if rng.random() < 0.3 else leaf())
        for kind in rng.sample(['object', 'array', 'inplace', 'if'], rng.choice([1, 2, 3])):
            if kind == 'object':
                if rng.random() < 0.6:
                    s['properties'] = {p: some() for p in rng.sample(PROPS, rng.randrange(2, 5))}
                if rng.random() < 0.7:
                    s['patternProperties'] = {p: some() for p in rng.sample(PATTERNS, rng.randrange(2, 5))}
                if rng.random() < 0.4:
                    s['additionalProperties'] = some()
                if rng.random() < 0.3:
                    s['dependentSchemas'] = {p: some() for p in rng.sample(PROPS, rng.randrange(2, 4))}
                if rng.random() < 0.2:
                    s['propertyNames'] = leaf()
                if rng.random() < 0.3:
                    s['dependentRequired'] = {p: rng.sample(PROPS, rng.randrange(1, 3)) for p in rng.sample(PROPS, 2)}
            elif kind == 'array':
                if rng.random() < 0.6:
                    s['prefixItems' if draft == '2020-12' else 'items'] = [some() for _ in range(rng.randrange(2, 4))]
                    if rng.random() < 0.6:
                        s['items' if draft == '2020-12' else 'additionalItems'] = some()
                else:
                    s['items'] = some()
                if rng.random() < 0.4:
                    s['contains'] = leaf()
                    for kw in rng.choice([[], ['minContains'], ['maxContains'], ['minContains', 'maxContains']]):
                        s[kw] = rng.randrange(4)
                if rng.random() < 0.3:
                    s['uniqueItems'] = True
            elif kind == 'inplace':
                s[rng.choice(['allOf', 'anyOf', 'oneOf'])] = [some() for _ in range(rng.randrange(2, 5))]
                if rng.random() < 0.3:
                    s['not'] = some()
            else:
                s.update({'if': some(), 'then': some(), 'else': some()})
        if rng.random() < 0.3:
            s['enum'] = [gen_instance(rng, 1) for _ in range(rng.randrange(2, 5))]
        if rng.random() < 0.3:
            s['unevaluatedProperties'] = leaf()
        if rng.random() < 0.2:
            s['unevaluatedItems'] = leaf()
        return shuffled(s, rng) if rng.random() < 0.3 else s

    def inst(depth):
        if depth <= 0:
            return gen_instance(rng, 0)
        if rng.random() < 0.6:
            return {p: inst(depth - 1 if rng.random() < 0.4 else 0) for p in rng.sample(PROPS, rng.randrange(2, 6))}
        return [inst(depth - 1 if rng.random() < 0.4 else 0) for _ in range(rng.randrange(2, 5))]

    doc = {'$defs': {n: leaf() if rng.random() < 0.7 else {'allOf': [leaf(), leaf()]} for n in names}}
    for n, d in enumerate(doc['$defs'].values()):
        # no cycles
        if isinstance(d, dict):
            for x in [d] + d.get('allOf', []):
                if isinstance(x, dict):
                    x.pop('$ref', None)
    body = node(rng.choice([1, 2, 2]))
    if rng.random() < 0.35:
        # unevaluated* keywords on top of each other
        inner, outer = {}, {}
        for kw in rng.choice([['unevaluatedItems'], ['unevaluatedProperties'], ['unevaluatedItems', 'unevaluatedProperties']]):
            inner[kw] = rng.random() < 0.5 or leaf()
            outer[kw] = False if rng.random() < 0.7 else leaf()
        body = {**body, **inner} if rng.random() < 0.7 else inner
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.randrange(7)
            other = leaf()
            body = [lambda: {'allOf': [other, body]}, lambda: {'anyOf': [body, other]}, lambda: {'oneOf': [body, other]},
                    lambda: {'if': body, 'then': other, 'else': True}, lambda: {'if': True, 'then': body},
                    lambda: {'dependentSchemas': {rng.choice(PROPS): body}, 'allOf': [body]},
                    lambda: {'not': {'not': body}}][k]()
        body.update(outer)
        if rng.random() < 0.5:
            body = shuffled(body, rng)
    doc.update(body)
    instances = [inst(rng.choice([1, 2, 2])) for _ in range(rng.choice([3, 6]))]
    return {'draft': draft, 'mode': draft, 'docs': {gen_uri(rng, ()): doc}, 'instances': instances}


def gen_corpus(rng, drafts=('2020-12', '2019-09', 'mixed'), ndocs=(1, 5), dense=0):
    """{'draft', 'docs': {uri: document}, 'instances': [...]}"""
    if dense and rng.random() < dense:
        return rng.choice([gen_dense, gen_dense, gen_small, gen_small, gen_values, gen_unevaluated])(rng)
    mode = rng.choice(drafts)
    docs = {}
    holders = []
    n = rng.randrange(ndocs[0], ndocs[1])
    few_bases = rng.sample(BASES, min(2, len(BASES)))
    taken = set()
    for _ in range(n):
        uri = rng.choice(few_bases) + rng.choice(NAMES)
        if uri in taken or rng.random() < 0.1:
            uri = gen_uri(rng, taken)
        taken.add(uri)
        draft = rng.choice(['2020-12', '2019-09']) if mode == 'mixed' else mode
        g = Gen(rng, draft, unevaluated_items=mode != 'mixed', refs=rng.choice([0.1, 0.3, 0.45]))
        if rng.random() < 0.04:
            docs[uri] = rng.random() < 0.5
            continue
        doc = {}
        if mode == 'mixed' or rng.random() < 0.3:
            doc['$schema'] = refeval.SCHEMA_URI[draft]
        if rng.random() < 0.5:
            doc['$id'] = gen_id(rng, uri, uri)
        if rng.random() < 0.2:
            doc['$anchor'] = rng.choice(ANCHORS)
        add_defs(rng, g, doc, uri, draft, mode, taken, 0)
        body = g.schema(rng.choice([1, 2, 2, 3]), root=True)
        if rng.random() < 0.3:
            body['$ref'] = '@'
        doc.update(body)
        if draft == '2019-09' and rng.random() < 0.35:
            doc['$recursiveAnchor'] = rng.random() < 0.8
        if draft == '2020-12' and rng.random() < 0.35:
            doc['$dynamicAnchor'] = rng.choice(['node', 'item'])
        if rng.random() < 0.4:
            items = list(doc.items())
            rng.shuffle(items)
            doc = dict(items)
        docs[uri] = doc
    fill_refs(rng, docs, mode)
    instances = [gen_instance(rng, rng.choice([1, 2, 3])) for _ in range(rng.choice([3, 6]))]
    return {'draft': '2020-12' if mode == 'mixed' else mode, 'mode': mode, 'docs': docs, 'instances': instances}


def gen_id(rng, uri, base):
    k = rng.random()
    if k < 0.2:
        return uri + '#'
    return uri if k < 0.6 else relative(rng, uri, base)


def relative(rng, uri, base):
    """A URI reference that resolves to `uri` from `base`."""
    cands = [uri]
    b, _, frag = uri.partition('#')
    bb = base.partition('#')[0]
    if b == bb and '#' in uri:
        cands += ['#' + frag] * 3
    if b.startswith('https:') and bb.startswith('https:'):
        rel = [b[6:], b.rsplit('/', 1)[1]]
        if b.split('/')[2] == bb.split('/')[2]:
            rel += ['/' + b.split('/', 3)[3], './' + b.rsplit('/', 1)[1], '../' + b.rsplit('/', 1)[1],
                    '../../' + b.split('/', 3)[3], 'sub/' + b.rsplit('/', 1)[1]]
        if b == bb:
            rel += ['', '']
        if '?' in b:
            rel.append('?' + b.split('?')[1])
        for r in rel:
            if join(bb, r) == b:
                cands.append(r + ('#' + frag if '#' in uri else ''))
    return rng.choice(cands)


def add_defs(rng, g, doc, base, draft, mode, taken, level):
    if rng.random() < (0.75 if level == 0 else 0.5):
        defs = {}
        anchors = rng.sample(ANCHORS, len(ANCHORS))
        if '$anchor' in doc:
            anchors.remove(doc['$anchor'])
        dyn = ['node', 'item', 'other']
        rng.shuffle(dyn)
        for name in rng.sample(DEF_NAMES, rng.randrange(1, 4)):
            sub = g.schema(1)
            if isinstance(sub, dict):
                k = rng.random()
                if k < 0.25:
                    sub['$anchor'] = anchors.pop()
                elif k < 0.45 and draft == '2020-12' and dyn:
                    sub['$dynamicAnchor'] = dyn.pop()
                elif k < 0.65 and level < 2:
                    uri = gen_uri(rng, taken)
                    taken.add(uri)
                    sub = {'$id': gen_id(rng, uri, base), **sub}
                    d2 = draft
                    if mode == 'mixed' and rng.random() < 0.3:
                        sub['$schema'] = refeval.SCHEMA_URI[draft]
                    if draft == '2019-09' and rng.random() < 0.4:
                        sub['$recursiveAnchor'] = True
                    if draft == '2020-12' and rng.random() < 0.4:
                        sub['$dynamicAnchor'] = rng.choice(['node', 'item'])
                    add_defs(rng, g, sub, uri, d2, mode, taken, level + 1)
            defs[name] = sub
        doc['$defs'] = defs


def fill_refs(rng, docs, mode):
    """Point the references somewhere."""
    # root anchors may have been added after the defs
    for doc in docs.values():
        if isinstance(doc, dict):
            drop_clashes(doc)
    blank = Registry(docs, '2020-12' if mode == 'mixed' else mode)
    order = list(docs)
    places = []
    for res in unique(blank.resources.values()):
        for p, node in res.nodes.items():
            places.append(node)
    shared = [n for n in places if n.resource.root is blank.lookup(n.resource.doc)]   # visible from other documents
    for node in places:
        v = node.value
        if isinstance(v, dict) and v.get('$ref') == '@':
            del v['$ref']
            own = [n for n in places if n.resource.doc == node.resource.doc]
            cands = own if rng.random() < 0.5 or not shared else shared
            k = rng.random()
            if k < 0.35:
                cands = [n for n in cands if not n.pointer] or cands
            elif k < 0.7:
                cands = [n for n in cands if isinstance(n.value, dict) and ('$anchor' in n.value or '$dynamicAnchor' in n.value)
                         or n.pointer.startswith('/$defs')] or cands
            t = rng.choice(cands)
            base = node.resource.uri
            if node.draft == '2019-09' and rng.random() < 0.2:
                v['$recursiveRef'] = '#'
                continue
            uri = t.uri()
            if isinstance(t.value, dict):
                names = [t.value[k] for k in ('$anchor', '$dynamicAnchor') if k in t.value
                         and (k == '$anchor' or t.draft == '2020-12')]
                if names and rng.random() < 0.7:
                    uri = t.resource.uri + '#' + rng.choice(names)
            if uri == t.resource.uri and rng.random() < 0.2:
                uri += '#'
            kw = '$ref'
            if node.draft == '2020-12' and rng.random() < (0.7 if isinstance(t.value, dict) and '$dynamicAnchor' in t.value
                                                           else 0.05):
                kw = '$dynamicRef'
            v[kw] = relative(rng, uri, base)


def drop_clashes(doc):
    """Make anchors unique within each resource."""
    seen = set()

    def walk(v, seen):
        if isinstance(v, list):
            for x in v:
                walk(x, seen)
        if not isinstance(v, dict):
            return
        if isinstance(v.get('$id'), str):
            seen = set()
        for k in ('$anchor', '$dynamicAnchor'):
            if isinstance(v.get(k), str):
                if v[k] in seen:
                    del v[k]
                else:
                    seen.add(v[k])
        for x in v.values():
            walk(x, seen)

    walk(doc, seen)


def unique(xs):
    seen = set()
    for x in xs:
        if id(x) not in seen:
            seen.add(id(x))
            yield x


def shuffled(v, rng):
    """The same document with object members in another order."""
    if isinstance(v, dict):
        items = [(k, shuffled(x, rng)) for k, x in v.items()]
        rng.shuffle(items)
        return dict(items)
    if isinstance(v, list):
        return [shuffled(x, rng) for x in v]
    return v


def sanitise(docs, draft, mode):
    """Do the documents form a corpus (after shrinking)?"""
    try:
        reg = Registry(docs, draft)
        for res in unique(reg.resources.values()):
            for node in list(res.nodes.values()):
                if isinstance(node.value, dict):
                    for kw in ('$ref', '$dynamicRef'):
                        if kw in node.value:
                            if not isinstance(node.value[kw], str):
                                return None
                            reg.target(node, kw)
        if any(reg.resources[uri].uri != uri for uri in docs):
            return None
    except (refeval.Unresolvable, KeyError, TypeError, AttributeError, ValueError):
        return None
    return reg


def scribble(x, n=0):
    """Change a document in place, all over."""
    if isinstance(x, dict):
        for v in list(x.values()):
            scribble(v, n)
        x.update({k: [False, {'not': {}}, 'scribble'][n % 3] for k in x})
        x['scribble'] = n
    elif isinstance(x, list):
        for v in x:
            scribble(v, n)
        if n % 2:
            x.clear()
        x += [n, 'scribble', 1, 'foo', None]


class Web:
    """The sources of a catalog: documents that can fail, change and be counted."""

    def __init__(self, ctx, docs, shuffle=None):
        self.ctx = ctx
        self.docs = docs
        self.overlay = {}         # uri -> document served instead
        self.nth = None           # [n, exception]: the nth fetch from now fails
        self.off = False          # no fetch succeeds, and none is counted
        self.counts = {}
        self.fail = {}            # uri -> list of exceptions to raise, one per fetch
        self.always_fail = {}     # uri -> exception
        self.hook = None          # called at each fetch
        self.shuffle = shuffle
        self.handed = []          # every document served

    def fetch(self, uri):
        from jschon.exc import CatalogError
        if self.off:
            raise CatalogError('sources are off')
        self.counts[uri] = self.counts.get(uri, 0) + 1
        if self.hook is not None:
            self.hook(uri)
        failures = self.fail.get(uri)
        if failures:
            self.ctx.fault('source-fails')
            raise make_exc(failures.pop(0))
        if uri in self.always_fail:
            self.ctx.fault('source-fails')
            raise make_exc(self.always_fail[uri])
        if self.nth is not None:
            self.nth[0] -= 1
            if self.nth[0] == 0:
                self.ctx.fault('source-fails')
                raise make_exc(self.nth[1])
        if uri in self.overlay:
            self.ctx.fault('source-serves-broken-document')
            return self.overlay[uri]()
        if uri not in self.docs:
            raise CatalogError(f'no document {uri}')
        doc = json.loads(json.dumps(self.docs[uri]))
        if self.shuffle is not None:
            doc = shuffled(doc, self.shuffle)
        self.handed.append(doc)
        return doc

    def install(self, catalog):
        import jschon

        class WebSource(jschon.catalog.Source):
            def __init__(self, prefix, web):
                super().__init__()
                self.prefix, self.web = prefix, web

            def __call__(self, relative_path):
                return self.web.fetch(self.prefix + relative_path)

        for prefix in ('https://s.test/', 'https://s.test/dir/', None):
            catalog.add_uri_source(jschon.URI(prefix) if prefix else None, WebSource(prefix or '', self))

    def total(self):
        return sum(self.counts.values())


def make_exc(name):
    from jschon.exc import CatalogError
    if name == 'CatalogError':
        return CatalogError('simulated')
    import builtins
    return getattr(builtins, name)('simulated')


def meta_uri(draft):
    import jschon
    return jschon.URI(refeval.SCHEMA_URI[draft])


def shrink_corpus(c):
    from sim.runner import json_shrinks
    for uri in list(c['docs']):
        yield dict(c, docs={k: v for k, v in c['docs'].items() if k != uri})
    for i in range(len(c['instances'])):
        if len(c['instances']) > 1:
            yield dict(c, instances=c['instances'][:i] + c['instances'][i + 1:])
    for uri, doc in c['docs'].items():
        for s in json_shrinks(doc, strings=False):
            if isinstance(s, (dict, bool)):
                yield dict(c, docs=dict(c['docs'], **{uri: s}))
    for i, inst in enumerate(c['instances']):
        for s in json_shrinks(inst):
            yield dict(c, instances=c['instances'][:i] + [s] + c['instances'][i + 1:])


class Oracle:
    """What the verdicts must be."""

    def __init__(self, corpus):
        self.corpus = corpus
        self.reg = sanitise(corpus['docs'], corpus['draft'], corpus.get('mode'))
        if self.reg is None:
            from sim.kernel import Skip
            raise Skip('not a corpus')
        self.memo = {}

    def verdict(self, uri, i):
        """True, False, or None if there is none to be had."""
        if (uri, i) not in self.memo:
            try:
                v = self.reg.verdict(uri, self.corpus['instances'][i])
            except (refeval.Loop, refeval.TooBig, refeval.Ambiguous, RecursionError) as e:
                v = None
            self.memo[uri, i] = v
        return self.memo[uri, i]

    def targets(self):
        """All URIs of (sub)schemas, with the document they are in."""
        out = []
        for res in unique(self.reg.resources.values()):
            for p, node in res.nodes.items():
                out.append((node.uri(), res.doc))
                if isinstance(node.value, dict):
                    for k in ('$anchor', '$dynamicAnchor'):
                        if k in node.value and node.value[k] in res.anchors:
                            out.append((f'{res.uri}#{node.value[k]}', res.doc))
        return out


def catalog_for(corpus):
    """The catalog to use: one that knows the drafts used."""
    from sim import boot
    return boot.catalogs['all']
