"""Code of the user's that runs inside evaluations: a format validator and a keyword."""
import json

from sim import metas

META = 'https://s.test/meta/hook'
VOCAB = 'https://x.test/vocab/hook'
FORMAT = 'x-sim'
KEYWORD = 'x-hook'


class Controller:
    def __init__(self):
        self.fn = None            # called as fn(kind, data)
        self.calls = 0

    def __call__(self, kind, data):
        self.calls += 1
        if self.fn is not None:
            self.fn(kind, data)


def sprinkle(rng, docs, density=0.3, keyword=True, format=FORMAT):
    """Put the format and the keyword into some of the (sub)schemas."""
    from sim import refeval

    def walk(v):
        if not isinstance(v, dict):
            return
        for k, x in list(v.items()):
            if k in refeval.ONE or k == 'items' and isinstance(x, dict):
                walk(x)
            elif (k in refeval.MANY or k in ('items', 'prefixItems')) and isinstance(x, list):
                for y in x:
                    walk(y)
            elif k in refeval.NAMED and isinstance(x, dict):
                for y in x.values():
                    walk(y)
        if rng.random() < density:
            v['format'] = format
        if keyword and rng.random() < density:
            v[KEYWORD] = {'inner': rng.choice([1, 'a', None, [True]])}
        if rng.random() < 0.3:
            items = list(v.items())
            rng.shuffle(items)
            v.clear()
            v.update(items)

    for d in docs.values():
        walk(d)


def odd(data):
    """Does the format reject that?"""
    return data in ('foo', 2, False) if not isinstance(data, (list, dict)) else len(data) == 3


def install(cat, draft, docs, controller, keyword):
    """Returns the URI of the metaschema to use."""
    from jschon import URI
    from jschon.vocabulary import Keyword
    from jschon.vocabulary.format import format_validator

    @format_validator(FORMAT, instance_types=('null', 'boolean', 'number', 'string', 'array', 'object'))
    def validate(data):
        controller('format', data)
        if odd(data):
            raise ValueError('simulated rejection')

    cat.enable_formats(FORMAT)
    if not keyword:
        return URI(f'https://json-schema.org/draft/{draft}/schema')

    class Hook(Keyword):
        key = KEYWORD

        def evaluate(self, instance, result):
            result.annotate('before')
            shared = result.globals
            shared['seen'] = shared.get('seen', 0) + 1
            with result(instance, 'inner') as sub:
                controller('keyword', instance.data)
                sub.annotate(['inside', sub.globals['seen']])
            if odd(instance.data):
                result.fail('simulated failure')
            shared['last'] = str(instance.path)
            result.annotate(['after', self.json.value, shared['seen'], result.globals['last']])

    cat.create_vocabulary(URI(VOCAB), Hook)
    doc = metas.make(META, draft, 'full')
    doc['$vocabulary'][VOCAB] = True
    docs[META] = json.loads(json.dumps(doc))
    uri = URI(META)
    cat.create_metaschema(uri)
    return uri
