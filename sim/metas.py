"""Metaschemas, valid and invalid."""
import json

from sim.refeval import SCHEMA_URI

VOCABS = {
    '2020-12': ['core', 'applicator', 'unevaluated', 'validation', 'meta-data', 'format-annotation', 'content'],
    '2019-09': ['core', 'applicator', 'validation', 'meta-data', 'format', 'content'],
}
# the last ones fail in the constructor, the others when they are validated
INVALID = ['type', 'properties', 'deep', 'anchor', 'keyword-value']
REFUSED = ['unknown-vocabulary', 'no-core', 'two-cores', 'missing-ref', 'bad-pointer', 'pattern', 'scalar', 'list', 'core-false',
           'bad-vocabulary-uri', 'late-missing-ref']
VALID = ['full', 'small', 'strict', 'optional-vocabulary', 'own-keyword', 'optional-corelike']


# URIs of unknown vocabularies which look like known ones
ALIKE = ['https://x.test/core', 'https://x.test/draft/2020-12/vocab/core',
         *(f'https://json-schema.org/draft/{d}/vocab/{n}' for d in VOCABS for n in ('core-extras', 'core/more', 'cor', 'validation2'))]


def vocab_uri(draft, name):
    return f'https://json-schema.org/draft/{draft}/vocab/{name}'


def meta_of(draft, name):
    return f'https://json-schema.org/draft/{draft}/meta/{name}'


def make(uri, draft, variant, dep=None, nested=None):
    """The document of a metaschema. `dep`: URI of a schema it references; `nested`: its own $schema."""
    anchor = {'$dynamicAnchor': 'meta'} if draft == '2020-12' else {'$recursiveAnchor': True}
    names = VOCABS[draft] if variant not in ('small', 'strict') else ['core', 'applicator', 'validation']
    doc = {
        '$schema': nested or SCHEMA_URI[draft],
        '$id': uri,
        '$vocabulary': {vocab_uri(draft, n): True for n in names},
        **anchor,
        'allOf': [{'$ref': meta_of(draft, n)} for n in names],
        'type': ['object', 'boolean'],
    }
    if dep:
        doc['$defs'] = {'dep': {'$ref': dep}}
    v = doc['$vocabulary']
    core = vocab_uri(draft, 'core')
    if variant == 'strict':
        doc['properties'] = {'title': {'const': 'strict'}}
        doc['required'] = ['title']
    elif variant == 'optional-vocabulary':
        v['https://x.test/vocab/unknown'] = False
    elif variant == 'optional-corelike':
        for u in ALIKE:
            v[u] = False
    elif variant == 'own-keyword':
        doc['properties'] = {'x-own': {'type': 'integer'}}
    elif variant == 'type':
        doc['type'] = 'nonsense'
    elif variant == 'properties':
        doc['properties'] = {'a': {'minLength': -1}}
    elif variant == 'deep':
        doc['properties'] = {'a': {'properties': {'b': {'type': 3}}}}
    elif variant == 'anchor':
        doc['properties'] = {'a': {'$anchor': 'not valid!'}}
    elif variant == 'keyword-value':
        doc['maxLength'] = 'x'
    elif variant == 'unknown-vocabulary':
        v['https://x.test/vocab/unknown'] = True
    elif variant == 'no-core':
        del v[core]
    elif variant == 'core-false':
        v[core] = False
    elif variant == 'two-cores':
        other = '2019-09' if draft == '2020-12' else '2020-12'
        v[vocab_uri(other, 'core')] = True
    elif variant == 'bad-vocabulary-uri':
        v['no uri'] = True
    elif variant == 'missing-ref':
        doc['allOf'].append({'$ref': 'https://s.test/no/such/document'})
    elif variant == 'late-missing-ref':
        doc['properties'] = {'z': {'properties': {'y': {'$ref': 'https://s.test/no/such/document'}}}}
    elif variant == 'bad-pointer':
        doc['allOf'].append({'$ref': '#/$defs/nowhere'})
    elif variant == 'pattern':
        doc['properties'] = {'p': {'pattern': '('}}
    elif variant == 'scalar':
        return 17
    elif variant == 'list':
        return [doc]
    return json.loads(json.dumps(doc))


def probes(variant, draft):
    """[(a schema, does a schema of that metaschema look like that?)]"""
    strict = variant == 'strict'
    out = [
        ({'type': 'string'}, not strict),
        ({'type': 'nonsense', 'title': 'strict'}, False),
        ({'title': 'strict', 'minLength': 1}, True),
        ({'title': 'strict', 'properties': {'a': {'maxLength': -1}}}, False),
        (True, True if not strict else True),
    ]
    if variant == 'own-keyword':
        out += [({'x-own': 1}, True), ({'x-own': 'a'}, False)]
    return out
