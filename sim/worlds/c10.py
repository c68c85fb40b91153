"""C10: a JSON document stays consistent under every edit history."""
import json
from collections.abc import Mapping, Sequence

from sim import boot, seams
from sim.inject import Injector
from sim.kernel import Skip, Violation
from sim.runner import json_shrinks, list_shrinks
from sim.values import KEYS, brief, gen_scalar, gen_value, same

PID = 'C10'
DRAFTS = ()
RUNS = {'quick': 20000, 'thorough': 160000}
RULE = ('A case is a JSON document and a history of 3-30 edits and reads through the root and through held nodes, some '
        'with operands that cannot be converted, fail half-way, or for which memory runs out. Non-trivial: at least '
        'three edits took effect, or an edit failed inside.')
MEASURE = 'hash of the sequence of (operation, target type, outcome, document value)'
REAL = ['jschon.json', 'jschon.jsonpointer']
STUB = ['allocator (MemoryError injected at the nth object construction)', 'operands (collections failing half-way)']
ASSUMPTIONS = ['Bulk methods (extend, update) that fail half-way may leave a prefix of their effect.',
               'Stack exhaustion inside an edit is not injected.']


# -- the reference model: a tree of nodes with plain Python data

class M:
    __slots__ = ('data', 'parent', 'key')

    def __init__(self, value, parent=None, key=None):
        self.parent = parent
        self.key = key
        self.assign(value)

    def assign(self, value):
        if isinstance(value, list):
            self.data = [M(v, self, i) for i, v in enumerate(value)]
        elif isinstance(value, dict):
            self.data = {k: M(v, self, k) for k, v in value.items()}
        else:
            self.data = value

    @property
    def kind(self):
        d = self.data
        return ('null' if d is None else 'boolean' if isinstance(d, bool) else 'number' if isinstance(d, (int, float))
                else 'string' if isinstance(d, str) else 'array' if isinstance(d, list) else 'object')

    def value(self):
        if isinstance(self.data, list):
            return [m.value() for m in self.data]
        if isinstance(self.data, dict):
            return {k: m.value() for k, m in self.data.items()}
        return self.data

    def renumber(self):
        for i, m in enumerate(self.data):
            m.key = i

    def walk(self):
        yield self
        if isinstance(self.data, list):
            for m in self.data:
                yield from m.walk()
        elif isinstance(self.data, dict):
            for m in self.data.values():
                yield from m.walk()

    def keys(self):
        out = []
        m = self
        while m.parent is not None:
            out.append(m.key)
            m = m.parent
        return out[::-1]


class Fails(Exception):
    """The model's way of saying that the operation must fail."""


def resolve(m, tokens):
    for t in tokens:
        if isinstance(m.data, dict) and t in m.data:
            m = m.data[t]
        elif isinstance(m.data, list) and (t == '0' or (t and t.isascii() and t.isdigit() and t[0] != '0')) \
                and int(t) < len(m.data):
            m = m.data[int(t)]
        else:
            raise Fails
    return m


def parse_pointer(p):
    import re
    if p and not p.startswith('/') or re.search('~([^01]|$)', p):
        raise Fails
    return [t.replace('~1', '/').replace('~0', '~') for t in p.split('/')[1:]]


def escape(k):
    return str(k).replace('~', '~0').replace('/', '~1')


# -- operands

class Boom(Exception):
    pass


class LazySeq(Sequence):
    def __init__(self, items):
        self.items = items

    def __len__(self):
        return len(self.items) + 1

    def __getitem__(self, i):
        if i >= len(self.items):
            raise Boom
        return self.items[i]


class LazyMap(Mapping):
    def __init__(self, items):
        self.d = items

    def __len__(self):
        return len(self.d) + 1

    def __iter__(self):
        yield from self.d
        yield 'boom'

    def __getitem__(self, k):
        if k == 'boom':
            raise Boom
        return self.d[k]


def gen_operand(rng):
    k = rng.random()
    if k < 0.72:
        return {'v': gen_value(rng, 2, 3)}
    if k < 0.84:
        return {'node': rng.getrandbits(16)}       # another node of the document
    return {'bad': rng.choice(['object', 'set', 'nested', 'lazyseq', 'lazymap', 'bytes', 'deepset']), 'v': gen_value(rng, 2, 2)}


OPS = ['set', 'set', 'del', 'insert', 'insert', 'append', 'extend', 'iadd', 'pop', 'popkey', 'popdefault', 'popitem', 'clear',
       'reverse', 'update', 'setdefault', 'add', 'add', 'remove', 'remove', 'replace', 'replace', 'read', 'read', 'read',
       'read-all']
WANT = {'insert': 'array', 'append': 'array', 'extend': 'array', 'iadd': 'array', 'reverse': 'array', 'pop': 'array',
        'popkey': 'object', 'popdefault': 'object', 'popitem': 'object', 'update': 'object', 'setdefault': 'object'}


def gen_op(rng, ops):
    op = {'op': rng.choice(ops), 'at': rng.getrandbits(16)}
    name = op['op']
    op['want'] = WANT.get(name) if rng.random() < 0.93 else 'any'
    if op['want'] is None:
        op['want'] = rng.choice(['array', 'object', 'container', 'container', 'any'])
    if name in ('set', 'del', 'insert', 'pop', 'popkey', 'popdefault', 'setdefault'):
        op['k'] = rng.choice(['in', 'in', 'in', 'end', 'neg', 'neg', 'beyond', 'below', 'new', 'new'])
        op['n'] = rng.getrandbits(8)
        op['key'] = rng.choice(KEYS)
    if name in ('set', 'insert', 'append', 'setdefault', 'add', 'replace'):
        op['x'] = gen_operand(rng)
        if rng.random() < 0.08:
            op['mem'] = rng.random()
    if name in ('extend', 'iadd'):
        op['xs'] = [gen_operand(rng) for _ in range(rng.randrange(4))]
    if name == 'update':
        op['kv'] = [[rng.choice(KEYS), gen_operand(rng)] for _ in range(rng.randrange(4))]
    if name in ('add', 'remove', 'replace'):
        op['to'] = rng.getrandbits(16)
        op['last'] = rng.choice(['same', 'same', 'same', '-', 'len', 'new', '01', '+0', ' 0', '1_0', '-1', '00', '99', '', 'x',
                                 'root', 'child', 'malformed'])
        op['key'] = rng.choice(KEYS)
        op['ptr'] = rng.random() < 0.3
    if name == 'read':
        op['what'] = rng.choice(['value', 'path', 'both'])
    op['hold'] = rng.random() < 0.4
    return op


def alike(rng, v):
    """With scalars that are easily taken for each other."""
    if isinstance(v, list):
        return [alike(rng, x) for x in v]
    if isinstance(v, dict):
        return {k: alike(rng, x) for k, x in v.items()}
    return rng.choice([0, 1, True, False, 0.0, 1.0, 1, True, '1', '', None])


def gen(rng, tier):
    doc = gen_value(rng, rng.choice([1, 2, 3, 3, 4]), rng.choice([2, 4]))
    while not isinstance(doc, (list, dict)):
        doc = gen_value(rng, 3)
    ops = rng.sample(OPS, rng.randrange(6, len(OPS)))
    if not any(o.startswith('read') for o in ops):
        ops.append('read')
    plan = {'doc': doc, 'ops': [gen_op(rng, ops) for _ in range(rng.choice([3, 6, 12, 30]))]}
    if rng.random() < 0.2:
        plan['doc'] = alike(rng, doc)
        for op in plan['ops']:
            for x in [op.get('x')] + op.get('xs', []) + [x for _, x in op.get('kv', [])]:
                if x and 'v' in x:
                    x['v'] = alike(rng, x['v'])
    return plan


def run(plan, ctx):
    import jschon
    from jschon import JSON, JSONPointer
    env = seams.Environment(ctx)
    seams.env = env
    doc = JSON(plan['doc'])
    model = M(plan['doc'])
    held = {}          # id(model node) -> (model node, JSON node)
    effective = [0]
    inside = [0]

    def jnode(m):
        """The JSON node at the place of m, or as it was held."""
        if id(m) in held:
            return held[id(m)][1]
        j = doc
        for k in m.keys():
            j = j[k]
        return j

    def check_node(j, m, full=True):
        where = m.keys()
        ctx.check(j.type == m.kind, 'wrong-type', lambda: f'at {where}: type {j.type!r}, should be {m.kind!r}')
        p = JSONPointer([str(k) for k in where])
        got = j.path
        ctx.check(got == p, 'wrong-path', lambda: f'at {where}: path is {str(got)!r}')
        v = m.value()
        got = j.value
        ctx.check(same(got, v), 'wrong-value', lambda: f'at {where}: value is {brief(got)}, should be {brief(v)}')

    def check_links(j, m, parent):
        """Parents, keys and structure, without touching cached attributes."""
        where = m.keys()
        ctx.check(type(j) is JSON, 'wrong-node', lambda: f'at {where}: {type(j)}')
        ctx.check(j.parent is parent, 'wrong-parent', lambda: f'at {where}: wrong parent')
        key = None if m.parent is None else str(m.key)
        ctx.check(j.key == key, 'wrong-key', lambda: f'at {where}: key is {j.key!r}')
        if id(m) in held:
            ctx.check(held[id(m)][1] is j, 'node-replaced', lambda: f'the node at {where} is not the one held')
        if isinstance(m.data, list):
            ctx.check(type(j.data) is list and len(j.data) == len(m.data), 'wrong-items', lambda: f'at {where}: wrong items')
            for a, b in zip(j.data, m.data):
                check_links(a, b, j)
        elif isinstance(m.data, dict):
            ctx.check(type(j.data) is dict and j.data.keys() == m.data.keys(), 'wrong-items',
                      lambda: f'at {where}: wrong members {list(j.data)}')
            for k in m.data:
                check_links(j.data[k], m.data[k], j)
        else:
            ctx.check(same(j.data, m.data), 'wrong-data', lambda: f'at {where}: {brief(j.data)}, should be {brief(m.data)}')

    def check_all():
        check_links(doc, model, None)
        for m in model.walk():
            j = doc
            for k in m.keys():
                j = j[k]
            check_node(j, m)

    def detach(m):
        for x in m.walk():
            held.pop(id(x), None)

    def pick(op):
        nodes = list(model.walk())
        want = op['want']
        some = [m for m in nodes if want == 'any' or m.kind == want or want == 'container' and m.kind in ('array', 'object')]
        some = some or nodes
        return some[op['at'] % len(some)]

    def operand(x, late=False):
        """(what to pass, its plain value or None if it must fail)"""
        if 'node' in x:
            nodes = list(model.walk())
            m = nodes[x['node'] % len(nodes)]
            return jnode(m), m if late else m.value(), True
        v = x.get('v')
        if 'bad' in x:
            inside[0] += 1
            return {
                'object': lambda: object(),
                'set': lambda: {1},
                'bytes': lambda: range(0, 1).__class__,
                'nested': lambda: [v, {'a': [object()]}],
                'deepset': lambda: {'v': v, 'b': {1, 2}},
                'lazyseq': lambda: LazySeq([v, 1]),
                'lazymap': lambda: LazyMap({'a': v, 'b': [v]}),
            }[x['bad']](), None, False
        return json.loads(json.dumps(v)), v, True

    def index_of(op, m):
        """The index or key the operation uses on m."""
        if isinstance(m.data, list):
            n = len(m.data)
            i = op['n'] % n if n else 0
            return {'in': i, 'end': n, 'neg': i - n if n else -1, 'beyond': n + 3, 'below': -n - 1 - op['n'] % 2,
                    'new': n}[op['k']]
        if isinstance(m.data, dict):
            ks = list(m.data)
            if op['k'] in ('new', 'beyond', 'below') or not ks:
                return op['key']
            return ks[op['n'] % len(ks)]
        return op['n'] % 3 if op['n'] % 2 else op['key']

    def m_set(m, k, v):
        if isinstance(m.data, list):
            if not isinstance(k, int) or not -len(m.data) <= k < len(m.data):
                raise Fails
            k %= len(m.data)
            detach(m.data[k])
            m.data[k] = M(v, m, k)
        elif isinstance(m.data, dict):
            if k in m.data:
                detach(m.data[k])
            m.data[k] = M(v, m, k)
        else:
            raise Fails

    def m_del(m, k):
        if isinstance(m.data, list):
            if not isinstance(k, int) or not -len(m.data) <= k < len(m.data):
                raise Fails
            x = m.data.pop(k)
            m.renumber()
        elif isinstance(m.data, dict):
            if k not in m.data:
                raise Fails
            x = m.data.pop(k)
        else:
            raise Fails
        detach(x)
        return x.value()

    def m_insert(m, k, v):
        if not isinstance(m.data, list):
            raise Fails
        m.data.insert(k, M(v, m))
        m.renumber()

    def m_assign(m, v):
        for x in list(m.walk())[1:]:
            held.pop(id(x), None)
        m.assign(v)

    def must_work(f):
        try:
            return f()
        except Exception as e:
            if isinstance(e, Violation):
                raise
            raise Violation('spurious-failure', f'{type(e).__name__}: {str(e)[:200]}')

    def edit(f, plain_ok, model_edit, mem=None):
        """Do f to the document and model_edit to the model."""
        if mem is not None and plain_ok:
            inj = Injector(boot.PREFIX, 'alloc', 1 + int(mem * 6), MemoryError('simulated'))
            failed = None
            with inj:
                try:
                    f()
                except Exception as e:
                    failed = type(e).__name__
            if inj.fired:
                ctx.fault('allocation-fails')
                inside[0] += 1
                if failed is None:
                    raise Violation('failure-swallowed', 'the edit succeeded although memory ran out')
                return 'failed'
        else:
            failed = None
            result = None
            try:
                result = f()
            except Exception as e:
                failed = type(e).__name__ + ': ' + str(e)[:100]
        try:
            if not plain_ok:
                raise Fails
            expect = model_edit()
        except Fails:
            if failed is None:
                raise Violation('invalid-edit-accepted', 'the edit must fail, but it did not')
            return 'failed'
        if failed is not None:
            raise Violation('spurious-failure', f'the edit failed with {failed}')
        effective[0] += 1
        return 'done'

    def value_of(j):
        return j.value if isinstance(j, JSON) else j

    def run_op(op):
        name = op['op']
        m = pick(op)
        j = jnode(m)
        if op.get('hold'):
            held[id(m)] = (m, j)
        mem = op.get('mem')
        out = None
        if name == 'set':
            k = index_of(op, m)
            x, v, ok = operand(op['x'])
            out = edit(lambda: j.__setitem__(k, x), ok, lambda: m_set(m, k, v), mem)
        elif name == 'del':
            k = index_of(op, m)
            out = edit(lambda: j.__delitem__(k), True, lambda: m_del(m, k))
        elif name == 'insert':
            k = index_of(op, m)
            x, v, ok = operand(op['x'])
            if not isinstance(k, int):
                return 'skip'
            out = edit(lambda: j.insert(k, x), ok, lambda: m_insert(m, k, v), mem)
        elif name == 'append':
            x, v, ok = operand(op['x'])
            out = edit(lambda: j.append(x), ok, lambda: m_insert(m, len(m.data) if isinstance(m.data, list) else 0, v), mem)
        elif name in ('extend', 'iadd'):
            if not isinstance(m.data, list):
                return 'skip'
            xs = [operand(x, late=True) for x in op['xs']]

            def f():
                if name == 'extend':
                    j.extend([x for x, _, _ in xs])
                else:
                    jj = j
                    jj += [x for x, _, _ in xs]
                    ctx.check(jj is j, 'wrong-node', '+= made another node')
            failed = None
            try:
                f()
            except Exception as e:
                if isinstance(e, Violation):
                    raise
                failed = e
            for x, v, ok in xs:
                if not ok:
                    break
                # an operand taken from the document itself has the value it has by then
                m_insert(m, len(m.data), current(v))
            bad = any(not ok for _, _, ok in xs)
            if bad != (failed is not None):
                raise Violation('spurious-failure' if failed else 'invalid-edit-accepted', f'{name}: {failed!r}')
            if bad:
                # which part of it took effect is not specified
                resync()
            out = 'done'
            effective[0] += 1
        elif name == 'pop':
            if not isinstance(m.data, list):
                return 'skip'
            k = index_of(op, m) if op['k'] != 'new' else None
            got = []
            before = m.data[-1 if k is None else k].value() if m.data and -len(m.data) <= (k if k is not None else -1) < len(
                m.data) else None
            out = edit(lambda: got.append(j.pop() if k is None else j.pop(k)), True, lambda: m_del(m, -1 if k is None else k))
            if out == 'done':
                ctx.check(same(value_of(got[0]), before), 'wrong-result', lambda: f'pop() returned {brief(value_of(got[0]))}')
        elif name in ('popkey', 'popdefault'):
            if not isinstance(m.data, dict):
                return 'skip'
            k = index_of(op, m)
            got = []
            before = m.data[k].value() if k in m.data else 'the default'
            if name == 'popkey':
                out = edit(lambda: got.append(j.pop(k)), True, lambda: m_del(m, k))
            else:
                out = edit(lambda: got.append(j.pop(k, 'the default')), True,
                           lambda: m_del(m, k) if k in m.data else None)
            if out == 'done':
                ctx.check(same(value_of(got[0]), before), 'wrong-result', lambda: f'pop() returned {brief(value_of(got[0]))}')
        elif name == 'popitem':
            if not isinstance(m.data, dict):
                return 'skip'
            try:
                k, v = j.popitem()
            except KeyError:
                ctx.check(not m.data, 'spurious-failure', 'popitem() failed')
                return 'failed'
            ctx.check(k in m.data and same(value_of(v), m.data[k].value()), 'wrong-result', lambda: f'popitem() returned {k!r}, {v}')
            m_del(m, k)
            out = 'done'
        elif name == 'clear':
            if m.kind not in ('array', 'object'):
                return 'skip'
            out = edit(j.clear, True, lambda: m_assign(m, type(m.data)()))
        elif name == 'reverse':
            if m.kind != 'array':
                return 'skip'
            out = edit(j.reverse, True, lambda: m_assign(m, m.value()[::-1]))
        elif name == 'update':
            if m.kind != 'object':
                return 'skip'
            xs = [(k, *operand(x, late=True)) for k, x in op['kv']]
            kv = dict((k, x) for k, x, _, _ in xs)
            last = {k: (x, v, ok) for k, x, v, ok in xs}
            try:
                j.update(kv)
                failed = None
            except Exception as e:
                failed = e
            bad = any(not ok for _, _, ok in last.values())
            if bad != (failed is not None):
                raise Violation('spurious-failure' if failed else 'invalid-edit-accepted', f'update: {failed!r}')
            for k, (x, v, ok) in last.items():
                if not ok:
                    break
                m_set(m, k, current(v))
            if bad:
                resync()
            out = 'done'
        elif name == 'setdefault':
            if m.kind != 'object':
                return 'skip'
            k = index_of(op, m)
            x, v, ok = operand(op['x'])
            if k in m.data:
                ok = True
            out = edit(lambda: j.setdefault(k, x), ok, lambda: None if k in m.data else m_set(m, k, v), mem)
        elif name in ('add', 'remove', 'replace'):
            below = list(m.walk())
            t = below[op['to'] % len(below)]
            tokens = [str(k) for k in t.keys()[len(m.keys()):]]
            last = op['last']
            if last == 'root':
                tokens = []
            elif last == 'child':
                tokens = tokens + [op['key']]
            elif last == 'malformed':
                pass
            elif last != 'same':
                n = len(t.parent.data) if t.parent is not None else 0
                if tokens:
                    tokens[-1] = {'-': '-', 'len': str(n), 'new': op['key']}.get(last, last)
            text = ''.join('/' + escape(t) for t in tokens)
            if last == 'malformed':
                text = 'x' + text if op['ptr'] else text + '~'
            x, v, ok = operand(op['x']) if 'x' in op else (None, None, True)
            pointer = JSONPointer(text) if op['ptr'] and last != 'malformed' else text

            def in_model():
                toks = parse_pointer(text)
                if name == 'add':
                    if not toks:
                        return m_assign(m, v)
                    p = resolve(m, toks[:-1])
                    if isinstance(p.data, list):
                        k = toks[-1]
                        if k == '-':
                            i = len(p.data)
                        elif k == '0' or (k.isascii() and k.isdigit() and k[0] != '0'):
                            i = int(k)
                        else:
                            raise Fails
                        if i > len(p.data):
                            raise Fails
                        return m_insert(p, i, v)
                    return m_set(p, toks[-1], v)
                x = resolve(m, toks)
                if not toks:
                    return m_assign(m, None if name == 'remove' else v)
                if name == 'remove':
                    return m_del(x.parent, x.key)
                return m_set(x.parent, x.key, v)

            if name == 'remove':
                out = edit(lambda: j.remove(pointer), True, in_model)
            elif name == 'add':
                out = edit(lambda: j.add(pointer, x), ok, in_model, mem)
            else:
                out = edit(lambda: j.replace(pointer, x), ok, in_model, mem)
        elif name == 'read':
            if op['what'] in ('value', 'both'):
                ctx.check(same(j.value, m.value()), 'wrong-value',
                          lambda: f'at {m.keys()}: value is {brief(j.value)}, should be {brief(m.value())}')
            if op['what'] in ('path', 'both'):
                p = JSONPointer([str(k) for k in m.keys()])
                ctx.check(j.path == p, 'wrong-path', lambda: f'at {m.keys()}: path is {str(j.path)!r}')
            ctx.check(same(json.loads(str(j)), m.value()), 'wrong-text', lambda: f'at {m.keys()}: text is {str(j)}')
            if m.kind in ('array', 'object', 'string'):
                ctx.check(len(j) == len(m.data), 'wrong-length', lambda: f'at {m.keys()}: length {len(j)}')
            out = 'read'
        elif name == 'read-all':
            check_all()
            out = 'read'
        ctx.state(name, m.kind, out)
        return out

    def current(v):
        return v.value() if isinstance(v, M) else v

    def resync():
        """Take over the document's value, its structure being checked next."""
        held.clear()
        model.assign(json.loads(str(doc)))

    for op in plan['ops']:
        out = run_op(op)
        ctx.ev(op['op'], out, brief(model.value(), 300))
        ctx.state(brief(model.value(), 2000))
        check_links(doc, model, None)
    check_all()
    ctx.nontrivial = effective[0] >= 3 or inside[0] > 0


def shrink(plan):
    for ops in list_shrinks(plan['ops']):
        yield dict(plan, ops=ops)
    for s in json_shrinks(plan['doc']):
        if isinstance(s, (list, dict)):
            yield dict(plan, doc=s)
    for i, op in enumerate(plan['ops']):
        if op.get('hold'):
            yield dict(plan, ops=plan['ops'][:i] + [dict(op, hold=False)] + plan['ops'][i + 1:])
        if 'v' in op.get('x', ()):
            for s in json_shrinks(op['x']['v']):
                yield dict(plan, ops=plan['ops'][:i] + [dict(op, x=dict(op['x'], v=s))] + plan['ops'][i + 1:])
