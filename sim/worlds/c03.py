"""C03: a URI is always served by its most specific source."""
from sim import boot, lin, seams
from sim.kernel import Skip, Violation
from sim.runner import list_shrinks
from sim.sched import Scheduler, gen_sched

PID = 'C03'
DRAFTS = ()
RUNS = {'quick': 18000, 'thorough': 120000}
RULE = ('A case is a history of source registrations (valid and invalid, repeated, in any order), loads of URIs, and '
        'source failures, run by one caller or by 2-3 scheduled threads, also from inside sources. Non-trivial: at '
        'least two overlapping base URIs were registered and one load was served.')
MEASURE = 'hash of the thread switches (code location, from, to) and of the sequence of operations with outcomes'
REAL = ['jschon.catalog (source registry, load_json)', 'jschon.uri', 'rfc3986']
STUB = ['sources (recording stubs)', 'thread scheduler', 'locks']
ASSUMPTIONS = ['Threads are switched at line, jump, call and return boundaries of jschon code.']

BASES = ['https://a.test/', 'https://a.test/x/', 'https://a.test/x/y/', 'https://a.test/xx/', 'https://a.test/x/y/z/',
         'https://b.test/', 'tag:x/', 'https://a.test/x/?q/', 'https://a.test/%C3%A9/', 'file:///', 'file:///x/', 'https://a.test/X/', None]
BAD_BASES = ['https://a.test', 'https://a.test/x', 'x/', '/x/', 'HTTPS://a.test/x/', 'https://a.test/x/#', 'https://a.test/x/#f/',
             'https://a.test/x/../y/', '', 'https://a.test/%c3%a9/']
TAILS = ['', 'd', 'd.json', 'y', 'y/', 'y/d', 'x/', 'x/y/z/d', 'z/d?q=1', '?q/', '?q/d', '%C3%A9/d', 'xx/d', '/d', '//x/d', 'd//', '/', 'x/d/', 'https://a.test/d', 'x/https://a.test/x/d',
         '.d', '%20', '?', 'd?x/', 'd:e', '~d', 'd%2Fe', 'X/d', 'D', 'Y/d', 'X/Y/d']
BAD_URIS = ['https://a.test/x/d#', 'https://a.test/x/d#/a', 'x/d', 'https://A.test/x/d', 'https://a.test/x/../d', '',
            'https://a.test/%c3%a9/d']
DOCUMENTS = [None, None, False, 0, '', [], {}, True, 'https://a.test/x/d']
ERRORS = ['OSError', 'KeyError', 'ValueError', 'RuntimeError', 'CatalogError', 'StopIteration', 'LookupError', 'FileNotFoundError',
          'PermissionError', 'IsADirectoryError', 'TimeoutError', 'ConnectionError', 'IndexError', 'AttributeError']


def gen_ops(rng, bases, n, sid):
    ops = []
    for _ in range(n):
        k = rng.random()
        if k < 0.38:
            ops.append({'op': 'add', 'base': rng.choice(bases), 'src': sid[0]})
            sid[0] += 1
            if rng.random() < 0.25:
                ops[-1]['gives'] = [rng.choice(DOCUMENTS)]
            if rng.random() < 0.2:
                ops[-1]['nested'] = rng.choice([b for b in BASES if b]) + rng.choice(TAILS)
            if rng.random() < 0.15:
                ops[-1]['adds'] = rng.choice(bases)
        elif k < 0.45:
            ops.append({'op': 'add-bad', 'base': rng.choice(BAD_BASES), 'src': sid[0]})
            sid[0] += 1
        elif k < 0.5:
            ops.append({'op': 'load-bad', 'uri': rng.choice(BAD_URIS)})
        else:
            b = rng.choice([b for b in bases if b] or BASES[:5])
            uri = b if b.endswith('/') and '?' in b else b + rng.choice(TAILS)
            op = {'op': 'load', 'uri': uri}
            if rng.random() < 0.15:
                op['fail'] = rng.choice(ERRORS)
            ops.append(op)
    return ops


def gen(rng, tier):
    bases = rng.sample(BASES, rng.randrange(2, 6))
    if not any(b for b in bases):
        bases.append(BASES[0])
    sid = [1]
    plan = {'setup': gen_ops(rng, bases, rng.randrange(0, 6), sid)}
    if rng.random() < 0.5:
        plan['threads'] = [gen_ops(rng, bases, rng.randrange(1, 5), sid) for _ in range(rng.choice([2, 2, 3]))]
        for t in plan['threads'] + [plan['setup']]:
            for op in t:
                op.pop('nested', None)
                op.pop('adds', None)
        plan['sched'] = gen_sched(rng, len(plan['threads']), 400)
    else:
        plan['threads'] = []
        plan['setup'] += gen_ops(rng, bases, rng.randrange(4, 14), sid)
    return plan


def usable(uri):
    import jschon
    from jschon.exc import URIError
    try:
        jschon.URI(uri).validate(require_scheme=True, require_normalized=True, allow_fragment=False)
    except URIError:
        return False
    return True


def canon(uri):
    """The text form of a URI (its syntax is not what is being tested)."""
    import jschon
    return str(jschon.URI(uri)) if uri else ''


def resolve(registry, uri):
    """The reference model: longest matching prefix."""
    uri = canon(uri)
    best = None
    for prefix, src in registry:
        if uri.startswith(prefix) and (best is None or len(prefix) > len(best[0])):
            best = (prefix, src)
    if best is None:
        return None
    return best[1], uri[len(best[0]):]


def run(plan, ctx):
    import jschon
    from jschon.exc import CatalogError
    seams.env = seams.Environment(ctx)
    sched = None
    seq = [0]
    cat = jschon.Catalog(name='c03')
    reg = {}            # reference registry, used when single-threaded
    failing = {}        # thread -> exception name
    consulted = {}      # thread -> [(src, rest)]
    served = [0]

    gives = {op['src']: op['gives'] for ops in [plan['setup'], *plan['threads']] for op in ops if 'gives' in op}

    def document(src, rest):
        return gives[src][0] if src in gives else {'from': src, 'rest': rest}

    def me():
        return sched.me().tid if sched is not None and sched.me() is not None else -1

    class Src(jschon.catalog.Source):
        def __init__(self, op):
            super().__init__()
            self.op = op

        def __call__(self, relative_path):
            consulted[me()].append((self.op['src'], relative_path))
            if sched is not None:
                sched.point()
            if failing.get(me()):
                name = failing.pop(me())
                ctx.fault('source-raises')
                raise CatalogError('simulated') if name == 'CatalogError' else \
                    getattr(__import__('builtins'), name)('simulated')
            if self.op.get('adds', 0) != 0:
                base, self.op['adds'] = self.op['adds'], 0
                inner = Src({'src': self.op['src'] * 1000})
                cat.add_uri_source(jschon.URI(base) if base is not None else None, inner)
                reg[canon(base)] = inner.op['src']
            if self.op.get('nested'):
                uri, self.op['nested'] = self.op['nested'], None
                saved = consulted[me()]
                load({'op': 'load', 'uri': uri})
                consulted[me()] = saved
            return document(self.op['src'], relative_path)

    def load(op):
        """Returns (outcome, value) and what was consulted."""
        consulted[me()] = []
        if op.get('fail'):
            failing[me()] = op['fail']
        # the reference for single-threaded use must be evaluated before the call
        expected = resolve(reg.items(), op['uri'])
        try:
            out = ('value', cat.load_json(jschon.URI(op['uri'])))
        except CatalogError:
            out = ('CatalogError', None)
        except Exception as e:
            raise Violation('wrong-exception', f'load_json({op["uri"]}) raised {type(e).__name__}: {e}')
        injected = op.get('fail') and me() not in failing
        failing.pop(me(), None)
        got = consulted[me()]
        ctx.ev(me(), 'load', op['uri'], out, got)
        ctx.state(op['uri'], out[0], repr(got))
        if op['op'] == 'load-bad' or not usable(op['uri']):
            ctx.check(out[0] == 'CatalogError' and not got, 'invalid-uri-served',
                      lambda: f'load_json({op["uri"]!r}) gave {out}')
            return None
        if out[0] == 'value':
            served[0] += 1
            ctx.check(len(got) == 1 and repr(out[1]) == repr(document(*got[0])), 'wrong-document',
                      lambda: f'{op["uri"]}: consulted {got}, returned {out[1]}')
        elif got:
            ctx.check(injected and len(got) == 1, 'spurious-failure',
                      lambda: f'{op["uri"]}: consulted {got}, failed')
        result = got[0] if got else None
        if sched is None:
            ctx.check(result == expected, 'wrong-source',
                      lambda: f'{op["uri"]} was served by {result}, but its most specific source is {expected}; '
                              f'registered: {reg}')
        return result

    def add(op):
        base = op['base']
        try:
            cat.add_uri_source(jschon.URI(base) if base is not None else None, Src(dict(op)))
        except CatalogError:
            ok = False
        except Exception as e:
            raise Violation('wrong-exception', f'add_uri_source({base!r}) raised {type(e).__name__}: {e}')
        else:
            ok = True
        ctx.ev(me(), op['op'], base, ok)
        if op['op'] == 'add':
            ctx.check(ok, 'registration-refused', lambda: f'add_uri_source({base!r}) failed')
        else:
            ctx.check(not ok, 'registration-accepted', lambda: f'add_uri_source({base!r}) did not fail')

    for op in plan['setup']:
        if op['op'] == 'add':
            add(op)
            reg[canon(op['base'])] = op['src']
        elif op['op'] == 'add-bad':
            add(op)
        else:
            load(op)
    if plan['threads']:
        history = []

        def body(ops):
            def f():
                for op in ops:
                    seq[0] += 1
                    inv = seq[0]
                    if op['op'].startswith('add'):
                        add(op)
                        result = None
                    else:
                        result = load(op)
                    seq[0] += 1
                    history.append((inv, seq[0], op, result))
            return f

        sched = Scheduler(ctx, plan['sched'], boot.PREFIX)
        for ops in plan['threads']:
            sched.spawn(body(ops))
        for status, value in sched.run():
            if status == 'exc':
                raise value
        sched = None

        def apply_add(op):
            def f(state):
                d = dict(state)
                d[canon(op['base'])] = op['src']
                return tuple(sorted(d.items())), None
            return f

        ops = []
        for inv, ret, op, result in history:
            if op['op'] == 'add':
                ops.append(lin.Op(inv, ret, 'add', apply_add(op), None))
            elif op['op'] == 'load' and usable(op['uri']):
                ops.append(lin.Op(inv, ret, 'load', lambda s, u=op['uri']: (s, resolve(s, u)), result))
        ctx.check(lin.linearizable(ops, tuple(sorted(reg.items()))), 'not-linearizable',
                  lambda: f'no order of the operations explains {[(h[2], h[3]) for h in history]}')
        ctx.probe('threaded')
    ctx.nontrivial = served[0] > 0 and len(reg) + len(plan['threads']) > 1


def shrink(plan):
    for i, t in enumerate(plan['threads']):
        yield dict(plan, threads=plan['threads'][:i] + plan['threads'][i + 1:])
        for ops in list_shrinks(t):
            yield dict(plan, threads=plan['threads'][:i] + [ops] + plan['threads'][i + 1:])
    for ops in list_shrinks(plan['setup']):
        yield dict(plan, setup=ops)
    for i, op in enumerate(plan['setup']):
        for k in ('nested', 'adds', 'fail', 'gives'):
            if k in op:
                yield dict(plan, setup=plan['setup'][:i] + [{a: b for a, b in op.items() if a != k}] + plan['setup'][i + 1:])
