"""C01: loading returns exactly the stored document or fails cleanly."""
import json
import os
import pathlib

from sim import seams
from sim.kernel import Skip, Violation
from sim.runner import json_shrinks, list_shrinks
from sim.values import NotJSON, brief, gen_value, lenient, same, strict

PID = 'C01'
DRAFTS = ()
SCRATCH = True
RUNS = {'quick': 12000, 'thorough': 150000}
RULE = ('A case is a simulated machine (scratch disk, web server, default text encoding, buffer size) with a few '
        'documents and a sequence of loads through every public loading route, each with at most one injected fault, '
        'rewrites of the stored bytes, and a final fault-free reload of everything. Non-trivial: at least one fault '
        'fired inside a load or a document was not plain valid ASCII JSON.')
MEASURE = 'hash of the sequence of (route, bytes class, fault fired, outcome) over the run'
REAL = ['jschon.utils', 'jschon.json', 'jschon.catalog (Catalog, LocalSource, RemoteSource)', 'requests', 'urllib3 responses',
        'io buffering and text layers', 'json']
STUB = ['raw file operations (FaultRaw over real scratch files)', 'HTTPAdapter.send (table of URLs)',
        'default text encoding', 'clock']
ASSUMPTIONS = ['The json module parses UTF-8 JSON text correctly (it is the oracle for the delivered bytes).',
               'Byte order marks and UTF-16/32 content may be either decoded or refused.']

ENCODINGS = ['utf-8', 'cp1252', 'latin-1', 'ascii', 'shift_jis', 'cp437', 'utf-16']
# the second is not the first with another suffix, and neither is 'd2.json' the same document as 'd2'
NAMES = ['d0', 'd1', 'd2.x', 'd2', 'sub/d0', 'sub/d.d/d3', 'd4%20e', 'd0.json']
ROUTES = ['json_loadf', 'JSON.loadf', 'json_loadr', 'JSON.loadr', 'local', 'local-suffix', 'remote', 'remote-suffix',
          'callable', 'default-local']
FILE_FAULTS = ['open-enoent', 'open-eacces', 'open-emfile', 'open-eio', 'read-error', 'torn', 'flip', 'short-read']
HTTP_FAULTS = ['connect', 'connect-timeout', 'status', 'cut', 'flip', 'reset', 'read-timeout', 'incomplete', 'short',
               'slow']
SOURCE_ERRORS = ['OSError', 'KeyError', 'ValueError', 'UnicodeDecodeError', 'RuntimeError', 'StopIteration',
                 'RecursionError', 'MemoryError', 'Odd', 'CatalogError', 'AssertionError', 'EOFError', 'TimeoutError']
PARENTS = ['../priv/secret', 'sub/../../priv/secret', './../priv/secret', '../pub/../priv/secret', 'nosuch/../../priv/secret',
           'sub/.././../priv/secret', 'sub/d.d/../../../priv/secret']
# (what looks like a URI is one, to a default source)
ODD = ['/x', '//evil.test/x', '///x', '/d:e', 'sub/d:e', 'sub//x', '?x', '?d:e', 'x?y', 'sub/x?http://evil.test/', 'sub/', '', '/dir/x',
       '//web.test/x', '/http://evil.test/x']
URIS = ['http://evil.test/x', 'http://web.test/x']


def gen_body(rng):
    doc = gen_value(rng, rng.choice([0, 1, 2, 3]))
    if rng.random() < 0.3:
        doc = {'id': rng.getrandbits(32), 'doc': doc}
    text = json.dumps(doc, ensure_ascii=rng.random() < 0.3, indent=rng.choice([None, None, 1, 4]))
    if rng.random() < 0.1:
        text = text.replace('\n', '\r\n')
    if rng.random() < 0.1:
        text = ' \n\t' + text + '\r\n '
    if rng.random() < 0.05:
        # longer than any buffer
        n = rng.choice([8000, 8191, 8192, 65535, 65536, 70000, 140000])
        text = rng.choice([' ' * n + text, '[' + ', '.join(['"\u65e5\u672c"'] * (n // 8)) + ']', text + ' ' * n,
                           text + '\n' * n + rng.choice(['x', '1', '{}', ']'])])
    kind = rng.random()
    if kind < 0.62:
        return text.encode('utf-8', 'surrogatepass')
    bad = rng.choice(['nan', 'inf', 'truncated', 'trailing', 'empty', 'latin', 'badutf8', 'bom', 'utf16', 'comma',
                      'surrogate', 'deep', 'dup', 'bigint', 'spaces', 'lone', 'html'])
    enc = text.encode('utf-8')
    if bad == 'nan':
        return b'[1, NaN]'
    if bad == 'inf':
        return rng.choice([b'{"a": Infinity}', b'-Infinity'])
    if bad == 'truncated':
        return enc[:rng.randrange(len(enc) + 1)]
    if bad == 'trailing':
        return enc + rng.choice([b' x', b'}', b' {}', b'\x00'])
    if bad == 'empty':
        return b''
    if bad == 'latin':
        return json.dumps({'k': 'caf\xe9', 'n': rng.randrange(9)}, ensure_ascii=False).encode('latin-1')
    if bad == 'badutf8':
        return b'["\xf0\x9f", 1]'
    if bad == 'bom':
        return b'\xef\xbb\xbf' + enc
    if bad == 'utf16':
        return text.encode('utf-16')
    if bad == 'comma':
        return b'[1, 2,]'
    if bad == 'surrogate':
        return b'"\\ud83d\\ude00 \\ud800"'
    if bad == 'deep':
        n = rng.choice([50, 5000, 200000])
        return b'[' * n + b']' * n
    if bad == 'dup':
        return b'{"a": 1, "a": 2}'
    if bad == 'bigint':
        return b'1' + b'0' * rng.choice([20, 400])
    if bad == 'lone':
        return b'["\xed\xa0\x80"]'
    if bad == 'html':
        return b'<html><body>502 Bad Gateway</body></html>'
    return b'  \n '


def gen_fault(rng, remote, n):
    if remote:
        kind = rng.choice(HTTP_FAULTS)
        f = {'kind': kind, 'times': 1}
        if kind == 'status':
            f['status'] = rng.choice([400, 401, 403, 404, 410, 429, 500, 502, 503, 504])
            f['body'] = rng.choice(['{"error": "try again"}', '{}', 'null', '<html>', ''])
        if kind in ('cut', 'reset', 'read-timeout', 'incomplete'):
            f['at'] = rng.choice([0, 1, n // 2, max(0, n - 1), n, rng.randrange(n + 1)])
        if kind == 'flip':
            f['at'], f['bit'] = rng.randrange(max(1, n)), rng.randrange(8)
        if kind == 'short':
            f['n'] = rng.choice([1, 2, 7])
        if kind == 'slow':
            f['seconds'] = rng.choice([0.5, 30, 600, 7200])
        return f
    kind = rng.choice(FILE_FAULTS)
    f = {'kind': kind, 'mode': 'r'}
    if kind in ('read-error', 'torn'):
        f['at'] = rng.choice([0, 1, n // 2, max(0, n - 1), n, rng.randrange(n + 1)])
        if kind == 'read-error':
            f['errno'] = rng.choice([5, 116, 21, 110])
    if kind == 'flip':
        f['at'], f['bit'] = rng.randrange(max(1, n)), rng.randrange(8)
    if kind == 'short-read':
        f['n'] = rng.choice([1, 2, 3, 7])
    return f


def gen(rng, tier):
    names = rng.sample(NAMES, rng.choice([1, 2, 3]))
    docs = {n + s: gen_body(rng).hex() for n in names for s in ('', '.json')}
    ops = []
    faulty = rng.random() < 0.8
    routes = rng.sample(ROUTES, rng.randrange(2, 6))
    cur = dict(docs)
    for _ in range(rng.randrange(2, 9)):
        name = rng.choice(names)
        if rng.random() < 0.15:
            name += rng.choice(['', '.json'])
            cur[name] = gen_body(rng).hex()
            ops.append({'op': 'write', 'doc': name, 'body': cur[name]})
            continue
        if rng.random() < 0.04:
            how = rng.choice(['absolute', 'parent', 'parent', 'odd-remote', 'odd-remote', 'default-remote'])
            ops.append({'op': 'escape', 'doc': name, 'how': how, 'suffix': rng.random() < 0.5, 'via': rng.choice(['catalog', 'source']),
                        'path': rng.choice({'absolute': ['', '/', '//'], 'parent': PARENTS, 'odd-remote': ODD, 'default-remote': URIS}[how])})
            continue
        route = rng.choice(routes)
        name += '.json' if route.endswith('suffix') else ''
        op = {'op': 'load', 'route': route, 'doc': name}
        if faulty and rng.random() < 0.6:
            if route == 'callable':
                op['fault'] = {'kind': 'raise', 'exc': rng.choice(SOURCE_ERRORS)}
            else:
                op['fault'] = gen_fault(rng, 'remote' in route or route.endswith('loadr'), len(cur[name]) // 2)
        ops.append(op)
    return {
        'enc': rng.choice(ENCODINGS), 'buf': rng.choice([1, 2, 7, 64, 8192]),
        'delay': rng.choice([0, 0, 0.01]),
        'headers': [rng.choice(['application/json', 'application/json; charset=utf-8', 'text/plain',
                                'text/plain; charset=iso-8859-1', 'text/html; charset=windows-1252', 'application/json; charset=utf-16',
                                'application/schema+json', '']),
                    rng.random() < 0.5],
        'redirect': rng.choice([0, 0, 0, 1, 2, 40]),
        'docs': docs, 'ops': ops,
    }


class Odd(Exception):
    def __init__(self):
        super().__init__({'not': 'a string'}, 42, None)


def make_exc(name):
    if name == 'UnicodeDecodeError':
        return UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'simulated')
    if name == 'Odd':
        return Odd()
    if name == 'CatalogError':
        from jschon.exc import CatalogError
        return CatalogError('simulated')
    if name == 'OSError':
        return OSError(5, 'simulated', 'some/file')
    return getattr(__import__('builtins'), name)('simulated')


def run(plan, ctx):
    import jschon
    from jschon.exc import CatalogError
    from jschon.utils import json_loadf, json_loadr

    env = seams.Environment(ctx, ctx.scratch, plan['enc'], 1, plan['buf'], plan['delay'])
    seams.env = env
    bodies = {}
    root = os.path.join(ctx.scratch, 'pub')
    os.makedirs(os.path.join(ctx.scratch, 'priv'))
    for p in ('secret', 'secret.json'):
        with seams.real_open(os.path.join(ctx.scratch, 'priv', p), 'wb') as f:
            f.write(b'{"secret": true}')
    pending = []   # exception for the callable source to raise

    def url(name):
        return f'http://web.test/dir/{name}'

    def store(name, body):
        bodies[name] = body
        path = os.path.join(root, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with seams.real_open(path, 'wb') as f:
            f.write(body)
        headers = {}
        if plan['headers'][0]:
            headers['Content-Type'] = plan['headers'][0]
        if plan['headers'][1]:
            headers['Content-Length'] = str(len(body))
        hops = plan['redirect']
        for h in range(hops):
            env.web[url(name) + (f'.hop{h}' if h else '')] = {
                'status': [301, 302, 307, 308][h % 4], 'body': b'moved',
                'headers': {'Location': url(name) + f'.hop{h + 1}'}}
        env.web[url(name) + (f'.hop{hops}' if hops else '')] = {
            'status': 200, 'headers': dict(headers), 'body': body}

    for name, body in plan['docs'].items():
        store(name, bytes.fromhex(body))

    class Callable(jschon.catalog.Source):
        def __call__(self, relative_path):
            if pending:
                ctx.fault('source-raises')
                raise make_exc(pending.pop())
            return strict(bodies[relative_path])

    cat = jschon.Catalog(name='c01')
    U = jschon.URI
    cat.add_uri_source(U('local:///a/'), jschon.LocalSource(root))
    cat.add_uri_source(U('local:///a/s/'), jschon.LocalSource(pathlib.Path(root), suffix='.json'))
    cat.add_uri_source(U('https://web.test/r/'), jschon.RemoteSource(U('http://web.test/dir/')))
    cat.add_uri_source(U('https://web.test/r/s/'), jschon.RemoteSource(U('http://web.test/dir/'), suffix='.json'))
    cat.add_uri_source(U('x:call/'), Callable())

    class Default(jschon.LocalSource):
        def __call__(self, relative_path):
            return super().__call__(relative_path[len('tag:nowhere/'):])

    cat.add_uri_source(None, Default(root))

    def load(route, name):
        stem = name[:-5] if route.endswith('suffix') else name
        if route == 'json_loadf':
            return json_loadf(os.path.join(root, name))
        if route == 'JSON.loadf':
            return jschon.JSON.loadf(pathlib.Path(root) / name).value
        if route == 'json_loadr':
            return json_loadr(url(name))
        if route == 'JSON.loadr':
            return jschon.JSON.loadr(url(name)).value
        if route == 'local':
            return cat.load_json(U(f'local:///a/{name}'))
        if route == 'local-suffix':
            return cat.load_json(U(f'local:///a/s/{stem}'))
        if route == 'remote':
            return cat.load_json(U(f'https://web.test/r/{name}'))
        if route == 'remote-suffix':
            return cat.load_json(U(f'https://web.test/r/s/{stem}'))
        if route == 'callable':
            return cat.load_json(U(f'x:call/{name}'))
        if route == 'default-local':
            return cat.load_json(U(f'tag:nowhere/{name}'))
        raise Skip(route)

    def one(route, name, fault):
        remote = 'remote' in route or route.endswith('loadr')
        via_catalog = not route.startswith('j') and not route.startswith('J')
        body = bodies[name]
        n_handles, n_net = len(env.handles), len(env.net)
        before = sum(ctx.faults.values())
        final = url(name) + (
            f'.hop{plan["redirect"]}' if plan['redirect'] else '')
        if fault:
            if route == 'callable':
                pending[:] = [fault['exc']]
            elif remote:
                env.web[final]['fault'] = dict(fault)
            else:
                env.open_faults[:] = [dict(fault)]
        exc = value = None
        try:
            value = load(route, name)
        except Exception as e:
            exc = e
            exc_name = type(e).__name__
            is_catalog_error = isinstance(e, CatalogError)
            text = f'{type(e).__name__}: {str(e)[:200]}'
        except BaseException as e:
            raise Violation('wrong-exception', f'{route} raised {type(e).__name__}')
        outcome = 'raised' if exc is not None else 'returned'
        exc = None
        env.open_faults.clear()
        pending.clear()
        env.web[final].pop('fault', None)
        fired = sum(ctx.faults.values()) - before
        # what was delivered
        hard = False
        if route == 'callable':
            delivered = body
            hard = fired > 0
        elif remote:
            net = env.net[n_net:]
            delivered = None
            if net:
                # (a fault that spared the document that was to be fetched leaves nothing to excuse)
                delivered = net[-1]['body'] if fired else body
                st = net[-1]['status']
                hard = net[-1]['hard'] is not None or st is None or not 200 <= st < 300
                if net[-1]['hard'] in ('reset', 'read-timeout', 'incomplete'):
                    delivered = delivered[:fault['at']]
                    # everything may have come through before the connection broke
                    hard = delivered != body
                elif hard:
                    delivered = None
            else:
                hard = True
            if not fired and plan['redirect'] < 30:
                hard, delivered = False, body
        else:
            hs = env.handles[n_handles:]
            delivered = bytes(hs[-1].delivered) if hs else None
            hard = not hs or hs[-1].failed
            if hs and hs[-1].failed and delivered == body:
                hard = False
            elif hs and not hs[-1].failed and not fired:
                delivered = body
        if not hard and delivered is None:
            delivered = body
        kind = 'hard' if hard else 'ok'
        ok_values = []
        must = None
        if not hard:
            try:
                must = [strict(delivered)]
                ok_values = must
            except NotJSON:
                kind = 'notjson'
                try:
                    ok_values = [lenient(delivered)]
                    kind = 'lenient'
                except NotJSON:
                    pass
        ctx.ev(route, name, outcome, kind, fault['kind'] if fault else '-', value if outcome == 'returned' else text)
        ctx.state(route, kind, fault['kind'] if fault else '-', outcome, fired)
        if fired or kind != 'ok' or not body.isascii():
            ctx.nontrivial = True
        ctx.probe(f'{kind}-{outcome}')
        ctx.check(not env.unclosed(), 'file-left-open', lambda: f'{route} left open {env.unclosed()}')
        if outcome == 'raised':
            if via_catalog:
                ctx.check(is_catalog_error, 'wrong-exception', lambda: f'{route} raised {text} instead of CatalogError')
            benign = must is not None and not (fired and fault['kind'] in ('read-error', 'reset', 'read-timeout', 'incomplete',
                                                                           'slow'))
            if benign and sum(1 for c in body.decode('utf-8', 'replace') if c in '[{') < 40:
                raise Violation('spurious-failure', f'{route} failed on {brief(delivered)}: {text}')
        else:
            if hard:
                raise Violation('invented', f'{route} returned {brief(value)} although the load failed '
                                            f'({fault["kind"] if fault else "no fault"})')
            ctx.check(any(same(value, v) for v in ok_values), 'altered',
                      lambda: f'{route} returned {brief(value)} for the bytes {brief(delivered)}')

    suffix = '.json'
    # a base URI whose query takes in the rest, which normalization therefore leaves alone
    cat.add_uri_source(U('https://q.test/?l='), jschon.LocalSource(root))
    cat.add_uri_source(U('https://q.test/?ls='), jschon.LocalSource(root, suffix=suffix))
    for i, odd in enumerate(ODD):
        for s in ('', suffix):
            env.web[f'http://web.test/dir/{odd}{s}'] = {
                'status': 200, 'headers': {'Content-Type': 'application/json'}, 'body': json.dumps([i, s]).encode()}
    for u in (*URIS, 'http:///x'):
        for s in ('', suffix):
            env.web[u + s] = {'status': 200, 'headers': {}, 'body': json.dumps([u, s]).encode()}
    anything = jschon.Catalog(name='c01-default')
    anything.add_uri_source(None, jschon.RemoteSource(U('http://web.test/dir/')))

    def escape(op):
        how, path, via, s = op['how'], op['path'], op['via'], suffix if op['suffix'] else None
        if how == 'odd-remote':
            source = jschon.RemoteSource(U('http://web.test/dir/'), suffix=s)
            uri = ('https://web.test/r/s/' if s else 'https://web.test/r/') + path
            if not s and path.startswith('s/'):
                raise Skip('the other source')
            want = [ODD.index(path), s or '']
        elif how == 'default-remote':
            source = uri = path
            s = None
            via, want = 'catalog', [path, '']
        else:
            source = jschon.LocalSource(root, suffix=s)
            if how == 'absolute':
                path += os.path.join(ctx.scratch, 'priv', 'secret')
                uri = ('local:///a/s/' if s else 'local:///a/') + path
            else:
                uri = ('https://q.test/?ls=' if s else 'https://q.test/?l=') + path
        exc = value = None
        try:
            value = (anything if source is uri else cat).load_json(U(uri)) if via == 'catalog' else source(path)
        except CatalogError:
            exc = 'CatalogError'
        except Exception as e:
            exc = type(e).__name__
        ctx.ev('escape', how, op['path'], via, bool(s), exc or value)
        ctx.state('escape', how, op['path'], via, bool(s), exc)
        ctx.nontrivial = True
        if via == 'catalog':
            ctx.check(exc in (None, 'CatalogError'), 'wrong-exception', lambda: f'{uri} raised {exc}')
        if how.endswith('remote'):
            ctx.check(exc is None and value == want, 'escaped',
                      lambda: f'the remainder {path!r} of {uri} gave {exc or brief(value)} instead of {want}, '
                              f'the document at that place')
        else:
            ctx.check(exc is not None, 'escaped', lambda: f'{path!r} ({uri}) served a file outside the directory of its source')

    for op in plan['ops']:
        if op['op'] == 'escape':
            escape(op)
            continue
        if op['doc'] not in bodies:
            raise Skip('no such document')
        if op['op'] == 'load' and op['route'].endswith('suffix') and not op['doc'].endswith('.json'):
            raise Skip('no such document')
        if op['op'] == 'write':
            store(op['doc'], bytes.fromhex(op['body']))
            ctx.ev('write', op['doc'])
        else:
            one(op['route'], op['doc'], op.get('fault'))
    if plan['redirect'] <= 30:
        for op in plan['ops']:
            if op['op'] == 'load' and op.get('fault'):
                one(op['route'], op['doc'], None)


def shrink(plan):
    for ops in list_shrinks(plan['ops']):
        yield dict(plan, ops=ops)
    for i, op in enumerate(plan['ops']):
        if op.get('fault'):
            yield dict(plan, ops=plan['ops'][:i] + [{k: v for k, v in op.items() if k != 'fault'}] + plan['ops'][i + 1:])
    used = {op['doc'] for op in plan['ops']}
    if len(used) < len(plan['docs']):
        yield dict(plan, docs={k: v for k, v in plan['docs'].items() if k in used})
    for k, v in {'enc': 'utf-8', 'buf': 8192, 'delay': 0, 'redirect': 0, 'headers': ['application/json', True]}.items():
        if plan[k] != v:
            yield dict(plan, **{k: v})
    for name, h in plan['docs'].items():
        try:
            doc = strict(bytes.fromhex(h))
        except NotJSON:
            continue
        for s in json_shrinks(doc):
            yield dict(plan, docs={**plan['docs'], name: json.dumps(s, ensure_ascii=False).encode(
                'utf-8', 'surrogatepass').hex()})
