"""The simulated environment: files, HTTP, clock, randomness.

Files are real files in a scratch directory (so that anything may be done to
them), but whatever opens one of them through builtins.open or io.open gets a
FaultRaw at the bottom of the ordinary stack of buffer and text wrapper.
The platform's default text encoding is simulated too. HTTP stops at
requests' HTTPAdapter.send, below which a table of URLs is the network.
"""
import builtins
import errno
import http.client
import io
import os
import random
import socket
import time

from sim.kernel import HarnessError, derive

real_open = builtins.open
VENDOR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vendor')

env = None  # the active Environment


class FaultRaw(io.FileIO):
    """A file whose operations go wrong as told by `fault`."""

    def __init__(self, environment, path, mode, fault, opener=None):
        super().__init__(path, mode, opener=opener)
        self.env = environment
        self.fpath = path
        self.fault = dict(fault) if fault else None
        self.delivered = bytearray()
        self.accepted = bytearray()
        self.pos = 0
        self.ncalls = 0
        self.really_closed = False
        self.failed = False
        self.leaked = False
        environment.handles.append(self)

    def _kind(self, *kinds):
        return self.fault is not None and self.fault['kind'] in kinds

    def readinto(self, b):
        self.env.io_delay()
        self.ncalls += 1
        size = len(b)
        if self._kind('short-read'):
            size = max(1, min(size, self.fault['n']))
            if self.ncalls == 1:
                self.env.ctx.fault('short-read')
        if self._kind('read-error') and self.pos >= self.fault['at']:
            self.failed = True
            self.env.ctx.fault('read-error')
            raise OSError(self.fault.get('errno', errno.EIO), 'simulated read error')
        if self._kind('read-error', 'torn') :
            size = min(size, self.fault['at'] - self.pos)
        if size <= 0:
            if self._kind('torn'):
                self.env.ctx.fault('torn-read')
            return 0
        data = super().read(size)
        if data and self._kind('flip') and self.pos <= self.fault['at'] < self.pos + len(data):
            data = bytearray(data)
            data[self.fault['at'] - self.pos] ^= 1 << self.fault['bit']
            self.env.ctx.fault('bit-flip')
        n = len(data)
        b[:n] = data
        self.pos += n
        self.delivered += data
        return n

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        buf = bytearray(size)
        n = self.readinto(buf)
        return bytes(buf[:n])

    def readall(self):
        out = bytearray()
        while True:
            chunk = self.read(4096)
            if not chunk:
                return bytes(out)
            out += chunk

    def write(self, b):
        self.env.io_delay()
        self.ncalls += 1
        data = bytes(b)
        if self._kind('short-write'):
            data = data[:max(1, self.fault['n'])]
            if self.ncalls == 1:
                self.env.ctx.fault('short-write')
        if self._kind('write-error', 'disk-full'):
            room = self.fault['at'] - self.pos
            if room <= 0:
                self.failed = True
                self.env.ctx.fault(self.fault['kind'])
                raise OSError(errno.ENOSPC if self.fault['kind'] == 'disk-full' else errno.EIO,
                              'simulated write error')
            data = data[:room]
        n = super().write(data)
        self.pos += n
        self.accepted += data[:n]
        return n

    def close(self):
        if self.really_closed:
            return
        self.really_closed = True
        super().close()
        if self._kind('close-error') and not self.failed:
            self.failed = True
            self.env.ctx.fault('close-error')
            raise OSError(errno.EIO, 'simulated error on close')

    def _dealloc_warn(self, source):
        # called when the file is closed only because it became garbage
        self.leaked = True


OPEN_ERRNOS = {
    'open-enoent': errno.ENOENT,
    'open-eacces': errno.EACCES,
    'open-emfile': errno.EMFILE,
    'open-eio': errno.EIO,
}


class SimResponseBody(io.RawIOBase):
    def __init__(self, environment, data, fault, rec):
        self.env = environment
        self.rec = rec
        self.data = data
        self.pos = 0
        self.fault = fault

    def readable(self):
        return True

    def readinto(self, b):
        data = self.read(len(b))
        b[:len(data)] = data
        return len(data)

    def read(self, amt=-1):
        self.env.io_delay()
        end = len(self.data) if amt is None or amt < 0 else min(len(self.data), self.pos + amt)
        f = self.fault
        if f and f['kind'] in ('reset', 'read-timeout', 'incomplete'):
            stop = f['at']
            if self.pos >= stop or end > stop:
                if self.pos < stop and amt is not None and amt >= 0:
                    end = stop
                else:
                    self.env.ctx.fault('http-' + f['kind'])
                    self.rec['hard'] = f['kind']
                    if f['kind'] == 'reset':
                        raise ConnectionResetError(errno.ECONNRESET, 'simulated reset')
                    if f['kind'] == 'read-timeout':
                        raise socket.timeout('simulated timeout')
                    raise http.client.IncompleteRead(self.data[self.pos:stop], len(self.data) - stop)
        if f and f['kind'] == 'short':
            end = min(end, self.pos + f['n']) if amt is not None and amt >= 0 else end
        data = self.data[self.pos:end]
        self.pos = end
        return data

    def isclosed(self):
        return self.pos >= len(self.data)


class Environment:
    """One simulated machine: a scratch disk, a network and a clock."""

    def __init__(self, ctx, scratch=None, default_encoding='utf-8', seed=0, buffer_size=8192, delay=0.0):
        self.ctx = ctx
        self.scratch = scratch
        self.default_encoding = default_encoding
        self.buffer_size = buffer_size
        self.rng = derive('env', seed)
        self.handles = []
        self.open_faults = []     # next faults for opens: [{'path':..., 'mode': 'r'|'w', 'kind':...}]
        self.opened = []          # history of (path, mode)
        self.web = {}             # url -> {'status', 'headers', 'body', 'fault'}
        self.net = []             # what the network did, in order
        self.delay = delay
        self.randoms = []         # what urandom returned
        self.vendor_faults = []   # exceptions for the next opens of metaschema files (None: no exception)

    def io_delay(self):
        if self.delay:
            self.sleep(self.delay)

    def sleep(self, seconds):
        from sim import sched
        if sched.current is not None and sched.current.me() is not None:
            sched.current.sleep(seconds)
        else:
            self.ctx.now += seconds

    def urandom(self, n):
        data = self.rng.randbytes(n)
        self.randoms.append(data)
        return data

    # -- files

    def take_fault(self, path, mode):
        for i, f in enumerate(self.open_faults):
            if f['mode'] == mode and f.get('path') in (None, path):
                del self.open_faults[i]
                return f
        return None

    def open(self, path, mode, buffering, encoding, errors, newline, opener):
        binary = 'b' in mode
        rawmode = mode.replace('b', '').replace('t', '').replace('U', '') or 'r'
        direction = 'r' if rawmode == 'r' else 'w'
        fault = self.take_fault(path, direction)
        self.opened.append((path, direction))
        self.ctx.ev('open', os.path.relpath(path, self.scratch) if not opener else '?', rawmode)
        self.io_delay()
        if fault and fault['kind'] in OPEN_ERRNOS:
            self.ctx.fault(fault['kind'])
            en = OPEN_ERRNOS[fault['kind']]
            raise OSError(en, os.strerror(en), path)
        raw = FaultRaw(self, path, rawmode, fault, opener)
        try:
            if buffering == 0:
                if not binary:
                    raise ValueError("can't have unbuffered text I/O")
                return raw
            size = buffering if buffering > 1 else self.buffer_size
            if '+' in rawmode:
                buffer = io.BufferedRandom(raw, size)
            elif direction == 'r':
                buffer = io.BufferedReader(raw, size)
            else:
                buffer = io.BufferedWriter(raw, size)
            if binary:
                return buffer
            if encoding in (None, 'locale'):
                encoding = self.default_encoding
            text = io.TextIOWrapper(buffer, encoding, errors, newline, line_buffering=buffering == 1)
            text.mode = mode
            return text
        except BaseException:
            raw.close()
            raise

    def unclosed(self):
        return [os.path.basename(str(h.fpath)) for h in self.handles if h.leaked or not h.really_closed]


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    path = None
    if not isinstance(file, int):
        path = os.fspath(file)
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        i = path.find('/jschon/catalog/json-schema-')
        if i >= 0:
            # the metaschemas (git submodules of the repository, not checked out here)
            alt = os.path.join(VENDOR, path[i + len('/jschon/catalog/'):])
            if os.path.exists(alt):
                if env is not None and env.vendor_faults:
                    en = env.vendor_faults.pop(0)
                    if en:
                        env.ctx.fault('metaschema-file')
                        raise OSError(en, os.strerror(en), path) if isinstance(en, int) else getattr(builtins, en)('simulated')
                # decoded as told, whatever this machine's locale
                return real_open(alt, mode, buffering, encoding or (None if 'b' in mode else 'utf-8'),
                                 errors, newline, closefd, opener)
    e = env
    if e is None or path is None or e.scratch is None or not os.path.abspath(path).startswith(e.scratch + os.sep):
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    return e.open(os.path.abspath(path), mode, buffering, encoding, errors, newline, opener)


def sim_send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
    import requests
    from urllib3 import HTTPResponse
    e = env
    if e is None:
        raise HarnessError('HTTP request outside of a simulation')
    url = request.url
    rec = {'url': url, 'status': None, 'body': None, 'hard': None}
    e.net.append(rec)
    e.ctx.ev('GET', url)
    e.io_delay()
    page = e.web.get(url)
    if page is None:
        page = {'status': 404, 'headers': {'Content-Type': 'application/json'}, 'body': b'{"error": "not found"}'}
    fault = page.get('fault')
    if fault is not None and fault.get('times', 1) <= 0:
        fault = None
    if fault is not None:
        fault['times'] = fault.get('times', 1) - 1
        if fault['kind'] == 'slow':
            limit = timeout[1] if isinstance(timeout, tuple) else timeout
            e.ctx.fault('http-slow')
            if limit is not None and limit < fault['seconds']:
                e.sleep(limit)
                rec['hard'] = 'timeout'
                raise requests.exceptions.ReadTimeout('simulated', request=request)
            e.sleep(fault['seconds'])
        if fault['kind'] == 'connect':
            e.ctx.fault('http-connect')
            rec['hard'] = 'connect'
            raise requests.exceptions.ConnectionError('simulated: connection refused', request=request)
        if fault['kind'] == 'connect-timeout':
            e.ctx.fault('http-connect-timeout')
            rec['hard'] = 'connect-timeout'
            raise requests.exceptions.ConnectTimeout('simulated', request=request)
        if fault['kind'] == 'status':
            e.ctx.fault('http-status')
            page = {'status': fault['status'], 'headers': {'Content-Type': 'application/json'},
                    'body': fault['body'].encode()}
        if fault['kind'] == 'cut':
            # the connection ends early and nothing says so
            e.ctx.fault('http-cut')
            page = dict(page, body=page['body'][:fault['at']], headers={
                k: v for k, v in page['headers'].items() if k.lower() != 'content-length'})
        if fault['kind'] == 'flip' and page['body']:
            e.ctx.fault('http-flip')
            body = bytearray(page['body'])
            body[fault['at'] % len(body)] ^= 1 << fault['bit']
            page = dict(page, body=bytes(body))
    rec['status'], rec['body'] = page['status'], bytes(page['body'])
    body = SimResponseBody(e, page['body'], fault, rec)
    raw = HTTPResponse(
        body=body,
        headers=page['headers'],
        status=page['status'],
        reason=http.client.responses.get(page['status'], ''),
        preload_content=False,
        decode_content=False,
        request_method=request.method,
        request_url=url,
    )
    return self.build_response(request, raw)


def sim_urandom(n):
    return env.urandom(n) if env is not None else real_urandom(n)


def sim_time():
    return 1.7e9 + env.ctx.now if env is not None else real_time()


def sim_monotonic():
    return env.ctx.now if env is not None else real_monotonic()


def sim_sleep(seconds):
    if env is not None:
        env.sleep(seconds)
    else:
        real_sleep(seconds)


real_urandom = os.urandom
real_time = time.time
real_monotonic = time.monotonic
real_sleep = time.sleep


def install():
    """Must run before jschon is imported."""
    from sim import sched
    sched.install_locks()
    builtins.open = sim_open
    io.open = sim_open
    os.urandom = sim_urandom
    time.time = sim_time
    time.monotonic = sim_monotonic
    time.sleep = sim_sleep
    import requests.adapters
    requests.adapters.HTTPAdapter.send = sim_send
    random.seed(0)
