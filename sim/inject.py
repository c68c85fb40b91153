"""Exceptions that strike at a chosen instant inside jschon code."""
import sys

TOOL = 2


class Injector:
    """Raises `exc` at the nth event of `kind` in jschon code.

    kind 'alloc': entry of an __init__ or __new__ (an allocation fails);
    kind 'line': any line (an interrupt). With n=None, only counts.
    """

    def __init__(self, prefix, kind, n=None, exc=None, exclude=(), calm=False):
        self.prefix = prefix
        self.kind = kind
        self.n = n
        self.exc = exc
        self.count = 0
        self.fired = None
        self.exclude = exclude
        self.calm = calm          # wait if an exception is being handled

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(TOOL, 'inject')
        prefix, DISABLE = self.prefix, mon.DISABLE

        def wanted(code):
            return code.co_filename.startswith(prefix) and not code.co_filename.endswith(self.exclude)

        def on_start(code, _):
            if code.co_name not in ('__init__', '__new__') or not wanted(code):
                return DISABLE
            self.hit(code, code.co_firstlineno)

        def on_line(code, line):
            if not wanted(code):
                return DISABLE
            self.hit(code, line)

        if self.kind == 'alloc':
            mon.register_callback(TOOL, mon.events.PY_START, on_start)
            mon.set_events(TOOL, mon.events.PY_START)
        else:
            mon.register_callback(TOOL, mon.events.LINE, on_line)
            mon.set_events(TOOL, mon.events.LINE)
        return self

    def hit(self, code, line):
        self.count += 1
        if self.n is not None and self.count >= self.n and self.fired is None:
            if self.calm and sys.exception() is not None:
                return
            self.fired = (code.co_name, line)
            raise self.exc

    def __exit__(self, *_):
        mon = sys.monitoring
        mon.set_events(TOOL, 0)
        mon.free_tool_id(TOOL)
