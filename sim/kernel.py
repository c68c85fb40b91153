"""What a simulated run is made of: a context that records what happened,
violations of the property, and errors of the harness itself."""
import hashlib
import json
import random
from collections import Counter


class Violation(Exception):
    """The property under test does not hold in this run."""

    def __init__(self, cls, msg, **detail):
        super().__init__(cls, msg)
        self.cls = cls
        self.msg = msg
        self.detail = detail


class HarnessError(Exception):
    """The simulator is wrong; says nothing about the property."""


class Skip(Exception):
    """The plan does not make a case (only happens to shrunk plans)."""


class SimulatedCrash(BaseException):
    """Base class of injected BaseExceptions."""


def derive(*parts):
    """A PRNG determined by `parts`."""
    digest = hashlib.sha256(repr(parts).encode()).digest()
    return random.Random(int.from_bytes(digest[:16], 'big'))


def jhash(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]


class Ctx:
    """Everything observed about one run."""

    def __init__(self, plan):
        self.plan = plan
        self.log = []
        self.faults = Counter()
        self.probes = Counter()
        self.sig = hashlib.sha256()
        self.now = 0.0            # simulated seconds
        self.steps = 0
        self.switches = 0
        self.nontrivial = False
        self.schedule = None      # recorded scheduling decisions
        self.checks = 0
        self.scratch = None

    def ev(self, *parts):
        line = ' '.join(p if isinstance(p, str) else repr(p) for p in parts)
        if self.scratch:
            line = line.replace(self.scratch, '(scratch)')  # its name differs from process to process
        self.log.append(line)

    def fault(self, kind):
        self.faults[kind] += 1
        self.ev('FAULT', kind)

    def probe(self, name, n=1):
        self.probes[name] += n

    def state(self, *parts):
        """Mix into the signature by which distinct executions are counted."""
        self.sig.update(repr(parts).encode())

    def check(self, cond, cls, msg, **detail):
        self.checks += 1
        if not cond:
            raise Violation(cls, msg() if callable(msg) else msg, **detail)

    def result(self):
        return {
            'faults': dict(self.faults),
            'probes': dict(self.probes),
            'sig': self.sig.hexdigest()[:16],
            'log_hash': hashlib.sha256('\n'.join(self.log).encode('utf-8', 'surrogatepass')).hexdigest()[:24],
            'now': self.now,
            'steps': self.steps,
            'switches': self.switches,
            'nontrivial': self.nontrivial,
            'checks': self.checks,
        }
