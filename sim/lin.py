"""A linearizability checker (Wing and Gong's search, with memoisation)."""
from sim.kernel import HarnessError


class Op:
    __slots__ = ('inv', 'ret', 'name', 'apply', 'result')

    def __init__(self, inv, ret, name, apply, result):
        """apply(state) -> (new state, result it would have had) or a list of
        such pairs; states are hashable."""
        self.inv = inv
        self.ret = ret
        self.name = name
        self.apply = apply
        self.result = result


def linearizable(ops, state, limit=200_000):
    """Is there an order of `ops`, consistent with real time, that explains
    their results? Returns True or False."""
    n = len(ops)
    full = (1 << n) - 1
    seen = set()
    stack = [(0, state)]
    steps = 0
    while stack:
        done, state = stack.pop()
        if done == full:
            return True
        if (done, state) in seen:
            continue
        seen.add((done, state))
        steps += 1
        if steps > limit:
            raise HarnessError('linearizability check too expensive')
        horizon = min(ops[i].ret for i in range(n) if not done >> i & 1)
        for i in range(n):
            if done >> i & 1 or ops[i].inv > horizon:
                continue
            nxt = ops[i].apply(state)
            for new, result in nxt if isinstance(nxt, list) else [nxt]:
                if result == ops[i].result:
                    stack.append((done | 1 << i, new))
    return False
