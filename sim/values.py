"""JSON values: generation, strict parsing, exact comparison."""
import json

STRINGS = ['', 'a', 'b', 'ab', 'foo', 'x-1', 'é', '日本', '😀', 'a/b', 'm~n', '%41', 'naïve \u2028 text', '\x85', '"q"',
           '\\', '\u0000', '-1', '01', '0']
KEYS = ['a', 'b', 'c', 'foo', 'bar', '', 'é', 'a/b', 'm~n', '0', '1', '-', 'x-1', '😀']


class NotJSON(ValueError):
    pass


def _refuse(c):
    raise NotJSON(c)


def strict(data):
    """The document denoted by `data`, as UTF-8 JSON text; NotJSON if none."""
    try:
        return json.loads(data.decode('utf-8'), parse_constant=_refuse)
    except NotJSON:
        raise
    except (ValueError, RecursionError) as e:
        raise NotJSON(str(e)) from None


def lenient(data):
    """What a reader that recognises byte order marks and other UTFs may find."""
    try:
        return json.loads(bytes(data), parse_constant=_refuse)
    except NotJSON:
        raise
    except (ValueError, RecursionError) as e:
        raise NotJSON(str(e)) from None


def same(a, b):
    """Exactly the same JSON value (1 is not 1.0, nor True)."""
    stack = [(a, b)]
    while stack:
        a, b = stack.pop()
        if type(a) is not type(b):
            return False
        if isinstance(a, dict):
            if a.keys() != b.keys():
                return False
            stack += [(v, b[k]) for k, v in a.items()]
        elif isinstance(a, list):
            if len(a) != len(b):
                return False
            stack += zip(a, b)
        elif isinstance(a, float):
            if repr(a) != repr(b):
                return False
        elif a != b:
            return False
    return True


def jeq(a, b):
    """Equal in the JSON data model."""
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(jeq(v, b[k]) for k, v in a.items())
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(jeq, a, b))
    return type(a) is type(b) and a == b


def gen_scalar(rng):
    k = rng.randrange(10)
    if k == 0:
        return None
    if k <= 2:
        return rng.random() < 0.5
    if k <= 5:
        return rng.choice([0, 1, 2, 3, -1, 10, 255, 2 ** 31, -2 ** 63, 10 ** 20, 2 ** 53 + 1])
    if k == 6:
        return rng.choice([0.5, 1.0, -1.5, 1e10, 1e-7, 3.14, 0.1, 0.1 + 0.2, 1 / 3, 5e-324, 1.7976931348623157e308, 123456789.12345679,
                           -0.0, 1e22, 9007199254740993.0])
    return rng.choice(STRINGS)


def gen_value(rng, depth=3, width=4):
    if depth <= 0 or rng.random() < 0.3:
        return gen_scalar(rng)
    if rng.random() < 0.5:
        return [gen_value(rng, depth - 1, width) for _ in range(rng.randrange(width + 1))]
    return {rng.choice(KEYS): gen_value(rng, depth - 1, width) for _ in range(rng.randrange(width + 1))}


def brief(v, n=200):
    t = repr(v)
    return t if len(t) <= n else t[:n] + '...'
