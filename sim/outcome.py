"""Everything there is to see of an evaluation result, as plain JSON."""
import copy


def tree(node):
    return [
        str(node.path), str(node.relpath), node.key, str(node.instance.path), str(node.absolute_uri),
        node.valid, node.passed, plain(node.annotation), plain(node.error),
        [tree(c) for c in node.children.values()],
    ]


def plain(v):
    return copy.deepcopy(v)


def capture(result, formats=('flag', 'basic', 'detailed', 'verbose', 'hierarchical')):
    out = {'valid': result.valid, 'tree': tree(result)}
    for f in formats:
        out[f] = plain(result.output(f))
    return out


def difference(a, b, path=''):
    """A short description of where two captures differ, or None."""
    if type(a) is not type(b):
        return f'{path}: {brief(a)} instead of {brief(b)}'
    if isinstance(a, dict):
        for k in b:
            if k not in a:
                return f'{path}/{k} is missing'
        for k in a:
            if k not in b:
                return f'{path}/{k} should not be there'
            d = difference(a[k], b[k], f'{path}/{k}')
            if d:
                return d
        if list(a) != list(b):
            return f'{path}: order of members'
        return None
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            d = difference(x, y, f'{path}/{i}')
            if d:
                return d
        if len(a) != len(b):
            return f'{path}: {len(a)} items instead of {len(b)}'
        return None
    return None if a == b else f'{path}: {brief(a)} instead of {brief(b)}'


def brief(v):
    t = repr(v)
    return t if len(t) <= 150 else t[:150] + '...'
