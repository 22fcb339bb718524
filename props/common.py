"""Shared pieces of the harnesses."""


def take_keys(env, name, kinds, shape):
    """
    A full key tuple for an array of this shape.

    kinds: one per dimension ('int', 'slice:bes', 'seq2', 'bool', ...), plus
    'none' (new axis) and 'ell' (Ellipsis) which consume no dimension here.

    """
    keys = []
    d = 0
    for j, kind in enumerate(kinds):
        if kind == 'none':
            keys.append(None)
        elif kind == 'ell':
            keys.append(Ellipsis)
            d = len(shape) - len([k for k in kinds[j + 1:] if k not in (
                'none', 'ell')])
        else:
            keys.append(env.make_key('%s_%d' % (name, j), kind, shape[d]))
            d += 1
    return tuple(keys)
