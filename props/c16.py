"""C16: the grouping functions are executed on slices whose ends are symbolic,
over a dimension of symbolic length; the groups they return are judged as
sets of ranges."""
import itertools

from sx.harness import scenario, product

ASSUMPTIONS = [
    'Dimensions of every length; up to 3 inputs of up to 4 slices each along '
    'one dimension (5 in the thorough tier), and up to 2 x 3 slices in 2-D.',
    'Tiles are not empty, unless the dimension is.',
]


def grouper(env):
    return env.module('biggus.experimental.key_grouper')


def bounds(env, sl, n):
    """The range which a unit-step slice selects of n elements."""
    def clip(v, default):
        if v is None:
            return default
        if v < 0:
            v = v + n
        if v < 0:
            v = 0
        return n if v > n else v
    start, stop = clip(sl.start, 0), clip(sl.stop, n)
    return start, (start if stop < start else stop)


@scenario('C16', quick=product(start=['none', 'int'], stop=['none', 'int'],
                               step=[None, 1]))
def normalising(env, start, stop, step):
    """Any length, any unit-step slice."""
    n = env.int('n', 0)
    sl = slice(env.int('start') if start == 'int' else None,
               env.int('stop') if stop == 'int' else None, step)
    r = env.do(lambda: grouper(env).normalize_slice(sl, n), 'normalising')
    env.check(isinstance(r, slice), 'not a slice: %r' % (r,))
    env.check(r.step is None or r.step == 1, 'the step has changed')
    a, b = bounds(env, sl, n), bounds(env, r, n)
    none = env.all([a[0] >= a[1], b[0] >= b[1]])
    same = env.all([a[0] == b[0], a[1] == b[1]])
    env.check(env.any([none, same]), 'other elements are selected')


def tiling(env, name, n, m, form):
    """m ordered slices which tile n elements; their cuts, with both ends."""
    cuts = [0]
    for i in range(m - 1):
        c = env.int('%s%d' % (name, i), 1)
        env.assume(cuts[-1] < c)
        cuts.append(c)
    env.assume(cuts[-1] < n)
    cuts.append(n)

    def end(i, c):
        if i == 0:
            return None if form in ('none', 'negative') else 0
        if i == m:
            return None if form in ('none', 'negative') else n
        return c - n if form == 'negative' else c
    return [slice(end(i, a), end(i + 1, b)) for i, (a, b) in
            enumerate(zip(cuts, cuts[1:]))], cuts


def as_range(t, n):
    return (0 if t[0] is None else t[0]), (n if t[1] is None else t[1])


def judge_ranges(env, ranges, n, what):
    """The ranges are disjoint and tile n elements."""
    total = 0
    for a, b in ranges:
        env.check(env.all([0 <= a, a < b, b <= n]), '%s: an empty range, or '
                  'one outside the dimension' % what)
        total = total + (b - a)
    for (a, b), (c, d) in itertools.combinations(ranges, 2):
        env.check(env.any([b <= c, d <= a]), '%s: ranges overlap' % what)
    env.check(total == n, '%s: the ranges do not cover the dimension' % what)


def judge_tiles(env, slices, a, b, n, what):
    """The (distinct) slices tile the range, in order."""
    at = a
    for sl in slices:
        s, e = bounds(env, sl, n)
        env.check(s == at, '%s: a gap or an overlap' % what)
        at = e
    env.check(at == b, '%s: the slices of an input do not fill the range'
              % what)


def judge_finest(env, all_cuts, ranges, what):
    """No cut which every input has is inside a range."""
    for c in all_cuts[0][1:-1]:
        common = env.all([env.any([c == d for d in cuts[1:-1]])
                          for cuts in all_cuts[1:]])
        inside = env.any([env.all([a < c, c < b]) for a, b in ranges])
        env.check(env.not_(env.all([common, inside])),
                  '%s: a range could be split' % what)


def distinct(env, slices, n):
    """Without repeated slices (which must be adjacent)."""
    out = []
    count = []
    for sl in slices:
        r = bounds(env, sl, n)
        if out:
            q = bounds(env, out[-1], n)
            if bool(env.all([q[0] == r[0], q[1] == r[1]])):
                count[-1] += 1
                continue
        out.append(sl)
        count.append(1)
    return out, count


@scenario('C16', quick=product(sizes=[(1,), (3,), (1, 1), (1, 3), (2, 2),
                                      (3, 1), (2, 3), (3, 3), (2, 2, 2),
                                      (1, 2, 3), (3, 2, 2)],
                               form=['none'], repeat=[1]) +
          product(sizes=[(2, 2), (3, 2)], form=['numbers', 'negative'],
                  repeat=[1]) +
          product(sizes=[(2, 2), (2, 3), (3, 2)], form=['none'],
                  repeat=[2, 3]),
          thorough=product(sizes=[(4, 4), (5, 3), (5, 5), (3, 3, 3),
                                  (4, 3, 2), (2, 2, 2, 2)],
                           form=['none', 'numbers'], repeat=[1, 2]) +
          product(sizes=[(3, 3), (4, 2), (2, 2, 2)], form=['negative'],
                  repeat=[1]), symhash=True, max_loop=40)
def one_dimension(env, sizes, form, repeat):
    """Any length, any tilings, each slice repeated."""
    n = env.int('n', 1)
    keys, all_cuts = [], []
    for k, m in enumerate(sizes):
        sl, cuts = tiling(env, 'abcd'[k], n, m, form)
        r = repeat if k % 2 == 0 else 1
        keys.append([s for s in sl for _ in range(r)])
        all_cuts.append(cuts)
    groups = env.do(lambda: grouper(env).dimension_group_to_lowest_common(
        n, [list(k) for k in keys]), 'grouping')
    ranges = []
    listed = [0] * len(sizes)
    for t, inputs in groups.items():
        a, b = as_range(t, n)
        ranges.append((a, b))
        env.check(len(inputs) == len(sizes), 'an input is missing')
        for k, slices in enumerate(inputs):
            what = 'input %d' % k
            tiles, count = distinct(env, slices, n)
            judge_tiles(env, tiles, a, b, n, what)
            listed[k] += len(slices)
            env.check(all(c == (repeat if k % 2 == 0 else 1)
                          for c in count), '%s: repetitions' % what)
    judge_ranges(env, ranges, n, 'the groups')
    judge_finest(env, all_cuts, ranges, 'the groups')
    env.check(listed == [len(k) for k in keys],
              'slices are missing or repeated')


def same_key(env, x, y, shape):
    if x is y:
        return True
    parts = []
    for a, b, n in zip(x, y, shape):
        (p, q), (r, s) = bounds(env, a, n), bounds(env, b, n)
        parts += [p == r, q == s]
    return bool(env.all(parts))


@scenario('C16', quick=product(sizes=[((2, 2),), ((2, 1), (1, 2)),
                                      ((2, 2), (1, 1)), ((2, 2), (2, 1)),
                                      ((2, 2), (2, 2)), ((1, 3), (1, 2)),
                                      ((3, 1), (2, 2))], order=['C', 'F']),
          thorough=product(sizes=[((3, 2), (2, 3)), ((2, 3), (2, 2)),
                                  ((2, 2), (2, 1), (1, 2)),
                                  ((3, 2), (3, 2))],
                           order=['C', 'F', 'CF']), symhash=True,
          max_loop=60)
def two_dimensions(env, sizes, order):
    """Keys of arrays of any shape, in either order."""
    shape = env.int('n', 1), env.int('m', 1)
    inputs, all_cuts = [], []
    for k, ms in enumerate(sizes):
        rows, rcuts = tiling(env, 'abc'[k], shape[0], ms[0], 'numbers')
        cols, ccuts = tiling(env, 'xyz'[k], shape[1], ms[1], 'numbers')
        if order[k % len(order)] == 'C':
            keys = [(r, c) for r in rows for c in cols]
        else:
            keys = [(r, c) for c in cols for r in rows]
        inputs.append(keys)
        all_cuts.append((rcuts, ccuts))
    groups = env.do(lambda: grouper(env).group_keys(
        shape, *[list(k) for k in inputs]), 'grouping')
    boxes = []
    seen = [[] for _ in inputs]
    for t, lists in groups.items():
        box = [as_range(d, n) for d, n in zip(t, shape)]
        boxes.append(box)
        env.check(len(lists) == len(inputs), 'an input is missing')
        for k, keys in enumerate(lists):
            area = 0
            for key in keys:
                known = [i for i, x in enumerate(inputs[k])
                         if same_key(env, x, key, shape)]
                env.check(len(known) == 1, 'input %d: another key' % k)
                env.check(known[0] not in seen[k], 'input %d: a key in two '
                          'groups' % k)
                seen[k].append(known[0])
                size = 1
                for (a, b), sl, n in zip(box, key, shape):
                    s, e = bounds(env, sl, n)
                    env.check(env.all([a <= s, e <= b]),
                              'input %d: a key outside its group' % k)
                    size = size * (e - s)
                area = area + size
            # They are disjoint, so they fill the box.
            want = 1
            for a, b in box:
                want = want * (b - a)
            env.check(area == want, 'input %d: the keys do not fill the box'
                      % k)
    for k, keys in enumerate(inputs):
        env.check(len(seen[k]) == len(keys), 'input %d: keys are missing' % k)
    for box in boxes:
        for (a, b), n in zip(box, shape):
            env.check(env.all([0 <= a, a < b, b <= n]), 'a box outside')
    for p, q in itertools.combinations(boxes, 2):
        env.check(env.any([env.any([b <= c, d <= a])
                           for (a, b), (c, d) in zip(p, q)]), 'boxes overlap')
    for d in range(2):
        judge_finest(env, [c[d] for c in all_cuts], [b[d] for b in boxes],
                     'dimension %d' % d)


@scenario('C16', quick=product(many=[12000]), max_loop=10 ** 6)
def very_many(env, many):
    """Many slices, the last of which is of any length."""
    n = env.int('n', many)
    sl = [slice(i, i + 1) for i in range(many - 1)] + [slice(many - 1, n)]
    groups = env.do(lambda: grouper(env).dimension_group_to_lowest_common(
        n, [sl, [slice(0, n)]]), 'grouping')
    env.check(len(groups) == 1 and list(groups) == [(None, None, None)],
              'the groups')
    (a, b), = groups.values()
    env.check(len(a) == many and len(b) == 1, 'the slices of the group')
