"""Library functions that compare, hash or index their arguments in C, written in plain Python.

This module is loaded through the rewriter like the code under test, so that what these
functions compare is compared symbolically.  ops.OVERRIDES sends the originals here.
"""
import bisect
import collections
import functools
import heapq
import itertools
import operator

_NO = object()


# ------------------------------------------------------------------ functools, itertools
def reduce(function, iterable, initial=_NO, /):
    it = iter(iterable)
    if initial is _NO:
        try:
            value = next(it)
        except StopIteration:
            raise TypeError("reduce() of empty iterable with no initial value") from None
    else:
        value = initial
    for x in it:
        value = function(value, x)
    return value


def groupby(iterable, key=None):
    group, cur = [], _NO
    for x in iterable:
        k = x if key is None else key(x)
        if cur is not _NO and not (k == cur):
            yield cur, iter(group)
            group = []
        cur = k if cur is _NO or not group else cur
        group.append(x)
    if cur is not _NO:
        yield cur, iter(group)


def takewhile(predicate, iterable, /):
    for x in iterable:
        if not predicate(x):
            break
        yield x


def dropwhile(predicate, iterable, /):
    it = iter(iterable)
    for x in it:
        if not predicate(x):
            yield x
            break
    yield from it


def filterfalse(predicate, iterable, /):
    for x in iterable:
        if not (x if predicate is None else predicate(x)):
            yield x


def starmap(function, iterable, /):
    for a in iterable:
        yield function(*a)


def accumulate(iterable, func=None, *, initial=None):
    it = iter(iterable)
    total = initial
    if initial is None:
        try:
            total = next(it)
        except StopIteration:
            return
    yield total
    for x in it:
        total = total + x if func is None else func(total, x)
        yield total


# ------------------------------------------------------------------ operator
def op_eq(a, b, /):
    return a == b


def op_ne(a, b, /):
    return a != b


def op_lt(a, b, /):
    return a < b


def op_le(a, b, /):
    return a <= b


def op_gt(a, b, /):
    return a > b


def op_ge(a, b, /):
    return a >= b


def op_contains(a, b, /):
    return b in a


def op_getitem(a, b, /):
    return a[b]


def op_setitem(a, b, c, /):
    a[b] = c


def op_delitem(a, b, /):
    del a[b]


def op_or(a, b, /):
    return a | b


def op_and(a, b, /):
    return a & b


def op_sub(a, b, /):
    return a - b


def op_xor(a, b, /):
    return a ^ b


def op_add(a, b, /):
    return a + b


def op_mod(a, b, /):
    return a % b


def op_ior(a, b, /):
    a |= b
    return a


def op_iand(a, b, /):
    a &= b
    return a


def op_count(a, b, /):
    n = 0
    for x in a:
        if x == b:
            n += 1
    return n


def op_index(a, b, /):
    for i, x in enumerate(a):
        if x == b:
            return i
    raise ValueError("sequence.index(x): x not in sequence")


# ------------------------------------------------------------------ collections
def counter_update(c, iterable=None, /, **kw):
    if iterable is not None:
        if hasattr(iterable, "keys"):
            for k in iterable:
                c[k] = c[k] + iterable[k] if k in c else iterable[k]
        else:
            for x in iterable:
                c[x] = c[x] + 1 if x in c else 1
    for k in kw:
        c[k] = c[k] + kw[k]


def counter_subtract(c, iterable=None, /, **kw):
    if iterable is not None:
        if hasattr(iterable, "keys"):
            for k in iterable:
                c[k] = (c[k] if k in c else 0) - iterable[k]
        else:
            for x in iterable:
                c[x] = (c[x] if x in c else 0) - 1
    for k in kw:
        c[k] = c[k] - kw[k]


def counter(*a, **kw):
    c = new_counter()
    counter_update(c, *a, **kw)
    return c


def counter_op(op, a, b):
    r = new_counter()
    for k in a:
        x, y = a[k], (b[k] if k in b else 0)
        n = x + y if op == "+" else x - y if op == "-" else max(x, y) if op == "|" else min(x, y)
        if n > 0:
            r[k] = n
    for k in b:
        if k not in a:
            y = b[k]
            n = y if op in "+|" else -y if op == "-" else 0
            if n > 0:
                r[k] = n
    return r


def counter_eq(a, b):
    for k in list(a) + [k for k in b if k not in a]:
        if not ((a[k] if k in a else 0) == (b[k] if k in b else 0)):
            return False
    return True


def most_common(c, n=None):
    items = sorted(c.items(), key=lambda kv: kv[1], reverse=True)
    return items if n is None else items[:n]


def ordered(*a, **kw):
    d = new_ordered()
    if a:
        m = a[0]
        if hasattr(m, "keys"):
            for k in m.keys():
                d[k] = m[k]
        else:
            for k, v in m:
                d[k] = v
    for k in kw:
        d[k] = kw[k]
    return d


def default_dict(factory=None, *a, **kw):
    d = new_default(factory)
    if a:
        m = a[0]
        if hasattr(m, "keys"):
            for k in m.keys():
                d[k] = m[k]
        else:
            for k, v in m:
                d[k] = v
    for k in kw:
        d[k] = kw[k]
    return d


def deque_index(d, x):
    for i, y in enumerate(d):
        if y == x:
            return i
    raise ValueError("not in deque")


def deque_remove(d, x):
    i = 0
    for y in list(d):
        if y == x:
            del d[i]
            return
        i += 1
    raise ValueError("deque.remove(x): x not in deque")


def bisect_left(a, x, lo=0, hi=None, *, key=None):
    hi = len(a) if hi is None else hi
    while lo < hi:
        mid = (lo + hi) // 2
        if (a[mid] if key is None else key(a[mid])) < x:
            lo = mid + 1
        else:
            hi = mid
    return lo


def bisect_right(a, x, lo=0, hi=None, *, key=None):
    hi = len(a) if hi is None else hi
    while lo < hi:
        mid = (lo + hi) // 2
        if x < (a[mid] if key is None else key(a[mid])):
            hi = mid
        else:
            lo = mid + 1
    return lo


def insort_left(a, x, lo=0, hi=None, *, key=None):
    a.insert(bisect_left(a, x if key is None else key(x), lo, hi, key=key), x)


def insort_right(a, x, lo=0, hi=None, *, key=None):
    a.insert(bisect_right(a, x if key is None else key(x), lo, hi, key=key), x)


def _down(heap, start, pos):
    new = heap[pos]
    while pos > start:
        up = (pos - 1) >> 1
        if not new < heap[up]:
            break
        heap[pos] = heap[up]
        pos = up
    heap[pos] = new


def _up(heap, pos):
    end, start, new = len(heap), pos, heap[pos]
    child = 2 * pos + 1
    while child < end:
        right = child + 1
        if right < end and not heap[child] < heap[right]:
            child = right
        heap[pos] = heap[child]
        pos = child
        child = 2 * pos + 1
    heap[pos] = new
    _down(heap, start, pos)


def heappush(heap, x):
    heap.append(x)
    _down(heap, 0, len(heap) - 1)


def heappop(heap):
    last = heap.pop()
    if not heap:
        return last
    first = heap[0]
    heap[0] = last
    _up(heap, 0)
    return first


def heapreplace(heap, x):
    first = heap[0]
    heap[0] = x
    _up(heap, 0)
    return first


def heappushpop(heap, x):
    if heap and heap[0] < x:
        x, heap[0] = heap[0], x
        _up(heap, 0)
    return x


def heapify(heap):
    for i in reversed(range(len(heap) // 2)):
        _up(heap, i)


def nsmallest(n, iterable, key=None):
    return sorted(iterable, key=key)[:n]


def nlargest(n, iterable, key=None):
    return sorted(iterable, key=key, reverse=True)[:n]


def merge(*iterables, key=None, reverse=False):
    return iter(sorted(itertools.chain(*iterables), key=key, reverse=reverse))


# set by the installer, which may not go through the overrides
new_counter = new_ordered = new_default = None

OVERRIDES = {
    functools.reduce: reduce, itertools.groupby: groupby, itertools.takewhile: takewhile,
    itertools.dropwhile: dropwhile, itertools.filterfalse: filterfalse, itertools.starmap: starmap,
    itertools.accumulate: accumulate,
    operator.eq: op_eq, operator.ne: op_ne, operator.lt: op_lt, operator.le: op_le, operator.gt: op_gt,
    operator.ge: op_ge, operator.contains: op_contains, operator.getitem: op_getitem, operator.setitem: op_setitem,
    operator.delitem: op_delitem, operator.or_: op_or, operator.and_: op_and, operator.sub: op_sub,
    operator.xor: op_xor, operator.add: op_add, operator.concat: op_add, operator.mod: op_mod, operator.ior: op_ior,
    operator.iand: op_iand, operator.countOf: op_count, operator.indexOf: op_index,
    bisect.bisect_left: bisect_left, bisect.bisect_right: bisect_right, bisect.insort_left: insort_left,
    bisect.insort_right: insort_right, heapq.heappush: heappush, heapq.heappop: heappop, heapq.heapify: heapify,
    heapq.heapreplace: heapreplace, heapq.heappushpop: heappushpop, heapq.nsmallest: nsmallest,
    heapq.nlargest: nlargest, heapq.merge: merge,
    collections.Counter: counter, collections.OrderedDict: ordered, collections.defaultdict: default_dict,
}
