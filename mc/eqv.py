"""Oracle: structural equality of a loaded value with the dumped one.

diff(a, b) returns None if b is an acceptable restoration of a, otherwise a
description of the first difference.  It never looks at how the value was stored.
"""
import math, types, collections
import numpy as np

NUM = (bool, int, float, complex, np.number, np.bool_)


def kind(x):
    if isinstance(x, (bool, np.bool_)):
        return 'b'
    if isinstance(x, (int, np.integer)):
        return 'i'
    if isinstance(x, (float, np.floating)):
        return 'f'
    if isinstance(x, (complex, np.complexfloating)):
        return 'c'
    return None


def plain(x):
    """exact python value of a number (longdouble stays as it is)"""
    return x.item() if isinstance(x, np.generic) else x


def num_equal(a, b):
    a, b = plain(a), plain(b)
    if isinstance(a, complex) or isinstance(b, complex) or isinstance(a, np.clongdouble) or isinstance(b, np.clongdouble):
        return num_equal_real(a.real, b.real) and num_equal_real(a.imag, b.imag)
    return num_equal_real(a, b)


def num_equal_real(a, b):
    if a != a or b != b:
        return a != a and b != b
    if a != b:
        return False
    if a == 0 and isinstance(a, (float, np.floating)):
        # a negative zero must stay negative as long as the result can represent it
        return bool(np.signbit(a)) == bool(np.signbit(float(b))) if isinstance(b, (float, np.floating)) else not np.signbit(a)
    return True


def exact_number(a, b, path):
    if type(a) is not type(b):
        return '%s: type %s became %s (%r -> %r)' % (path, type(a).__name__, type(b).__name__, a, b)
    if isinstance(a, np.generic) and a.dtype != b.dtype:
        return '%s: dtype %s became %s' % (path, a.dtype, b.dtype)
    if not num_equal(a, b):
        return '%s: %r became %r' % (path, a, b)
    return None


def loose_number(a, b, path, uniform, anysize=False):
    if kind(b) is None or isinstance(b, np.ndarray):
        return '%s: number %r became %r of type %s' % (path, a, b, type(b).__name__)
    if not num_equal(a, b):
        return '%s: %r became %r' % (path, a, b)
    if uniform is not None:
        if issubclass(uniform, np.generic):
            if not (isinstance(b, np.generic) and b.dtype == a.dtype) and type(b) is not type(a):
                return '%s: %r became %r' % (path, a, b)
        elif kind(a) != kind(b):
            return '%s: %r became %r (kind of number changed)' % (path, a, b)
        elif isinstance(b, np.generic) and not anysize and b.dtype.itemsize * 8 not in (8, 64, 128):
            return '%s: %r became %s' % (path, a, b.dtype)
    return None


def numeric_items(items):
    """True if all items are plain numbers"""
    return bool(items) and all(type(x) in (bool, int, float, complex) or isinstance(x, (np.number, np.bool_)) for x in items)


def arr_equal(a, b, path):
    """same dtype, shape and bits"""
    if a.dtype != b.dtype:
        return '%s: dtype %s became %s' % (path, a.dtype, b.dtype)
    if a.dtype.names != b.dtype.names:
        return '%s: fields %s became %s' % (path, a.dtype.names, b.dtype.names)
    if a.shape != b.shape:
        return '%s: shape %s became %s' % (path, a.shape, b.shape)
    if a.dtype.hasobject:
        if a.dtype.names:
            for n in a.dtype.names:
                d = arr_equal(np.asarray(a[n]), np.asarray(b[n]), '%s[%r]' % (path, n))
                if d:
                    return d
            return None
        xs, ys = list(a.reshape(-1)), list(b.reshape(-1))
        return seq_items(xs, ys, path, True)
    if a.dtype.names:
        for n in a.dtype.names:
            d = arr_equal(np.asarray(a[n]), np.asarray(b[n]), '%s[%r]' % (path, n))
            if d:
                return d
        return None
    if a.dtype.kind in 'fc':
        if not same_bits(a, b):
            return '%s: elements differ: %s became %s' % (path, short(a), short(b))
        return None
    if np.ascontiguousarray(a).tobytes() != np.ascontiguousarray(b).tobytes():
        return '%s: elements differ: %s became %s' % (path, short(a), short(b))
    return None


def same_bits(a, b):
    a, b = np.ascontiguousarray(a), np.ascontiguousarray(b)
    if a.dtype.itemsize in (2, 4, 8, 16) and a.dtype.char not in 'gG':
        return a.tobytes() == b.tobytes()
    # long double: padding bytes are undefined, compare values
    if a.dtype.kind == 'c':
        return same_bits(a.real, b.real) and same_bits(a.imag, b.imag)
    nan = np.isnan(a)
    return bool(np.all(nan == np.isnan(b)) and np.all((a == b) | nan) and np.all(np.signbit(a) == np.signbit(b)))


def short(x):
    r = repr(x)
    return r if len(r) < 300 else r[:300] + '...'


def seq_items(xs, ys, path, in_object_array=False):
    if len(xs) != len(ys):
        return '%s: %d items became %d' % (path, len(xs), len(ys))
    if numeric_items(xs):
        t = type(xs[0])
        uniform = t if all(type(x) is t for x in xs) else None
        if in_object_array and uniform is not None and issubclass(uniform, np.generic):
            uniform = {'b': bool, 'i': int, 'f': float, 'c': complex}[kind(xs[0])]
        for i, (x, y) in enumerate(zip(xs, ys)):
            d = loose_number(x, y, '%s[%d]' % (path, i), uniform, in_object_array)
            if d:
                return d
        return None
    for i, (x, y) in enumerate(zip(xs, ys)):
        d = diff(x, y, '%s[%d]' % (path, i))
        if d:
            return d
    return None


def canon(x):
    """hashable key ignoring the difference between python and numpy numbers"""
    if isinstance(x, (bool, np.bool_)):
        return ('n', int(x))
    if kind(x):
        p = plain(x)
        if p != p:
            return 'nan'
        return ('n', p)
    if isinstance(x, tuple):
        return ('t', type(x).__name__) + tuple(canon(i) for i in x)
    if isinstance(x, frozenset):
        return ('fs', frozenset(canon(i) for i in x))
    return (type(x).__name__, x)


_seen = None

# (predicate, comparison) pairs for other types, extended by the checks
EXTRA = []


def diff(a, b, path='value'):
    # shared sub-objects are compared once per pair (graphs would be walked exponentially often otherwise)
    global _seen
    if _seen is None:
        _seen = set()
        try:
            return _diff(a, b, path)
        finally:
            _seen = None
    if isinstance(a, (list, tuple, dict, set)):
        key = (id(a), id(b))
        if key in _seen:
            return None
        _seen.add(key)
    return _diff(a, b, path)


def _diff(a, b, path):
    ta, tb = type(a), type(b)
    for pred, fn in EXTRA:
        if pred(a):
            return fn(a, b, path)
    if isinstance(a, np.ma.MaskedArray):
        if ta is not tb:
            return '%s: type %s became %s' % (path, ta.__name__, tb.__name__)
        d = arr_equal(np.asarray(a.data), np.asarray(b.data), path + '.data')
        if d:
            return d
        if np.shape(np.ma.getmask(a)) != np.shape(np.ma.getmask(b)):
            return "%s.mask: shape %r != %r" % (path, np.shape(np.ma.getmask(a)), np.shape(np.ma.getmask(b)))
        return arr_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b), path + '.mask')
    if isinstance(a, np.ndarray):
        if ta is not tb:
            return '%s: type %s became %s' % (path, ta.__name__, tb.__name__)
        return arr_equal(np.asarray(a), np.asarray(b), path)
    if isinstance(a, np.dtype):
        if not isinstance(b, np.dtype) or a != b or a.names != b.names:
            return '%s: %r became %r' % (path, a, b)
        return None
    if isinstance(a, np.void):
        if ta is not tb or a.dtype != b.dtype:
            return '%s: %r became %r' % (path, a, b)
        return arr_equal(np.asarray(a), np.asarray(b), path)
    if kind(a) is not None and not isinstance(a, np.ndarray):
        return exact_number(a, b, path)
    if ta is not tb:
        return '%s: type %s became %s (%s -> %s)' % (path, ta.__name__, tb.__name__, short(a), short(b))
    if a is None or a is Ellipsis:
        return None
    if isinstance(a, (str, bytes, bytearray)):
        return None if a == b else '%s: %s became %s' % (path, short(a), short(b))
    if isinstance(a, (list, tuple, collections.deque)):
        return seq_items(list(a), list(b), path)
    if isinstance(a, (set, frozenset)):
        if len(a) != len(b):
            return '%s: %d items became %d: %s -> %s' % (path, len(a), len(b), short(a), short(b))
        loose = numeric_items(list(a))
        rest = list(b)
        for x in a:
            cx = canon(x)
            for k, y in enumerate(rest):
                if canon(y) == cx:
                    d = loose_number(x, y, path + '{%r}' % (x,), None) if loose and kind(x) else diff(x, y, path + '{%r}' % (x,))
                    if d is None:
                        del rest[k]
                        break
            else:
                return '%s: item %r missing in %s' % (path, x, short(b))
        return None
    if isinstance(a, dict):
        if len(a) != len(b):
            return '%s: %d keys became %d: %s -> %s' % (path, len(a), len(b), short(a), short(b))
        if isinstance(a, collections.defaultdict) and a.default_factory is not b.default_factory:
            return '%s: default factory %r became %r' % (path, a.default_factory, b.default_factory)
        for (ka, va), (kb, vb) in zip(a.items(), b.items()):
            kp = '%s[%r]' % (path, ka)
            if isinstance(ka, np.generic) and kind(ka):
                # may be stored along with a numeric value as one numeric pair
                d = loose_number(ka, kb, kp + ' key', None)
                if d is None and kind(va) and not isinstance(va, np.ndarray):
                    d = loose_number(va, vb, kp, None)
                    if d:
                        return d
                    continue
            elif kind(ka) and type(ka) not in (bool, int, float, complex):
                d = diff(ka, kb, kp + ' key')
            else:
                d = diff(ka, kb, kp + ' key')
            if d is None:
                d = diff(va, vb, kp)
            if d:
                return d
        return None
    custom = getattr(ta, 'hkl_diff', None)
    if custom is not None:
        return custom(a, b, path)
    try:
        if a == b or a is b:
            return None
    except Exception as e:
        return '%s: cannot compare (%r)' % (path, e)
    return '%s: %s became %s' % (path, short(a), short(b))
