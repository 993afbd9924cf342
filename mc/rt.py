"""round trip helpers working on in-memory files"""
import io, sys, warnings
from .core import Viol, Result, import_hickle
from .eqv import diff


def dump_bytes(obj, **kw):
    import hickle
    b = io.BytesIO()
    hickle.dump(obj, b, mode='w', filename='mem.hkl', **kw)
    return b.getvalue()


def load_bytes(data, path='/', **kw):
    import hickle
    return hickle.load(io.BytesIO(data), path=path, filename='mem.hkl', **kw)


def roundtrip(obj, **kw):
    return load_bytes(dump_bytes(obj, **kw))


def check_roundtrip(obj, expected=None, may_refuse=False, differ=diff, **kw):
    """violation text or None.  may_refuse: dump may raise (but must not alter the value)"""
    expected = obj if expected is None else expected
    try:
        data = dump_bytes(obj, **kw)
    except Exception as e:
        if may_refuse:
            return Result(1, 'refused')
        return Result(1, 'dump raised', 'dump raised %s: %s' % (type(e).__name__, str(e)[:300]))
    try:
        back = load_bytes(data)
    except Exception as e:
        return Result(2, 'load raised', 'load raised %s: %s' % (type(e).__name__, str(e)[:300]))
    # integers of many digits have to be printable while comparing, not while dumping and loading
    limit = sys.get_int_max_str_digits()
    sys.set_int_max_str_digits(0)
    try:
        d = differ(expected, back)
    finally:
        sys.set_int_max_str_digits(limit)
    return Result(2, 'equal' if d is None else 'different', d)
