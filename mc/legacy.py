"""Writers of the two old file formats, written down independently of the code in /repo from the format as found in
files of hickle 3.4.9 and 4.0.x (both written through h5py 2.x, hence fixed length byte strings)."""
import base64
import pickle
import numpy as np
import h5py


class Unsupported(Exception):
    """the old format had no way to store that value"""


def s1(*items):
    return np.array(items, dtype='S')


# ---------------------------------------------------------------------------------------------------- version 3
def v3_iterable(o):
    if isinstance(o, (str, bytes, bytearray)):
        return False
    try:
        iter(o)
        return True
    except TypeError:
        return False


def v3_bytes_array(items):
    if any(b'\0' in i[-1:] for i in items):
        raise Unsupported('trailing NUL is stripped by fixed length strings')
    return np.array(items, dtype='S')


def v3_ds(g, name, data, typ, **k):
    d = g.create_dataset(name, data=data, **k)
    d.attrs['type'] = s1(typ)
    return d


def v3_write(o, g, i=0):
    name = 'data_%i' % i
    t = type(o)
    if t is np.ma.MaskedArray:
        v3_ds(g, name, np.asarray(o.data), b'ndarray_masked_data')
        v3_ds(g, name + '_mask', o.mask, b'ndarray_masked_mask')
    elif t is np.ndarray:
        if o.dtype.kind in 'UOMm':
            raise Unsupported('array of text, objects or times')
        v3_ds(g, name, o, b'ndarray')
    elif t.__module__.startswith('scipy.sparse'):
        kind = o.format
        if kind not in ('csr', 'csc', 'bsr') or not t.__name__.endswith('_matrix'):
            raise Unsupported(kind)
        kind = kind.encode()
        sg = g.create_group(name)
        sg.attrs['type'] = s1(kind + b'_matrix')
        for part in ('data', 'indices', 'indptr', 'shape'):
            v3_ds(sg, part, getattr(o, part), kind + b'_matrix_' + part.encode())
    elif t.__module__.startswith('astropy'):
        v3_astropy(o, g, name)
    elif t is dict:
        sg = g.create_group(name)
        sg.attrs['type'] = s1(str(dict).encode())
        for k, v in o.items():
            kn = '%r' % (k,) if isinstance(k, str) else str(k)
            if '/' in kn or '\0' in kn:
                raise Unsupported('slash in key')
            if type(k) not in (str, float, bool, int, complex, tuple):
                raise Unsupported('key type')
            if kn in sg:
                raise Unsupported('keys with the same text')
            kg = sg.create_group(kn)
            kg.attrs['type'] = s1(b'dict_item')
            kg.attrs['key_type'] = s1(str(type(k)).encode())
            v3_write(v, kg, 0)
    elif t in (list, tuple, set):
        items = list(o)
        types = {type(x) for x in items}
        if len(types) == 1 and types <= {bool, complex, bytes, float, str, int}:
            it = types.pop()
            if it is int and any(not -2**63 <= x < 2**63 for x in items):
                raise Unsupported('big integer')
            if it in (str, bytes):
                d = v3_ds(g, name, v3_bytes_array([x.encode('utf8') if it is str else x for x in items]), str(t).encode())
                d.attrs['py3_string_type'] = s1(str(it).encode())
            else:
                v3_ds(g, name, np.array(items), str(t).encode())
        else:
            sg = g.create_group(name)
            sg.attrs['type'] = s1(str(t).encode())
            for n, x in enumerate(items):
                v3_write(x, sg, n)
    elif o is None:
        v3_ds(g, name, [0], b'none')
    elif t is bytes:
        v3_ds(g, name, v3_bytes_array([o]), b'bytes')
    elif t is str:
        if '\0' in o:
            raise Unsupported('NUL in text')
        d = g.create_dataset(name, shape=(1,), dtype=h5py.special_dtype(vlen=str))
        d[0] = o
        d.attrs['type'] = s1(b'string')
    elif t in (int, float, bool, complex):
        if t is int and not -2**63 <= o < 2**63:
            raise Unsupported('big integer')
        d = v3_ds(g, name, o, b'python_dtype', dtype=t)
        d.attrs['python_subdtype'] = str(t).encode()
    elif isinstance(o, (np.floating, np.integer, np.complexfloating)) and t is not np.longdouble and t is not np.clongdouble:
        d = v3_ds(g, name, o, b'np_scalar')
        d.attrs['np_dtype'] = str(d.dtype).encode()
    else:
        import dill
        v3_ds(g, name, v3_bytes_array([dill.dumps(o, protocol=3)]), b'pickle')


def v3_astropy(o, g, name):
    from astropy.units import Quantity
    from astropy.coordinates import Angle, SkyCoord
    from astropy.constants import Constant
    from astropy.table import Table
    from astropy.time import Time
    t = type(o)
    if t is Quantity:
        d = v3_ds(g, name, o.value, b'astropy_quantity', dtype='float64')
        d.attrs['unit'] = s1(str(o.unit).encode())
    elif t is Angle:
        d = v3_ds(g, name, o.value, b'astropy_angle', dtype='float64')
        d.attrs['unit'] = s1(str(o.unit).encode())
    elif t is SkyCoord:
        d = v3_ds(g, name, np.stack((o.data.lon.value, o.data.lat.value), axis=-1), b'astropy_skycoord', dtype='float64')
        d.attrs['lon_unit'] = s1(str(o.data.lon.unit).encode())
        d.attrs['lat_unit'] = s1(str(o.data.lat.unit).encode())
    elif t is Time:
        v = o.value
        if isinstance(v, str):
            raise Unsupported('scalar text time')
        d = v3_ds(g, name, np.array(v).astype('S') if np.asarray(v).dtype.kind == 'U' else v, b'astropy_time')
        d.attrs['format'] = s1(str(o.format).encode())
        d.attrs['scale'] = s1(str(o.scale).encode())
    elif isinstance(o, Constant):
        d = v3_ds(g, name, o.value, b'astropy_constant', dtype='float64')
        st = h5py.special_dtype(vlen=str)
        for k in ('unit', 'abbrev', 'name', 'reference') + (('system',) if o.system else ()):
            d.attrs.create(k, [str(getattr(o, k))], dtype=st)
        d.attrs['uncertainty'] = [o.uncertainty]
    elif isinstance(o, Table):
        a = o.as_array()
        d = v3_ds(g, name, a, b'astropy_table', dtype=a.dtype)
        d.attrs['colnames'] = s1(*[c.encode() for c in o.colnames])
        for k, v in o.meta.items():
            d.attrs[k] = v
    else:
        raise Unsupported(t.__name__)


def v3_file(value, f, path='/', version='3.4.9'):
    """value -> open h5py.File f in the format of hickle 3.4.9"""
    f.attrs['CLASS'] = b'hickle'
    f.attrs['VERSION'] = version
    f.attrs['PYTHON_VERSION'] = '3.7.4'
    f.attrs['type'] = s1(b'hickle')
    g = f.get(path)
    if g is None:
        g = f.create_group(path)
        g.attrs['type'] = s1(b'hickle')
    v3_write(value, g)


# -------------------------------------------------------------------------------------------------- version 4.0
NONE_TYPE = b'\x80\x03c__builtin__\nNoneType\nq\x00.'
RETURN_FIRST = b'\x80\x03chickle.loaders.load_scipy\nreturn_first\nq\x00.'
# object arrays carried a pickled lambda which current interpreters can not unpickle any more
LAMBDA = base64.b64decode('gANjZGlsbC5fZGlsbApfY3JlYXRlX2Z1bmN0aW9uCnEAKGNkaWxsLl9kaWxsCl9sb2FkX3R5cGUKcQFYCAAAAENvZGVUeXBlcQKFcQNScQQoSwFLAEsBSwNLU0MOdABqAXwAZAEZAIMBUwBxBU5LAIZxBlgCAAAAbnBxB1gFAAAAYXJyYXlxCIZxCVgBAAAAeHEKhXELWFQAAAAvaG9tZS9ub3RoZXIvZGF0ZW4vcHJvamVrdGUvZ2l0aHViLWNvbnRyaWJ1dGlvbnMvaGlja2xlL2hpY2tsZS9sb2FkZXJzL2xvYWRfbnVtcHkucHlxDFgIAAAAPGxhbWJkYT5xDUtpQwBxDikpdHEPUnEQY2hpY2tsZS5sb2FkZXJzLmxvYWRfbnVtcHkKX19kaWN0X18KaA1OTn1xEU50cRJScRMu')


def tattr(node, typ, base):
    import dill
    if not isinstance(typ, bytes):
        typ = dill.dumps(typ, protocol=3)
    node.attrs['type'] = np.array(typ)
    node.attrs['base_type'] = base


def v40_write(o, g, name='data'):
    t = type(o)
    if isinstance(o, np.ma.MaskedArray):
        if o.dtype.kind not in 'biufc' or o.dtype.names:
            raise Unsupported('masked array of that type')
        d = g.create_dataset(name, data=np.asarray(o.data))
        d.attrs['np_dtype'] = str(o.dtype).encode()
        tattr(d, t, b'ndarray_masked_data')
        m = g.create_dataset(name + '_mask', data=o.mask)
        tattr(m, np.ndarray, b'ndarray_masked_mask')
    elif t is np.ndarray:
        k = o.dtype.kind
        if k in 'biufcS':
            d = g.create_dataset(name, data=o)
            d.attrs['np_dtype'] = str(o.dtype).encode()
        elif k == 'U':
            try:
                data = np.array(o).astype(o.dtype.str.replace('<U', '|S').replace('>U', '|S'))
            except UnicodeEncodeError:
                raise Unsupported('non ASCII text array')
            d = g.create_dataset(name, data=data)
            d.attrs['np_dtype'] = o.dtype.str.encode()
        elif k == 'O' and o.ndim == 0:
            d = g.create_group(name)
            d.attrs['np_dtype'] = b'object'
            v40_write(o[()], d, 'data')
            tattr(d, LAMBDA, b'ndarray')
            return
        else:
            raise Unsupported('array of that type')
        tattr(d, np.ndarray, b'ndarray')
    elif t.__module__.startswith('scipy.sparse'):
        kind = o.format
        if kind not in ('csr', 'csc', 'bsr') or not t.__name__.endswith('_matrix'):
            raise Unsupported(kind)
        base = kind.encode() + b'_matrix'
        sg = g.create_group(name)
        tattr(sg, RETURN_FIRST, base)
        tattr(sg.create_dataset('data', data=o.data), b'\x80\x03cscipy.sparse.%s\n%s_matrix\nq\x00.' % (kind.encode(), kind.encode()), base)
        for part in ('indices', 'indptr', 'shape'):
            tattr(sg.create_dataset(part, data=getattr(o, part)), NONE_TYPE, base + b'_' + part.encode())
    elif isinstance(o, dict):
        for k in o:
            if type(k) not in (str, int, float, complex, bool, tuple) or '\\' in repr(k) or '\0' in repr(k):
                raise Unsupported('name of such a key not known')
        sg = g.create_group(name)
        tattr(sg, t, b'dict')
        import dill
        for idx, (k, v) in enumerate(o.items()):
            # slashes were replaced
            kg = sg.create_group(('%r' % (k,)).replace('/', '\\'))
            kg.attrs['base_type'] = b'dict_item'
            kg.attrs['key_idx'] = idx
            kg.attrs['key_type'] = np.array(dill.dumps(type(k), protocol=3))
            kg.attrs['key_base_type'] = {type(None): 'None'}.get(type(k), type(k).__name__).encode()
            v40_write(v, kg, 'data')
    elif t in (list, tuple, set):
        items = list(o)
        types = {type(x) for x in items}
        base = t.__name__.encode()
        if len(types) == 1 and types <= {bool, complex, bytes, float, str, int}:
            it = types.pop()
            if it is int and any(not -2**63 <= x < 2**63 for x in items):
                raise Unsupported('big integer')
            if it in (str, bytes):
                try:
                    raw = [x.encode('ascii') if it is str else x for x in items]
                except UnicodeEncodeError:
                    raise Unsupported('non ASCII text in list')
                if it is bytes and any(any(c > 127 for c in x) for x in raw):
                    raise Unsupported('non ASCII bytes in list')
                d = g.create_dataset(name, data=v3_bytes_array(raw))
                d.attrs['str_type'] = it.__name__.encode()
            else:
                d = g.create_dataset(name, data=np.array(items))
        else:
            d = g.create_group(name)
            for n, x in enumerate(items):
                v40_write(x, d, 'data_%i' % n)
        tattr(d, t, base)
    elif o is None:
        raise Unsupported('representation of None not known')
    elif t in (str, bytes):
        if (b'\0' if t is bytes else '\0') in o:
            raise Unsupported('NUL')
        d = g.create_dataset(name, data=o.encode('utf8') if t is str else o, dtype=h5py.special_dtype(vlen=t))
        tattr(d, t, t.__name__.encode())
    elif t in (int, float, bool, complex):
        if t is int and not -2**63 <= o < 2**63:
            raise Unsupported('big integer')
        d = g.create_dataset(name, data=o)
        tattr(d, t, t.__name__.encode())
    elif isinstance(o, (np.floating, np.integer, np.complexfloating)):
        d = g.create_dataset(name, data=o)
        d.attrs['np_dtype'] = str(d.dtype).encode()
        tattr(d, t, b'np_scalar')
    else:
        d = g.create_dataset(name, data=np.array(pickle.dumps(o, protocol=3)))
        d.attrs['base_type'] = b'pickle'


def v40_file(value, f, path='/', version='4.0.1'):
    """value -> open h5py.File f in the format of hickle 4.0.1"""
    g = f.require_group(path)
    g.attrs['HICKLE_VERSION'] = version
    g.attrs['HICKLE_PYTHON_VERSION'] = '3.6.9'
    v40_write(value, g)
