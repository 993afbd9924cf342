"""C06: Astropy objects round trip"""
import os, sys, itertools, warnings, pickle
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc.core import Check, run, Result
from mc.rt import check_roundtrip
from mc.eqv import diff, arr_equal
import numpy as np
warnings.simplefilter('ignore')
from astropy import units as u, constants as const
from astropy.time import Time, TimeDelta
from astropy.table import Table, QTable
from astropy.coordinates import Angle, Longitude, Latitude, SkyCoord, Distance
from astropy.utils import iers
iers.conf.auto_download = False

UNITS = ['', 'm', 'km', 's', 'Hz', 'GHz', 'Jy', 'K', 'deg', 'rad', 'arcsec', 'hourangle', 'pc', 'Mpc', 'km / s', 'm / s2', 'erg / (s cm2 Angstrom)', 'km / (Mpc s)', 'm(1/3)', 's-1.5', '10 m', '1000 kg',
         'mag', 'dex', 'dB', '%', 'micron', 'Angstrom', 'solMass', 'electron', 'ct', 'pix', 'bit', 'Ohm', 'deg_C', 'uas', 'yr', 'eV', 'G', 'Fr']
SHAPES = [(), (1,), (3,), (0,), (2, 2), (1, 3), (2, 0), (2, 1, 2)]
FMTF = ['jd', 'mjd', 'unix', 'unix_tai', 'cxcsec', 'gps', 'decimalyear', 'byear', 'jyear', 'plot_date', 'galexsec']
FMTS = ['iso', 'isot', 'yday', 'fits', 'byear_str', 'jyear_str']
FMTO = ['datetime', 'datetime64', 'ymdhms']
SCALES = ['utc', 'tai', 'tt', 'tdb', 'tcb', 'tcg', 'ut1', 'local']
FRAMES = ['icrs', 'fk5', 'fk4', 'galactic', 'supergalactic', 'gcrs', 'cirs', 'barycentrictrueecliptic', 'hcrs']
CONST = sorted(n for n in dir(const) if isinstance(getattr(const, n), const.Constant))
COLT = ['i4', '>i8', 'f8', 'f4', '?', 'u1', 'S3', 'c16', 'U2', 'O']
META = [{}, {'a': 1}, {'a': 'x', 'b': 2.5}, {'l': [1, 2]}, {'t': ('x', 'y')}, {'d': {'k': 1}}, {'type': 'x'}, {'colnames': ['q']}, {'base_type': b'z'}, {'item_index': 7}, {'key_idx': 0, 'key_base_type': 'str'},
        {'n': None}, {'b': b'x'}, {1: 2}, {'': 3}, {'a\0': 1}, {'s': ''}, {'big': 2**70}, {'u': 2**63}, {'arr': np.arange(3)}, {'h\u00e9': '\u20ac'}, {'z': 1, 'a': 2}, {'t': True, 'f': False}, {'x': 1.5j}, {'nul': 'a\0b'}]


def val(shape, k=1):
    n = int(np.prod(shape)) if shape else 1
    v = (np.arange(n) * 1.25 + 0.1 * k + 0.3)
    return v.reshape(shape) if shape else float(v[0])


def q_diff(a, b, path):
    if (getattr(a, 'mask', None) is None) != (getattr(b, 'mask', None) is None):
        return '%s: mask appeared or vanished' % path
    va, vb = np.asarray(a.value), np.asarray(b.value)
    if va.shape != vb.shape:
        return '%s: shape %s became %s' % (path, va.shape, vb.shape)
    if getattr(a, 'mask', None) is not None:
        if not np.array_equal(a.mask, b.mask):
            return '%s: mask %s became %s' % (path, a.mask, b.mask)
        va, vb = np.where(a.mask, 0, va), np.where(a.mask, 0, vb)
    if va.dtype.kind == 'c' and vb.dtype.kind != 'c':
        return '%s: complex became real' % path
    if not np.array_equal(va, vb, equal_nan=True):
        return '%s: %s became %s' % (path, va, vb)
    if a.unit != b.unit or str(a.unit) != str(b.unit):
        return '%s: unit %s became %s' % (path, a.unit, b.unit)
    if isinstance(a, Longitude) and not (a.wrap_angle == b.wrap_angle):
        return '%s: wrap angle %s became %s' % (path, a.wrap_angle, b.wrap_angle)


def rep_diff(a, b, path):
    if type(a) is not type(b):
        return '%s: representation %s became %s' % (path, type(a).__name__, type(b).__name__)
    for c in a.components:
        x, y = getattr(a, c), getattr(b, c)
        mx, my = (np.asarray(getattr(q, 'mask', np.zeros(q.shape, bool))) for q in (x, y))
        if not np.array_equal(mx, my):
            return '%s.%s: mask %s became %s' % (path, c, mx, my)
        if mx.any():
            if mx.ndim:
                x, y = x[~mx].unmasked, y[~mx].unmasked
            else:
                continue
        if x.shape != y.shape or not np.allclose(np.asarray(x.to_value(y.unit)), np.asarray(y.value), rtol=1e-14, atol=0, equal_nan=True):
            return '%s.%s: %s became %s' % (path, c, x, y)
    if set(getattr(a, 'differentials', {})) != set(getattr(b, 'differentials', {})):
        return '%s: velocities lost' % path
    for k, v in getattr(a, 'differentials', {}).items():
        d = rep_diff(v, b.differentials[k], path + '.' + k)
        if d:
            return d


def pickle_swaps(t, n):
    plain = not (t.has_mixin_columns or t.has_masked_columns or any(c.unit is not None or c.dtype.kind in 'UO' or c.description or c.format or c.meta or not c.name.isascii() for c in t.itercols()))
    return not plain and pickle.loads(pickle.dumps(t))[n].dtype != t[n].dtype


def adiff(a, b, path='value'):
    if isinstance(a, (u.Quantity, Time, SkyCoord, Table, const.Constant, TimeDelta)):
        if type(a) is not type(b):
            return '%s: class %s became %s' % (path, type(a).__name__, type(b).__name__)
        if isinstance(a, const.Constant):
            for n in ('abbrev', 'name', 'value', 'uncertainty', 'reference', 'system'):
                x, y = getattr(a, n), getattr(b, n)
                if n in ('value', 'uncertainty') and np.ndim(x) == 0:
                    # single precision numbers equal the python float they were rounded from
                    x, y = float(x), float(y)
                if x != y or isinstance(x, str) != isinstance(y, str):
                    return '%s.%s: %r became %r' % (path, n, x, y)
            if str(a.unit) != str(b.unit):
                return '%s: unit %s became %s' % (path, a.unit, b.unit)
            return None
        if isinstance(a, u.Quantity):
            return q_diff(a, b, path)
        if isinstance(a, (Time, TimeDelta)):
            if a.format != b.format or a.scale != b.scale:
                return '%s: %s/%s became %s/%s' % (path, a.format, a.scale, b.format, b.scale)
            if a.shape != b.shape:
                return '%s: shape %s became %s' % (path, a.shape, b.shape)
            if not np.array_equal(a.mask, b.mask):
                return '%s: mask %s became %s' % (path, a.mask, b.mask)
            if isinstance(a, Time) and (a.location is None) != (b.location is None):
                return '%s: location %s became %s' % (path, a.location, b.location)
            if isinstance(a, Time) and a.location is not None and not np.all(a.location == b.location):
                return '%s: location %s became %s' % (path, a.location, b.location)
            if isinstance(a, Time) and (a.precision, a.out_subfmt) != (b.precision, b.out_subfmt):
                return '%s: precision or subformat changed' % path
            same = np.asarray((a == b).unmasked if hasattr(a == b, 'unmasked') else a == b) | np.asarray(a.mask)
            nan = np.isnan(np.asarray(getattr(a.jd2, 'unmasked', a.jd2))) & np.isnan(np.asarray(getattr(b.jd2, 'unmasked', b.jd2)))
            if not np.all(same | nan):
                return '%s: %s is not the same time' % (path, a)
            if np.any(a.mask):
                va, vb = np.asarray(a.value)[~a.mask], np.asarray(b.value)[~b.mask]
                return None if va.tolist() == vb.tolist() else '%s: %s became %s' % (path, a, b)
            va, vb = np.asarray(a.value), np.asarray(b.value)
            if va.dtype.kind in 'fc':
                if not np.array_equal(va, vb):
                    return '%s: %s became %s' % (path, va, vb)
            elif va.tolist() != vb.tolist():
                return '%s: %s became %s' % (path, va, vb)
            return None
        if isinstance(a, SkyCoord):
            if a.shape != b.shape:
                return '%s: shape %s became %s' % (path, a.shape, b.shape)
            if a.frame.name != b.frame.name:
                return '%s: frame %s became %s' % (path, a.frame.name, b.frame.name)
            for n in a.frame.frame_attributes:
                x, y = getattr(a.frame, n), getattr(b.frame, n)
                if str(x) != str(y):
                    return '%s: frame attribute %s %s became %s' % (path, n, x, y)
            return rep_diff(a.data, b.data, path)
        # tables
        if a.colnames != b.colnames:
            return '%s: columns %s became %s' % (path, a.colnames, b.colnames)
        if len(a) != len(b):
            return '%s: %d rows became %d' % (path, len(a), len(b))
        for n in a.colnames:
            ca, cb = a[n], b[n]
            if isinstance(ca, (u.Quantity, Time, SkyCoord)):
                d = adiff(ca, cb, '%s[%r]' % (path, n))
            else:
                if type(ca) is not type(cb):
                    return '%s[%r]: %s became %s' % (path, n, type(ca).__name__, type(cb).__name__)
                for n2 in ('description', 'format', 'meta'):
                    if getattr(ca, n2) != getattr(cb, n2):
                        return '%s[%r]: %s %r became %r' % (path, n, n2, getattr(ca, n2), getattr(cb, n2))
                if ca.unit != cb.unit:
                    return '%s[%r]: unit %s became %s' % (path, n, ca.unit, cb.unit)
                xa = np.asarray(ca)
                if xa.dtype != cb.dtype and xa.dtype.newbyteorder('=') == cb.dtype and pickle_swaps(a, n):
                    xa = xa.astype(cb.dtype)  # stored by pickling, astropy drops the byte order
                d = arr_equal(xa, np.asarray(cb), '%s[%r]' % (path, n))
                if d is None and hasattr(ca, 'mask'):
                    d = arr_equal(np.asarray(ca.mask), np.asarray(cb.mask), '%s[%r].mask' % (path, n))
            if d:
                return d
        ma, mb = dict(a.meta), dict(b.meta)
        if set(ma) != set(mb):
            return '%s: metadata %s became %s' % (path, ma, mb)
        for k in ma:
            if isinstance(ma[k], (str, bytes)) != isinstance(mb[k], (str, bytes)) or not np.array_equal(ma[k], mb[k]) if not isinstance(ma[k], dict) else ma[k] != mb[k]:
                return '%s: metadata %r: %r became %r' % (path, k, ma[k], mb[k])
            if isinstance(ma[k], (str, bytes, list, tuple, dict)) and type(ma[k]) is not type(mb[k]):
                return '%s: metadata %r: %r became %r' % (path, k, ma[k], mb[k])
        return None
    if type(a) in (list, tuple):
        if type(a) is not type(b) or len(a) != len(b):
            return '%s: %s became %s' % (path, type(a).__name__, type(b).__name__)
        for i, (x, y) in enumerate(zip(a, b)):
            d = adiff(x, y, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    if type(a) is dict:
        if type(b) is not dict or list(a) != list(b):
            return '%s: keys changed' % path
        return adiff(list(a.values()), list(b.values()), path)
    return diff(a, b, path)


CTX = [lambda x: x, lambda x: [x, 's'], lambda x: {'k': x}, lambda x: (x, x), lambda x: {'a': [x], 1: {'z': x}}]


def cases(tier):
    T = tier == 'thorough'
    for i in range(len(UNITS)):
        for s in SHAPES:
            for k in range(4 if T else 2):
                yield ('q', i, s, k)
    for c in range(1, 5):
        for i in range(len(UNITS)):
            yield ('qctx', i, c)
    for dt in ('f4', 'f8', 'i4', 'i8', '>f8', 'c8', 'c16', '?'):
        for s in SHAPES:
            yield ('qdt', dt, s)
    for n in CONST:
        for c in range(len(CTX) if T else 2):
            yield ('const', n, c)
    for n in ('Magnitude', 'Decibel', 'Dex', 'Distance'):
        for s in SHAPES[:5]:
            yield ('qsub', n, s)
    for cls in ('Angle', 'Latitude', 'Longitude'):
        for unit in ('deg', 'rad', 'arcsec', 'hourangle', 'arcmin', 'mas'):
            for s in SHAPES:
                yield ('angle', cls, unit, s, None)
    for wrap in (0, 90, 180, 270, 359.5, 360, 540):
        for unit in ('deg', 'rad', 'hourangle'):
            for s in SHAPES[:4]:
                yield ('angle', 'Longitude', unit, s, wrap)
    for f in FMTF + FMTS + FMTO:
        for sc in SCALES:
            for s in SHAPES if (T or sc in ('utc', 'tai')) else SHAPES[:3]:
                yield ('time', f, sc, s, 0)
        for c in range(1, len(CTX)):
            yield ('time', f, 'utc', (3,), c)
            yield ('time', f, 'tt', (), c)
    for k in range(14):
        yield ('timev', k)
    for f in ('sec', 'jd'):
        yield ('delta', f)
    for fr in FRAMES:
        for s in SHAPES:
            for kind in range(6):
                yield ('sky', fr, s, kind, 0)
        for c in range(1, len(CTX)):
            yield ('sky', fr, (2,), 0, c)
    for k in range(6):
        yield ('skyattr', k)
    for a, b in itertools.product(range(len(COLT)), repeat=2):
        for rows in (0, 1, 3):
            yield ('table', (a, b), rows, 0, 0, 0)
    for m in range(len(META)):
        for c in range(len(CTX)):
            for opt in (0, 1, 2):
                yield ('table', (0, 2), 2, opt, m, c)
    for opt in range(7):
        for a in range(len(COLT)):
            for rows in (1, 2):
                yield ('table', (a, 2), rows, opt, 1, 0)
                if rows == 2:
                    for mask in range(4):
                        yield ('table', (a, 2), rows, ('mask', mask), 0, 0)
    for n in (1, 2, 3, 9, 10, 11, 30):
        yield ('wide', n)
    for names in (['a b', 'c-d'], ['type', 'colnames'], ['0', '1'], ['a', 'A'], ['x/y', '.'], ['col0', 'data']):
        yield ('names', tuple(names))
    for shp in ((2,), (2, 3)):
        yield ('multi', shp)
    for i in range(len(ODD)):
        for s in SHAPES:
            yield ('odd', i, s, 0)
        for c in range(1, len(CTX)):
            yield ('odd', i, (2,), c)
    for kind in range(6):
        for m in range(9):
            for c in range(len(CTX)):
                yield ('mask', kind, m, c)
    for fmt in ['jd', 'mjd', 'unix', 'jyear', 'decimalyear', 'byear', 'gps'] + FMTS + FMTO:
        for opt in range(5):
            for m in range(5):
                yield ('tmask', fmt, opt, m, 0)
                yield ('tmask', fmt, opt, m, 3)
    for fmt in FMTF + FMTS + FMTO:
        for scale in SCALES:
            for k in range(4):
                yield ('tprec', fmt, scale, k)
    for n in (1000, 1024, 8192, 8193, 20000, 70000):
        for k in range(4):
            yield ('big', n, k)
    for opt in range(1, 16):
        for c in range(3):
            yield ('colattr', opt, c)
    for k in range(4):
        yield ('constx', k)
    for names in (['\u00e4', 'b'], ['a\0b', 'a'], ['a\0', 'a'], ['', ' '], ['\u20ac/\u20ac', '\t']):
        yield ('names', tuple(names))


def odd_units():
    from astropy.units import imperial, cds, cgs, astrophys, photometric
    return [imperial.mile, imperial.psi / u.s, cds.Rgeo, cgs.Fr * u.m, np.pi * u.m, u.CompositeUnit(1e-3 / 7, [u.m, u.s], [1, -0.5]), u.Unit(1.2345678901 * u.km), u.Unit(1 / 3 * u.Jy), u.m**0.123456789,
            u.def_unit('vfoo', 3 * u.m), u.Unit('vfnord', parse_strict='silent'), u.Unit(1e-30 * u.g), u.Unit(2.5e17 * u.one), u.Unit(np.nextafter(1, 2) * 1000 * u.s), photometric.AB, u.m**(7 / 11)]


ODD = odd_units()
MASKS = [[bool(m >> i & 1) for i in range(3)] for m in range(8)]


def mtime(v, f, i):
    t = Time(v, format=f)
    t[i] = np.ma.masked
    return t


def mktime(fmt, scale, shape):
    n = int(np.prod(shape)) if shape else 1
    jd = 2451545.0 + np.arange(n) * 37.25
    t = Time(jd.reshape(shape) if shape else jd[0], format='jd', scale=scale)
    if fmt in ('datetime64', 'datetime', 'ymdhms', 'iso', 'isot', 'yday', 'fits'):
        t.format = fmt
        return t
    try:
        return Time(getattr(t, fmt), format=fmt, scale=scale)
    except Exception:
        pass
    # formats tied to a scale
    c = Time._time_format_cls if False else None
    t2 = Time(2451545.0, format='jd', scale='tai')
    v = np.array([1000.5 + 10 * i for i in range(n)]).reshape(shape) if shape else 1000.5
    return Time(v, format=fmt, scale=scale)


def build(case):
    k = case[0]
    if k == 'q':
        return u.Quantity(val(case[2], case[3]) * (-1) ** case[3], UNITS[case[1]])
    if k == 'qctx':
        return CTX[case[2]](u.Quantity([1.5, np.nan, -0.25], UNITS[case[1]]))
    if k == 'qdt':
        v = np.asarray(val(case[2]))
        v = (v + 2j * v).astype(case[1]) if case[1][-2:] in ('c8', '16') else v.astype(case[1])
        return u.Quantity(v, 'km', dtype=case[1] if case[1] != '?' else None)
    if k == 'const':
        return CTX[case[2]](getattr(const, case[1]))
    if k == 'qsub':
        v = np.abs(np.asarray(val(case[2])))
        return dict(Magnitude=lambda: u.Magnitude(v, 'mag(AB)'), Decibel=lambda: u.Decibel(v), Dex=lambda: u.Dex(v, 'dex(cm/s2)'), Distance=lambda: Distance(v, 'pc'))[case[1]]()
    if k == 'angle':
        cls = dict(Angle=Angle, Latitude=Latitude, Longitude=Longitude)[case[1]]
        v = np.asarray(val(case[3])) * (0.1 if case[1] == 'Latitude' else 1)
        return cls(v, case[2]) if case[4] is None else cls(v, case[2], wrap_angle=Angle(case[4], 'deg'))
    if k == 'time':
        return CTX[case[4]](mktime(case[1], case[2], case[3]))
    if k == 'timev':
        return [Time('2000-01-01T00:00:00.123456', precision=6), Time('1999:365:23:59:59.5'), Time(['2016-12-31T23:59:60.5', '1950-01-01T00:00:00']), Time(0, format='unix'), Time(-1e9, format='unix'),
                Time([2451545.5, 0.0], format='jd', scale='tdb'), Time('J2000'), Time(np.array([[50000.1, 51000.25], [0., 1.]]), format='mjd', scale='tt'),
                Time('2000-01-01', out_subfmt='date'), mtime([1., 2.], 'mjd', 0), mtime(['2000-01-01', '2001-01-01', '2002-01-01'], 'iso', 1), [mtime([1., 2.], 'jd', 1), 's'],
                Time(2451545.25, format='jd', scale='tt', location=(10 * u.deg, 20 * u.deg)), Time(51544.123456789, format='mjd', out_subfmt='str')][case[1]]
    if k == 'delta':
        return [TimeDelta([1.5, 2.5], format=case[1]), 'x']
    if k == 'sky':
        fr, s, kind, c = case[1:]
        lon, lat = np.asarray(val(s)) * 3, np.asarray(val(s)) * -1.5
        kw = {}
        if kind == 1:
            kw['distance'] = np.abs(np.asarray(val(s))) * u.kpc
        elif kind == 2:
            if 'ecliptic' in fr:
                kw = dict(pm_lon_coslat=np.asarray(val(s)) * u.mas / u.yr, pm_lat=np.asarray(val(s)) * u.mas / u.yr)
            elif fr == 'galactic':
                kw = dict(pm_l_cosb=np.asarray(val(s)) * u.mas / u.yr, pm_b=np.asarray(val(s)) * u.mas / u.yr)
            elif fr == 'supergalactic':
                pass
            else:
                kw = dict(pm_ra_cosdec=np.asarray(val(s)) * u.mas / u.yr, pm_dec=np.asarray(val(s)) * u.mas / u.yr)
        if kind == 3:
            return SkyCoord(lon * u.rad * 0.1, lat * u.rad * 0.1, frame=fr)
        if kind == 4:
            return SkyCoord(lon * u.hourangle, lat * u.deg, frame=fr)
        if kind == 5:
            return SkyCoord(x=lon, y=lat, z=lon + 1, unit='kpc', representation_type='cartesian', frame=fr)
        return CTX[c](SkyCoord(lon * u.deg, lat * u.deg, frame=fr, **kw))
    if k == 'skyattr':
        return [SkyCoord(10 * u.deg, 20 * u.deg, frame='fk5', equinox='J1975'), SkyCoord([1, 2] * u.deg, [3, 4] * u.deg, frame='fk4', equinox='B1950', obstime='J1980'),
                SkyCoord('1h12m43.2s +1d12m43s'), SkyCoord([], [], unit='deg'), SkyCoord(359.9999999 * u.deg, -89.99999 * u.deg), SkyCoord(10 * u.deg, 20 * u.deg, frame='gcrs', obstime='J2010')][case[1]]
    if k == 'table':
        cols, rows, opt, m, c = case[1:]
        data = []
        for j, ci in enumerate(cols):
            d = COLT[ci]
            if d == 'U2':
                data.append(np.array(['\u00e9x', 'b', ''] * rows, d)[:rows])
            elif d == 'O':
                o = np.empty(rows, object)
                for r in range(rows):
                    o[r] = [None, [1], 'q'][r % 3]
                data.append(o)
            elif d == 'S3':
                data.append(np.array([b'ab', b'\xff', b''] * rows, d)[:rows])
            else:
                data.append((np.arange(rows) * 3 + j + 1).astype(d))
        t = Table(data, names=['c%d' % j for j in range(len(cols))], meta=META[m])
        if opt == 1:
            t['c1'].unit = 'm'
        elif opt == 2:
            t = QTable(t)
            t['q'] = np.arange(rows) * u.s
        elif opt == 3:
            t['tm'] = Time(2451545.0 + np.arange(rows), format='jd')
        elif opt == 4:
            t['sk'] = SkyCoord(np.arange(rows) * u.deg, np.arange(rows) * u.deg)
        elif opt == 5:
            t['v'] = np.arange(rows * 4).reshape(rows, 2, 2)
        elif opt == 6:
            t = t[:0]
        elif isinstance(opt, tuple):
            t = Table(t, masked=True)
            t['c0'].mask = [bool(opt[1] >> r & 1) for r in range(rows)]
        return CTX[c](t)
    if k == 'wide':
        return Table([np.arange(2) + i for i in range(case[1])], names=['n%d' % (case[1] - i) for i in range(case[1])])
    if k == 'names':
        return [Table([[1, 2], [3., 4.]], names=list(case[1])), 'x']
    if k == 'multi':
        return Table([np.arange(3 * int(np.prod(case[1]))).reshape((3,) + case[1]), [1., 2., 3.]], names=['m', 's'])
    if k == 'odd':
        return CTX[case[3]](u.Quantity(val(case[2]), ODD[case[1]]))
    if k == 'mask':
        from astropy.utils.masked import Masked
        kind, m, c = case[1:]
        mask = MASKS[m] if m < 8 else True
        v = np.array([1.5, 2.5, 3.5]) if m < 8 else 1.5
        if kind == 0:
            x = Masked(v * u.m, mask=mask)
        elif kind == 1:
            x = Masked(Angle(v, 'deg'), mask=mask)
        elif kind == 2:
            x = Masked(Longitude(v, 'deg'), mask=mask)
        elif kind == 3:
            x = SkyCoord(Masked(v * u.deg, mask=mask), v * u.deg)
        elif kind == 4:
            x = QTable({'a': Masked(v * u.m, mask=mask)})
        else:
            x = Masked((v + 1j) * u.Jy, mask=mask)
        return CTX[c](x)
    if k == 'tmask':
        fmt, opt, m, c = case[1:]
        kw = [{}, dict(precision=7), dict(location=(10 * u.deg, 20 * u.deg)), {}, {}][opt]
        jd = np.array([2451545.0, 2451546.25, 2451547.5])
        t = Time(jd if opt != 3 else jd[0], 0.1 if opt == 4 else 0.25, format='jd', **kw)
        t.format = fmt
        if m == 4:
            t = t.reshape(3, 1) if opt != 3 else t
            m = 5
        if opt == 3:
            t = t.reshape(1)
            if m & 1:
                t[0] = np.ma.masked
            t = t[0]
        else:
            t[np.reshape(MASKS[m], t.shape)] = np.ma.masked
        return CTX[c](t)
    if k == 'tprec':
        fmt, scale, n = case[1:]
        a, b = [(2451545.0, 1e-13), (2451545.0, 1 / 3), (2457000.0 + np.arange(3), np.array([0.1, 1e-9, 0.123456789012345])), (np.array([[2400000.5], [2500000.0]]), 0.987654321)][n]
        t = Time(a, b, format='jd', scale=scale)
        t.format = fmt
        t.value  # refused by astropy for some formats and scales
        return [t, 's']
    if k == 'big':
        n = case[1]
        t = Time(2451545.0 + np.arange(n), 1 / 3, format='jd')
        if case[2] == 0:
            t[np.arange(n) % 3 == 0] = np.ma.masked
            return t
        if case[2] == 1:
            return t
        if case[2] == 2:
            return Table({'a': [1]}, meta={'m': np.arange(n), 's': 'x' * n})
        return Table({'a': [1]}, meta={'k' * n: 1})
    if k == 'colattr':
        t = Table({'a': [1.5, 2.5], 'b': [1, 2]})
        if case[1] & 1:
            t['a'].description = 'text'
        if case[1] & 2:
            t['b'].format = '%5d'
        if case[1] & 4:
            t['b'].meta['k'] = 1
        if case[1] & 8:
            t['a'].unit = 'm'
        return CTX[case[2]](t)
    if k == 'constx':
        return [const.Constant('vq\u00fc', 'n', 1.0, 'm', 0.1, 'r'), const.Constant('vqn', 'n\u00fc', 1.0, 'm', 0.1, 'r'), const.Constant('vqr', 'n', 1.0, 'm', 0.1, 'r\u00fc'),
                const.Constant('vqs', 'n', 1.0, 'm', 0.1, '')][case[1]]
    raise AssertionError(case)


def run_case(case):
    warnings.simplefilter('ignore')
    try:
        obj = build(case)
    except Exception:
        return Result(0, 'trivial')
    return check_roundtrip(obj, differ=adiff)


CHECK = Check('C06', cases, run_case, level='exploration',
              rule='product of class, unit, format, scale, frame, shape, column types, masks, metadata and position; every object astropy can construct is dumped, loaded and compared attribute by attribute (combinations astropy rejects are counted as trivial)',
              bound='40 units x 8 shapes; all constants; 20 time formats x 8 scales; 9 frames x 6 representations x 8 shapes; all pairs of 10 column types; 25 metadata sets x 5 positions',
              assumptions=['the width of the floating point type of a quantity is not part of its value', 'times are compared in their own format and scale and as points in time'])
if __name__ == '__main__':
    run(CHECK)
