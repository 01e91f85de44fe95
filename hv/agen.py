"""Generators of astropy objects."""
import datetime
import warnings

import numpy as np
import astropy.constants as const
import astropy.units as u
from astropy.coordinates import Angle, EarthLocation, Latitude, Longitude, SkyCoord
from astropy.table import Column, MaskedColumn, QTable, Table
from astropy.time import Time, TimeDelta
from hypothesis import strategies as st

from .gen import cached
from . import gen

UNITS = ['m', 'km', 's', 'm / s', 'kg m2 / s2', 'deg', 'Jy', 'erg / (cm2 s Hz)', '', 'Angstrom', 'm(1/2)', '1 / s', 'mag', 'ct / pix', 'arcsec', 'eV', 'AB', 'h', 'imperial', 'scaled', 'mag(AB)x']


def unit(name):
    if name == 'imperial':
        from astropy.units import imperial
        return imperial.mile / u.s
    if name == 'scaled':
        return u.Unit(1000 * u.m)
    if name == 'mag(AB)x':
        return u.dimensionless_unscaled
    return u.Unit(name)


@cached
def _f():
    return gen.one_of(st.floats(-1e6, 1e6, allow_nan=False), st.sampled_from([0.0, -0.0, 1.5, float('inf'), float('nan')]))


@cached
def _ff():
    return st.floats(-1e4, 1e4, allow_nan=False)


@cached
def shapes():
    return st.sampled_from([(), (), (1,), (3,), (2, 2), (0,), (2, 0), (1, 2, 2)])


def values(draw, shape, elem, dtype=None):
    n = int(np.prod(shape, dtype=int))
    pool = draw(st.lists(elem, min_size=1, max_size=4))
    with np.errstate(all='ignore'):
        return np.array([pool[i % len(pool)] for i in range(n)], dtype=dtype).reshape(shape)


@cached
@st.composite
def quantities(draw):
    shape = draw(shapes())
    dt = draw(st.sampled_from(['f8', 'f8', 'f4', 'f2', 'c16', 'c8', 'i8', 'i4', '>f8', 'g']))
    k = np.dtype(dt).kind
    elem = st.integers(-100, 100) if k == 'i' else st.builds(complex, _ff(), _ff()) if k == 'c' else _f()
    v = values(draw, shape, elem, dt)
    un = unit(draw(st.sampled_from(UNITS)))
    return u.Quantity(v if shape else v[()], un, dtype=dt)


@cached
@st.composite
def angles(draw):
    cls = draw(st.sampled_from([Angle, Angle, Latitude, Longitude]))
    un = draw(st.sampled_from([u.deg, u.rad, u.arcsec, u.hourangle, u.arcmin]))
    shape = draw(shapes())
    lim = (90 * u.deg).to_value(un) * 0.999
    dt = draw(st.sampled_from(['f8', 'f8', 'f4', 'f2']))
    if dt == 'f2' and (cls is not Angle or un not in (u.deg, u.rad)):
        dt = 'f4'
    v = values(draw, shape, st.floats(-lim, lim), dt)
    v = v if shape else v[()]
    if cls is Longitude:
        w = draw(st.sampled_from([360, 360, 180, 90, 270]))
        return Longitude(v, un, wrap_angle=w * u.deg)
    return cls(v, un)


@cached
@st.composite
def times(draw):
    shape = draw(st.sampled_from([(), (), (1,), (3,), (2, 2)]))
    fmt = draw(st.sampled_from(['iso', 'isot', 'fits', 'yday', 'jd', 'mjd', 'decimalyear', 'unix', 'cxcsec', 'gps', 'jyear', 'byear', 'jyear_str', 'byear_str', 'datetime', 'datetime64', 'ymdhms', 'plot_date']))
    scale = draw(st.sampled_from(['utc', 'utc', 'tai', 'tt', 'tdb', 'ut1', 'tcb', 'tcg']))
    days = values(draw, shape, st.integers(51544, 58000), 'f8')
    frac = values(draw, shape, st.sampled_from([0., 0.5, 0.25, 0.123456, 0.999]), 'f8')
    kw = {}
    if draw(st.integers(0, 4)) == 0:
        kw['location'] = EarthLocation(draw(st.sampled_from([10, -20])) * u.deg, 30 * u.deg, 100 * u.m)
    t = Time(days if shape else days[()], frac if shape else frac[()], format='mjd', scale=scale, **kw)
    t.format = fmt
    # as if the user had given the value in that format: keeps .value exact
    if fmt not in ('datetime', 'datetime64', 'ymdhms'):
        t = Time(t.value, format=fmt, scale=scale, **kw)
    p = draw(st.sampled_from([3, 3, 3, 0, 6, 9]))
    if p != 3:
        t.precision = p
    if fmt in ('iso', 'isot', 'fits', 'yday') and draw(st.integers(0, 3)) == 0:
        t.out_subfmt = draw(st.sampled_from(['date', 'date_hm'])) if fmt not in ('fits',) else 'date'
    return t


NUMBERS = [1.5, -2.25e-7, 3, np.float32(0.1), np.float16(2.5), np.int32(7), 0.0, float('inf')]
TEXTS = ['h', 'Hickle constant', 'Größe', 'somebody et al.', '\u210f', '', 'a b', 'x\ty']


@cached
@st.composite
def user_constants(draw):
    """Constants which are defined by the user"""
    abbrev, name, ref = (draw(st.sampled_from(TEXTS)) for _ in range(3))
    un = draw(st.sampled_from(['m', 'km / s', '1 / s', '', 'imperial', 'erg / (cm2 s Hz)']))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        # astropy refuses to use, and pickle, constants of same name defined in incompatible units
        return const.Constant('u' + abbrev, 'user %s %s' % (un, name), draw(st.sampled_from(NUMBERS)), unit(un), draw(st.sampled_from([0.0, 1e-5, 2])), ref or 'ref', system=draw(st.sampled_from([None, None, 'si', 'cgs'])))


@cached
def constants():
    names = [n for n in dir(const) if isinstance(getattr(const, n), const.Constant)]
    return gen.one_of(st.sampled_from(names).map(lambda n: getattr(const, n)), st.sampled_from(names).map(lambda n: getattr(const, n)), user_constants(),
                     st.sampled_from(['e']).map(lambda n: getattr(const, n).gauss if hasattr(getattr(const, n), 'gauss') else getattr(const, n)),
                     st.sampled_from(['G', 'h', 'k_B', 'c']).map(lambda n: getattr(const, n).cgs if isinstance(getattr(const, n).cgs, const.Constant) else getattr(const, n)))


@cached
@st.composite
def skycoords(draw):
    shape = draw(st.sampled_from([(), (), (1,), (3,), (2, 2)]))
    lon = values(draw, shape, st.floats(0, 359.9), 'f8')
    lat = values(draw, shape, st.floats(-90, 90), 'f8')
    lon, lat = (lon, lat) if shape else (lon[()], lat[()])
    frame = draw(st.sampled_from(['icrs', 'icrs', 'icrs', 'galactic', 'fk5', 'fk4', 'barycentrictrueecliptic', 'cirs']))
    kw = {}
    if frame in ('fk5', 'fk4') and draw(st.booleans()):
        kw['equinox'] = 'J1990' if frame == 'fk5' else 'B1975'
    if draw(st.integers(0, 3)) == 0:
        kw['distance'] = (np.full(shape, 3.5) if shape else 3.5) * u.kpc
    elif frame == 'icrs' and draw(st.integers(0, 4)) == 0:
        one = np.full(shape, 2.0) if shape else 2.0
        kw.update(pm_ra_cosdec=one * u.mas / u.yr, pm_dec=one * u.mas / u.yr)
    un = draw(st.sampled_from([(u.deg, u.deg), (u.rad, u.rad), (u.hourangle, u.deg), (u.arcmin, u.arcsec)]))
    if un[0] is u.rad:
        lon, lat = np.deg2rad(lon), np.deg2rad(lat)
        lat = np.clip(lat, -np.pi / 2, np.pi / 2)
    elif un[0] is u.hourangle:
        lon = lon / 15
    elif un[0] is u.arcmin:
        lon, lat = lon * 60, lat * 3600
    if draw(st.integers(0, 6)) == 0:
        kw['obstime'] = Time('2010-01-01')
    how = draw(st.sampled_from(['values'] * 4 + ['f4', 'wrap']))
    if how == 'f4':
        lon, lat = np.float32(lon), np.float32(lat) * np.float32(0.999)
        if not shape:
            lon, lat = np.asarray(lon), np.asarray(lat)
    elif how == 'wrap':
        lon, lat, un = Longitude(lon, un[0], wrap_angle=draw(st.sampled_from([180, 90, 360])) * u.deg), Latitude(lat, un[1]), None
    if un is None:
        return SkyCoord(lon, lat, frame=frame, **kw)
    return SkyCoord(lon, lat, unit=un, frame=frame, **kw)


@cached
@st.composite
def tables(draw):
    n = draw(st.integers(0, 5))
    names = draw(st.lists(st.sampled_from(['a', 'b', 'c d', 'data', 'é', 'type', 'x1', 'colnames', 'mask']), min_size=0 if draw(st.integers(0, 9)) == 0 else 1, max_size=4, unique=True))
    cls = draw(st.sampled_from([Table, Table, Table, QTable]))
    cols = []
    for name in names:
        k = draw(st.sampled_from(['int', 'float', 'bool', 'str', 'bytes', 'vec', 'masked', 'unit', 'object', 'u1', 'complex', 'time', 'desc']))
        if k == 'int':
            c = Column(values(draw, (n,), st.integers(-10 ** 9, 10 ** 9), 'i8'), name=name)
        elif k == 'u1':
            c = Column(values(draw, (n,), st.integers(0, 255), 'u1'), name=name)
        elif k == 'float':
            c = Column(values(draw, (n,), _f(), draw(st.sampled_from(['f8', 'f4', '>f8']))), name=name)
        elif k == 'complex':
            c = Column(values(draw, (n,), st.builds(complex, _ff(), _ff()), 'c16'), name=name)
        elif k == 'bool':
            c = Column(values(draw, (n,), st.booleans(), '?'), name=name)
        elif k == 'str':
            c = Column(values(draw, (n,), st.text(max_size=4, alphabet='abé \u20ac'), 'U4'), name=name)
        elif k == 'bytes':
            c = Column(values(draw, (n,), st.binary(max_size=4), 'S4'), name=name)
        elif k == 'vec':
            c = Column(values(draw, (n, 2), _ff(), 'f4'), name=name)
        elif k == 'masked':
            c = MaskedColumn(values(draw, (n,), st.integers(-5, 5), 'i4'), name=name, mask=values(draw, (n,), st.booleans(), '?'))
        elif k == 'unit':
            c = Column(values(draw, (n,), _ff(), 'f8'), name=name, unit=draw(st.sampled_from(['m', 'km / s'])))
        elif k == 'time':
            c = Time(values(draw, (n,), st.integers(51544, 58000), 'f8'), format='mjd') if n else Column(np.zeros(0), name=name)
        elif k == 'desc':
            c = Column(values(draw, (n,), _ff(), 'f8'), name=name, description='text', format='%.2f', meta={'k': 1})
        else:
            c = Column(values(draw, (n,), st.sampled_from(['x', 'yy']), 'O'), name=name)
        cols.append(c)
    meta = draw(st.dictionaries(gen.one_of(gen.texts(5), st.sampled_from(['type', 'base_type', 'colnames', 'name', 'item_index'])),
                                gen.one_of(gen.texts(5), st.integers(-2 ** 70, 2 ** 70), st.floats(allow_nan=False), st.booleans(), st.none(), st.lists(st.integers(0, 3), max_size=2),
                                          st.dictionaries(st.text(max_size=2), st.integers(), max_size=2)), max_size=3))
    return cls(cols, names=names, meta=meta)


@cached
def deltas():
    return st.builds(lambda v, f: TimeDelta(v, format=f), st.floats(-1e5, 1e5), st.sampled_from(['sec', 'jd']))


@cached
def anything():
    return gen.one_of(quantities(), angles(), times(), constants(), skycoords(), tables())


@cached
@st.composite
def storable(draw):
    """objects which the loaders of hickle 3 and 4 stored natively, without loss"""
    k = draw(st.sampled_from(['quantity', 'angle', 'sky', 'time', 'constant', 'table']))
    if k == 'constant':
        if draw(st.booleans()):
            return draw(constants().filter(lambda c: c.abbrev != 'e' and type(c) is not const.Constant))       # of a subclass: pickled
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return const.Constant(*draw(st.tuples(st.sampled_from(['Hx', 'q q']), st.sampled_from(['Hickle constant', 'Constant of things']), _ff(), st.sampled_from(['m', 'km / s', '1 / s', '']), st.sampled_from([0.0, 1e-5]),
                                            st.sampled_from(['me', 'somebody et al.']))))
    if k == 'table':
        n = draw(st.integers(1, 4))
        cols = {}
        for name in draw(st.lists(st.sampled_from(['a', 'b', 'c d', 'data', 'x1', 'mask', 'colnames']), min_size=1, max_size=4, unique=True)):
            elem, dt = draw(st.sampled_from([(st.integers(-9, 9), 'i8'), (st.integers(0, 255), 'u1'), (_ff(), 'f8'), (_ff(), 'f4'), (st.booleans(), '?'), (st.sampled_from([b'x', b'', b'abc']), 'S4'),
                                             (st.builds(complex, _ff(), _ff()), 'c16')]))
            shape = (n, 2) if dt == 'f4' and draw(st.booleans()) else (n,)
            cols[name] = values(draw, shape, elem, dt)
        return Table(list(cols.values()), names=list(cols), meta=draw(st.dictionaries(st.sampled_from(['k', 'unit', 'a b', 'é']), gen.one_of(st.integers(-2 ** 63, 2 ** 63 - 1), _ff(), st.text('ab é', min_size=1, max_size=4)), max_size=3)))
    shape = draw(st.sampled_from([(), (), (1,), (3,), (2, 2), (0,), (1, 2, 2)]))
    if k == 'time':
        shape = draw(st.sampled_from([(1,), (3,)]))
        t = Time(values(draw, shape, st.integers(40000, 58000), 'f8'), values(draw, shape, st.sampled_from([0., 0.5, 0.25, 0.123456]), 'f8'), format='mjd', scale=draw(st.sampled_from(['utc', 'tai', 'tdb', 'tt'])))
        fmt = draw(st.sampled_from(['iso', 'isot', 'fits', 'yday', 'jyear_str', 'byear_str', 'jd', 'mjd', 'decimalyear', 'unix', 'gps', 'jyear', 'cxcsec']))
        return Time(getattr(t, fmt), format=fmt, scale=t.scale)
    if k == 'angle':
        v = values(draw, shape, st.floats(-80, 80), 'f8')
        return Angle(v if shape else v[()], draw(st.sampled_from([u.deg, u.rad, u.arcsec, u.hourangle, u.arcmin])))
    if k == 'sky':
        lon, lat = (values(draw, shape, st.floats(0, hi), 'f8') for hi in (6.28, 1.57))
        return SkyCoord(lon if shape else lon[()], lat if shape else lat[()], unit=draw(st.sampled_from([(u.deg, u.deg), (u.rad, u.rad), (u.hourangle, u.deg), (u.arcmin, u.arcsec)])))
    v = values(draw, shape, _f(), 'f8')
    return u.Quantity(v if shape else v[()], unit(draw(st.sampled_from([n for n in UNITS if n != 'imperial']))))


@cached
@st.composite
def large(draw):
    """objects holding many values"""
    k = draw(st.sampled_from(['quantity', 'angle', 'time', 'sky', 'table', 'columns', 'meta']))
    rs = np.random.RandomState(draw(st.integers(0, 99)))
    n = draw(st.integers(50, {'columns': 2500, 'meta': 1000, 'time': 600}[k]) if k in ('columns', 'meta', 'time') else gen.lengths(50, 3000 if k == 'sky' else 60000))
    if k == 'quantity':
        a = rs.uniform(-1, 1, n).astype(draw(st.sampled_from(['f8', 'f4', 'c16'])))
        return u.Quantity(a.reshape(draw(st.sampled_from([(-1,), (1, -1), (-1, 1)]))), draw(st.sampled_from(['m', 'Jy', ''])))
    if k == 'angle':
        return draw(st.sampled_from([Angle, Latitude]))(rs.uniform(-1, 1, n), u.rad)
    if k == 'time':
        t = Time(rs.uniform(41000, 59000, n).round(4), format='mjd')
        t.format = draw(st.sampled_from(['mjd', 'iso', 'jd', 'isot', 'yday']))
        return Time(t.value, format=t.format, scale=t.scale)
    if k == 'sky':
        return SkyCoord(rs.uniform(0, 6, n), rs.uniform(-1.5, 1.5, n), unit='rad')
    if k == 'table':
        return Table([np.arange(n), rs.uniform(-1, 1, n), np.array(['%d' % i for i in range(n)]).astype('S'), np.arange(2 * n).reshape(n, 2)], names=['i', 'f', 's', 'v'], meta={'n': n})
    if k == 'columns':
        pad = 'c' * draw(st.sampled_from([1, 1, 20, 60]))
        return Table([np.arange(i, i + 2) * 1.5 for i in range(n)], names=['%s%d' % (pad, i) for i in range(n)])
    return Table([[1, 2]], names=['a'], meta={'%s%d' % (draw(st.just('k')), i): [i, float(i), 'v%d' % i][i % 3] for i in range(n)})
