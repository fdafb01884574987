"""C23: the temperature formula, the climatology cell of any coordinates (the smoothing and the times by executable contracts)"""
from vc.api import *
from vc.core import uf1

P = 'C23'
TAU = 2.0 * 3.141592653589793


@contract(P, '_get_temperature', ['clearsky_temperature._get_temperature'], assumptions=['cos lies between -1 and 1'])
def _(u):
    h, n, d, o = (sym_float(k) for k in ('hour', 'night', 'day', 'offset'))
    t = u.clearsky_temperature._get_temperature(h, n, d, o)
    c = uf1('cos', (h + (8.0 + o)) / 24.0 * 2.0 * 3.141592653589793, (-1, 1))
    ensure('mean plus 0.35 times the difference times the daily cosine', same(SF.of(t), (d - n) * 0.5 * c * 0.7 + (d + n) / 2.0))
    some = And(Not(n.nan), Not(d.nan), Not(c.nan), (d >= n).b)
    ensure('never beyond 35% of the difference from the mean',
           Implies(some, And((t <= (d + n) / 2 + 0.35 * (d - n)).b, (t >= (d + n) / 2 - 0.35 * (d - n)).b)))


class Stop(Exception):
    pass


class Any_:
    """whatever the calendar part of the function does before the first cell is looked up"""
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return Any_()

    def __call__(self, *a, **k):
        return Any_()

    def __getitem__(self, k):
        return Any_()

    def __setitem__(self, k, v):
        pass

    def __add__(self, o):
        return Any_()
    __sub__ = __radd__ = __rsub__ = __truediv__ = __eq__ = __add__
    __hash__ = object.__hash__

    def __len__(self):
        return 3


class Map:
    def __init__(self, nlon, nlat):
        self.n = (nlon, nlat, 12)

    def __getitem__(self, k):
        free = [i for i, x in enumerate(k) if isinstance(x, slice)]
        if len(free) != 1 or any(isinstance(x, slice) and x != slice(None) for x in k):
            raise Unsupported('map access')
        return [0] * self.n[free[0]]

    @property
    def shape(self):
        return self.n


def nearest(x):
    """round(): an integer at most half away"""
    if not isinstance(x, SF):
        return round(x)
    r = ctx().int('round')
    v = zr(x.r)
    assume(And(z3.ToReal(r) - v <= z3.RealVal('1/2'), v - z3.ToReal(r) <= z3.RealVal('1/2')))
    return SI(r)


def looked_up(data, i, j, k, radius=0):
    raise Stop(data, i, j, k, radius)


@contract(P, 'climatology cell', ['clearsky_temperature.get_clearsky_tamb'],
          overrides={'clearsky_temperature._get_pixel_value': looked_up}, builtin={'clearsky_temperature.round': nearest},
          modules={'pandas': Any_(), 'h5py': Any_(), 'contextlib': Any_(), 'importlib': Any_(), 'numpy': Any_(), 'datetime': Any_()},
          assumptions=['the map is 3600 x 1800, 720 x 360 or 7 x 5 cells, the first column centred on longitude -180, the first row on latitude 90',
                       'round() gives an integer at most one half away'])
def _(u):
    nlon, nlat = fork('map', (3600, 1800), (720, 360), (7, 5))
    lat, lon = sym_float('latitude', lo=-90, hi=90, nan=False), sym_float('longitude', lo=-180, hi=180, nan=False)
    day, night = Map(nlon, nlat), Map(nlon, nlat)
    f = type('F', (), {'File': staticmethod(lambda *a, **k: {'temperature': {'day': day, 'night': night}})})
    m = u.clearsky_temperature
    m.__dict__['h5py'] = f
    try:
        m.get_clearsky_tamb(Any_(), lat, lon)
    except Stop as e:
        data, i, j, k, radius = e.args
    except (AttributeError, TypeError, KeyError, ValueError) as e:
        raise Unsupported(f'{type(e).__name__}: {e}')
    else:
        raise Unsupported('no cell looked up')
    if data is not day and data is not night or not isinstance(i, (SI, int)) or not isinstance(j, (SI, int)) or radius != 0:
        raise Unsupported('cell look-up')
    i, j = (x if isinstance(x, SI) else SI(zi(x)) for x in (i, j))
    ensure('column on the map', And((i >= 0).b, (i < nlon).b))
    ensure('row on the map', And((j >= 0).b, (j < nlat).b))
    # distance in degrees from the centre of the cell, around the globe
    x = zr(lon.r) + 180
    d = x - z3.ToReal(zi(i.v)) * 360 / nlon
    half = z3.RealVal(180) / nlon
    ensure('nearest column', Or(And(d <= half, -d <= half), And(d - 360 <= half, 360 - d <= half)))
    y = 90 - zr(lat.r)
    e = y - z3.ToReal(zi(j.v)) * 180 / nlat
    hl = z3.RealVal(90) / nlat
    ensure('nearest row', Or(And(e <= hl, -e <= hl), And(zi(j.v) == nlat - 1, e >= 0)))
