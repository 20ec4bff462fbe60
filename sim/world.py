"""The simulated world: JSON plans -> real stars, operations on them, canonical
digests of states and answers, closed-form life cycles and the reference renderer."""
import hashlib
import math

import numpy as np

from .boot import (CoordinateGrid, Facula, FaculaCollection, FaculaGenerator, FlareCollection,
                   FlareGenerator, Granulation, MSH, SpotCollection, SpotGenerator, Star, StarSpot,
                   StellarFlare, u)

UN = {'d': u.day, 'h': u.hr, 'min': u.min, 's': u.s, 'yr': u.yr, 'wk': u.wk,
      'msh': MSH, 'msh/d': MSH / u.day, 'msh/h': MSH / u.hr, 'km2': u.km**2, 'm2': u.m**2,
      'km2/d': u.km**2 / u.day, 'km2/s': u.km**2 / u.s,
      '1/d': 1 / u.day, '1/h': 1 / u.hr, '1/wk': 1 / u.wk,
      'km': u.km, 'm': u.m, 'Mm': u.Mm, 'Rsun': u.R_sun, 'Rearth': u.R_earth, 'Rjup': u.R_jup, 'au': u.AU,
      'Rsun2': u.R_sun**2, '1/s': 1 / u.s, 'deg': u.deg, 'rad': u.rad, 'arcmin': u.arcmin, 'K': u.K, 'K/km': u.K / u.km,
      'K/Mm': u.K / u.Mm, 'K/Rsun': u.K / u.R_sun, 'erg': u.erg, 'J': u.J, '': u.dimensionless_unscaled}
DAYS = {'d': 1.0, 'h': 1 / 24, 'min': 1 / 1440, 's': 1 / 86400, 'yr': 365.25, 'wk': 7.0}
MSH_KM2 = (1 * MSH).to_value(u.km**2)
RSUN_KM = (1 * u.R_sun).to_value(u.km)


_ALIAS = None            # dict while equal quantities of a run are one and the same object


def alias(on):
    """Users often keep a quantity in a variable and pass it again and again."""
    global _ALIAS
    _ALIAS = {} if on else None


_UNITS = {}              # unit of the plan -> unit in which the code under test gets the quantity


def units(mapping):
    global _UNITS
    _UNITS = mapping or {}


def gen_units(R):
    """A user's favourite units. One target per unit, so that equal stays equal and order is kept."""
    alt = {'d': ('h', 'min', 's', 'wk', 'yr'), 'h': ('d', 'min', 's', 'wk'), 'min': ('h', 'd', 's'), 's': ('h', 'd'),
           'msh': ('km2', 'm2', 'Rsun2'), 'msh/d': ('msh/h', 'km2/d', 'km2/s'), '1/d': ('1/h', '1/wk', '1/s'),
           'km': ('m', 'Mm', 'Rearth', 'Rsun'), 'Rsun': ('km', 'au', 'Rjup'), 'deg': ('rad', 'arcmin'), 'erg': ('J',),
           'K/km': ('K/Mm', 'K/Rsun')}
    return {k: R.choice(v) for k, v in alt.items() if R.random() < 0.45}


def Q(x):
    t = _UNITS.get(x[1])
    k = (x[0], x[1])
    if _ALIAS is not None and k in _ALIAS:
        return _ALIAS[k]
    q = x[0] * UN[x[1]]
    if t:
        q = q.to(UN[t])
    if _ALIAS is not None:
        _ALIAS[k] = q
    return q


def days(x):
    return x[0] * DAYS[x[1]]


def deg(x):
    return Q([x, 'deg'])


# ---------------------------------------------------------------- builders
def make_grid(g):
    return CoordinateGrid.new(tuple(g) if isinstance(g, (list, tuple)) else g)


def gp(g):
    return tuple(g) if isinstance(g, (list, tuple)) else g


def make_rng(seed):
    return np.random.default_rng(seed)


def make_spot(s, gridmaker=None, grid=None):
    kw = dict(gridmaker=gridmaker) if gridmaker is not None else dict(grid_params=gp(grid if grid is not None else 60))
    return StarSpot(lat=Q(s['lat']), lon=Q(s['lon']), area_max=Q(s['amax']), area_current=Q(s['a0']),
                    teff_umbra=Q(s['tu']), teff_penumbra=Q(s['tp']), area_over_umbra_area=s['ratio'],
                    is_growing=s['growing'], growth_rate=Q(s['g']), decay_rate=Q(s['d']), **kw)


def make_fac(f, gridmaker=None, grid=None):
    kw = dict(gridmaker=gridmaker) if gridmaker is not None else dict(grid_params=gp(grid if grid is not None else 60))
    return Facula(lat=Q(f['lat']), lon=Q(f['lon']), r_max=Q(f['rmax']), r_init=Q(f['r0']), depth=Q(f['depth']),
                  lifetime=Q(f['life']), floor_teff_slope=Q(f['fs']), floor_teff_min_rad=Q(f['fmin']),
                  floor_teff_base_dteff=Q(f['fb']), wall_teff_slope=Q(f['ws']), wall_teff_intercept=Q(f['wi']),
                  growing=f['growing'], **kw)


def make_spotgen(g, rng, grid=None, gridmaker=None):
    kw = dict(gridmaker=gridmaker) if gridmaker is not None else {}
    return SpotGenerator(dist_area_mean=Q(g['mean']), dist_area_logsigma=g['sig'], umbra_teff=Q(g['tu']),
                         penumbra_teff=Q(g['tp']), growth_rate=Q(g['g']), decay_rate=Q(g['d']),
                         init_area=Q(g['init']), distribution=g['dist'], coverage=g['cov'],
                         grid_params=gp(grid if grid is not None else 60), rng=rng, **kw)


def make_facgen(g, rng, grid=None, gridmaker=None):
    kw = dict(gridmaker=gridmaker) if gridmaker is not None else {}
    return FaculaGenerator(dist_r_peak=Q(g['r']), dist_r_logsigma=g['rsig'], depth=Q(g['depth']),
                           dist_life_peak=Q(g['life']), dist_life_logsigma=g['lsig'], floor_teff_slope=Q(g['fs']),
                           floor_teff_min_rad=Q(g['fmin']), floor_teff_base_dteff=Q(g['fb']),
                           wall_teff_slope=Q(g['ws']), wall_teff_intercept=Q(g['wi']), coverage=g['cov'], dist='iso',
                           grid_params=gp(grid if grid is not None else 60), rng=rng, **kw)


def make_flaregen(g, rng):
    return FlareGenerator(dist_teff_mean=Q(g['teff']), dist_teff_sigma=Q(g['tsig']), dist_fwhm_mean=Q(g['fwhm']),
                          dist_fwhm_logsigma=g['fsig'], alpha=g['alpha'], beta=g['beta'], min_energy=Q(g['emin']),
                          cluster_size=g['cluster'], rng=rng)


def make_gran(g):
    return Granulation(mean_coverage=g['mean'], amplitude=g['amp'], period=Q(g['period']), dteff=Q(g['dteff']),
                       seed=g['seed'])


def make_star(c, rngs=None):
    """c: star config. rngs: optional list of generators to use instead of seeded ones.
    Returns (star, rngs). c['share'] puts all generators on one random generator."""
    if rngs is None:
        s = c['seeds']
        rngs = [make_rng(x) for x in ([s[0]] * 1 if c.get('share') else s)]
    pick = (lambda i: rngs[0]) if len(rngs) == 1 else (lambda i: rngs[i])
    grid = gp(c['grid'])
    gm = make_grid(c['grid'])
    spots = SpotCollection(*[make_spot(s, gridmaker=gm) for s in c.get('spots', [])], gridmaker=gm)
    facs = FaculaCollection(*[make_fac(f, gridmaker=gm) for f in c.get('facs', [])], gridmaker=gm)
    st = Star(teff=Q(c['teff']), radius=Q(c['radius']), period=10 * u.day, spots=spots, faculae=facs,
              grid_params=grid, u1=c['u1'], u2=c['u2'], rng=pick(0),
              spot_generator=make_spotgen(c['spotgen'], pick(1), gridmaker=gm) if c.get('spotgen') else None,
              fac_generator=make_facgen(c['facgen'], pick(2), gridmaker=gm) if c.get('facgen') else None,
              flare_generator=make_flaregen(c['flaregen'], pick(3)) if c.get('flaregen') else None,
              granulation=make_gran(c['gran']) if c.get('gran') else None)
    return st, rngs


# ---------------------------------------------------------------- operations
def view(v, st=None):
    if v[0] == 'spot':                    # straight at a spot: the caller hands over the spot's own coordinates
        sp = list(st.spots.spots)
        return sp[v[1] % len(sp)].coords if sp else view([0.0, 0.0])
    if round(v[1] * 1e4) % 7 == 3:           # some observers work in radians
        return {'lat': deg(v[0]).to(u.rad), 'lon': deg(v[1]).to(u.rad)}
    return {'lat': deg(v[0]), 'lon': deg(v[1])}


def planet_kw(p):
    """p = [orbit_radius(R_star), planet_radius(R_star), phase deg, inclination deg]"""
    return p


def op_age(st, o):
    st.age(Q(o[1]))


def cov_kwargs(st, d):
    kw = {}
    if 'gran' in d:
        kw['granulation_fraction'] = d['gran']
    if 'pl' in d:
        a, r, ph, inc = d['pl']
        kw.update(orbit_radius=a * st.radius, planet_radius=r * st.radius, phase=deg(ph), inclination=deg(inc))
    return kw


def do(st, o):
    """Perform one operation on a star; returns the answer of a request (None for changes)."""
    k = o[0]
    if k == 'age':
        return st.age(Q(o[1]))
    if k == 'spot':
        return st.add_spot(make_spot(o[1], grid=o[2] if len(o) > 2 else st_grid(st)))
    if k == 'spots':
        return st.add_spot([make_spot(s, grid=st_grid(st)) for s in o[1]])
    if k == 'fac':
        return st.add_fac(make_fac(o[1], grid=o[2] if len(o) > 2 else st_grid(st)))
    if k == 'facs':
        return st.add_fac(tuple(make_fac(s, grid=st_grid(st)) for s in o[1]))
    if k == 'birth_spots':
        return st.birth_spots(Q(o[1]))
    if k == 'birth_fac':
        return st.birth_faculae(Q(o[1]))
    if k == 'mature':
        return st.generate_mature_spots(o[1])
    if k == 'flares':
        return st.get_flares_over_observation(Q(o[1]))
    return ask(st, o)


MUTATORS = ('age', 'spot', 'spots', 'fac', 'facs', 'birth_spots', 'birth_fac', 'mature', 'flares')


def ask(st, o):
    """Read-only requests."""
    k = o[0]
    if k == 'map':
        return st.map
    if k == 'cov':
        return st.calc_coverage(view(o[1], st), **cov_kwargs(st, o[2]))
    if k == 'facmap':
        return st.add_faculae_to_map(*[deg(x) for x in o[1]])
    if k == 'mask':
        a, r, ph, inc = o[2]
        return st.get_transit_mask(deg(o[1][0]), deg(o[1][1]), orbit_radius=a * st.radius,
                                   radius=r * st.radius, phase=deg(ph), inclination=deg(inc))
    if k == 'avgteff':
        return st.average_teff(view(o[1], st))
    if k == 'spotcov':
        return st.spots.get_coverage(st.radius)
    if k == 'mu':
        return st.get_mu(deg(o[1][0]), deg(o[1][1]))
    if k == 'ld':
        return st.ld_mask_for_plotting(st.get_mu(deg(o[1][0]), deg(o[1][1])))
    if k == 'jac':
        return st.get_jacobian()
    if k == 'grid':
        return st.gridmaker.grid()
    if k == 'plfrac':
        a, r, ph, inc = o[1]
        return st.get_pl_frac(deg(ph), a * st.radius, r * st.radius, deg(inc))
    if k == 'spotpix':
        sp = list(st.spots.spots)
        return sp[o[1] % len(sp)].map_pixels(st.radius) if sp else None
    if k == 'facpix':
        fs = list(st.faculae.faculae)
        if not fs:
            return None
        f = fs[o[1] % len(fs)]
        return [f.map_pixels(st.radius), f.fractional_effective_area(deg(o[2]))]
    if k == 'surffrac':
        sp = list(st.spots.spots)
        return sp[o[1] % len(sp)].surface_fraction(view(o[2], st), st.radius) if sp else None
    if k == 'flareint':
        if st.flares is None:
            return None
        return st.get_flare_int_over_timeperiod(Q(o[1]), Q(o[2]), view(o[3], st))
    if k == 'flarelist':
        if st.flares is None:
            return None
        return st.flares.get_flares_in_timeperiod(Q(o[1]), Q(o[2]))
    if k == 'gran':
        return st.get_granulation_coverage((np.array(o[1]) * u.hr).to(UN[_UNITS.get('h', 'h')]))
    if k == 'nbirth':
        return [st.spot_generator.get_n_spots_to_birth(Q(o[1]), st.radius),
                st.fac_generator.get_n_faculae_expected(Q(o[1]), st.radius)]
    if k == 'ldmask':
        return st.ld_mask(st.get_mu(deg(o[1][0]), deg(o[1][1])))
    if k == 'facints':
        return st.faculae.map_pixels(st.map, st.radius, st.teff)
    if k == 'display':
        g = st.grid_params      # a rectangular map is only shown on its own grid
        lat, lon, dat = st.gridmaker.display_grid(*(g if isinstance(g, tuple) else gp(o[1])), st.map)
        return [lat, lon, dat]
    raise KeyError(k)


def st_grid(st):
    g = st.grid_params
    return list(g) if isinstance(g, tuple) else g


# ---------------------------------------------------------------- canonical digests
def canon(x):
    if x is None or isinstance(x, (bool, str, int)):
        return repr(x)
    if isinstance(x, (np.bool_,)):
        return repr(bool(x))
    if isinstance(x, u.Quantity):
        return 'Q' + canon(np.asarray(x.value)) + str(x.unit)
    if isinstance(x, (float, np.floating)):
        return float(x).hex() if math.isfinite(x) else repr(float(x))
    if isinstance(x, np.integer):
        return repr(int(x))
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return canon(x.item())
        a = np.ascontiguousarray(x)
        if a.dtype.kind == 'f':
            a = a + 0.0          # -0.0 == 0.0
        return f'A{x.shape}{x.dtype.kind}' + hashlib.sha1(a.tobytes()).hexdigest()[:16]
    if isinstance(x, dict):
        return '{' + ','.join(sorted(canon_key(k) + ':' + canon(v) for k, v in x.items())) + '}'
    if isinstance(x, (list, tuple)):
        return '[' + ','.join(canon(v) for v in x) + ']'
    if isinstance(x, StellarFlare):
        return canon_flare(x)
    if isinstance(x, StarSpot):
        return canon_spot(x)
    if isinstance(x, Facula):
        return canon_fac(x)
    return f'<{type(x).__name__}>'


def canon_key(k):
    return k if isinstance(k, str) else canon(k)


def val(q, unit):
    return float(q.to_value(unit))


def canon_spot(s):
    return ' '.join(canon(v) for v in (
        val(s.coords['lat'], u.rad), val(s.coords['lon'], u.rad), val(s.area_max, u.km**2),
        val(s.area_current, u.km**2), val(s.teff_umbra, u.K), val(s.teff_penumbra, u.K),
        val(s.growth_rate, 1 / u.day), val(s.decay_rate, u.km**2 / u.day),
        float(s.total_area_over_umbra_area), bool(s.is_growing)))


def canon_fac(f):
    return ' '.join(canon(v) for v in (
        val(f.lat, u.rad), val(f.lon, u.rad), val(f.r_max, u.km), val(f.radius, u.km), val(f.depth, u.km),
        val(f.lifetime, u.day), val(f.floor_teff_slope, u.K / u.km), val(f.floor_teff_min_rad, u.km),
        val(f.floor_teff_base_dteff, u.K), val(f.wall_teff_slope, u.K / u.km), val(f.wall_teff_intercept, u.K),
        bool(f.is_growing)))


def canon_flare(f):
    return ' '.join(canon(val(q, un)) for q, un in ((f.fwhm, u.day), (f.energy, u.erg), (f.lat, u.rad), (f.lon, u.rad),
                                                    (f.Teff, u.K), (f.tpeak, u.day)))


def state_parts(st, rngs=()):
    return dict(spots=[canon_spot(s) for s in st.spots.spots], facs=[canon_fac(f) for f in st.faculae.faculae],
                flares=None if st.flares is None else [canon_flare(f) for f in st.flares.flares],
                rng=[rng_state(r) for r in rngs])


def rng_state(r):
    s = r.bit_generator.state
    return repr((s['bit_generator'], s['state'], s.get('has_uint32'), s.get('uinteger')))


def state(st, rngs=()):
    return hashlib.sha1(repr(state_parts(st, rngs)).encode()).hexdigest()[:20]


def gen_config(st):
    """Public settings of a star and its generators that nothing but the user may change."""
    g, f, e, n = st.spot_generator, st.fac_generator, st.flare_generator, st.granulation
    parts = [st.teff, st.radius, float(st.u1), float(st.u2),
             g.dist_area_mean, float(g.dist_area_logsigma), g.umbra_teff, g.penumbra_teff, g.growth_rate,
             g.decay_rate, g.init_area, g.distribution, float(g.coverage),
             f.dist_r_peak, float(f.dist_r_logsigma), f.depth, f.dist_life_peak, float(f.dist_life_logsigma),
             f.floor_teff_slope, f.floor_teff_min_rad, f.floor_teff_base_dteff, f.wall_teff_slope,
             f.wall_teff_intercept, float(f.coverage),
             e.dist_teff_mean, e.dist_teff_sigma, e.dist_fwhm_mean, float(e.dist_fwhm_logsigma), float(e.alpha),
             float(e.beta), e.min_energy, int(e.cluster_size),
             {k: float(v) for k, v in n.params.items()}, n.dteff, int(n.seed), st.period,
             [x.grid_params for x in (st, g, f)], [x.gridmaker.grid() for x in (st, g, f, st.spots, st.faculae)]]
    return canon(parts)


def gen_owners(st):
    """Which objects a star uses (only comparable within a process)."""
    return [id(x) for x in (st.rng, st.spot_generator, st.fac_generator, st.flare_generator, st.granulation, st.spots, st.faculae,
                            st.spot_generator.rng, st.fac_generator.rng, st.flare_generator.rng)]


# ---------------------------------------------------------------- random plans
def r3(x, n=6):
    return float(f'{x:.{n}g}')


def gen_time(R, lo=0.01, hi=30.0):
    d = math.exp(R.uniform(math.log(lo), math.log(hi)))
    un = R.choice(('d', 'd', 'h', 'h', 'min', 's', 'wk'))
    return [r3(d / DAYS[un]), un]


def gen_grid(R, big=False):
    if R.random() < 0.55:
        return R.choice((150, 300, 500, 1000) if not big else (2000, 3000, 5000))
    return list(R.choice(((15, 30), (24, 40), (31, 60), (40, 80)) if not big else ((60, 120), (80, 150), (101, 200))))


def gen_ld(R):
    return R.choice(((0.0, 0.0), (0.0, 0.0), (0.3, 0.1), (0.6, 0.2), (0.0, 0.5), (0.25, 0.7), (1.0, 0.0)))


def gen_lat(R):
    z = R.random()
    if z < 0.05:
        return R.choice((-90.0, 90.0, 0.0))
    return round(math.degrees(math.asin(R.uniform(-1, 1))), 4)


def gen_lon(R, wild=True):
    if wild and R.random() < 0.16:
        return R.choice((0.0, 360.0, 359.9999, 180.0, -10.0, -10.0, -181.5, 370.0, 725.25))
    return round(R.uniform(0, 360), 4)


def gen_view(R, spots=()):
    """A viewpoint; now and then right beside one that was used before."""
    mem = R.__dict__.setdefault('views', [])
    if mem and R.random() < 0.14:
        v = R.choice(mem)
        d = R.choice((0.0, 1e-7, 1e-5, 1e-3, 0.004, 0.04, 0.3, 1.0)) * R.choice((1, -1))
        return [max(-90.0, min(90.0, v[0] + d)), v[1]] if R.random() < 0.5 else [v[0], v[1] + d]
    v = _gen_view(R, spots)
    mem.append(v)
    return v


def _gen_view(R, spots=()):
    if spots and R.random() < 0.2:
        s = R.choice(spots)
        return [s['lat'][0], s['lon'][0]]
    z = R.random()
    if z < 0.08:
        return [R.choice((90.0, -90.0)), gen_lon(R)]
    if z < 0.3:
        return [0.0, gen_lon(R)]
    return [gen_lat(R), gen_lon(R)]


PLACES = ((10.0, 20.0), (0.0, 0.0), (-35.0, 200.0))     # where regions meet exactly


def gen_spot(R, teff=3300.0, total=45000.0, unit_mix=False, big=False, temps=None):
    """total: stellar surface in msh."""
    amax = math.exp(R.uniform(math.log(total * 2e-4), math.log(total * (0.95 if big else 0.06))))
    growing = R.random() < 0.55
    if growing:
        a0 = amax * math.exp(R.uniform(-4, -0.05)) if R.random() < 0.9 else amax
    else:
        a0 = amax * R.choice((1.0, R.uniform(0.01, 1), R.uniform(0.01, 1)))
    if temps:
        tu, tp = R.choice(temps)
    else:
        tp = round(teff - R.uniform(5, 350), 1)
        tu = round(tp - R.choice((0.0, R.uniform(1, 400), R.uniform(1, 400))), 1)
    s = dict(lat=[gen_lat(R), 'deg'], lon=[gen_lon(R), 'deg'], amax=[r3(amax), 'msh'], a0=[r3(a0), 'msh'],
             tu=[tu, 'K'], tp=[tp, 'K'], ratio=r3(R.choice((5.0, R.uniform(1.2, 8)))), growing=growing,
             g=[R.choice((0.0, 0.52, r3(R.uniform(0.05, 2.5)), r3(R.uniform(0.05, 2.5)))), '1/d'],
             d=[R.choice((0.0, 10.89, r3(amax / R.uniform(1, 40)), r3(amax / R.uniform(1, 40)))), 'msh/d'])
    if R.random() < 0.15:
        la, lo = R.choice(PLACES)
        s['lat'], s['lon'] = [la, 'deg'], [lo, 'deg']
    if s['a0'][0] > s['amax'][0]:
        s['a0'][0] = s['amax'][0]
    if unit_mix or R.random() < 0.12:
        if R.random() < 0.3:
            s['a0'] = [s['a0'][0] * MSH_KM2, 'km2']
            if s['a0'][0] > s['amax'][0] * MSH_KM2:
                s['a0'][0] = s['amax'][0] * MSH_KM2 * (1 - 1e-12)
        if R.random() < 0.3:
            s['g'] = [s['g'][0] / 24, '1/h']
        if R.random() < 0.3:
            s['d'] = R.choice(([s['d'][0] / 24, 'msh/h'], [s['d'][0] * MSH_KM2, 'km2/d']))
        if R.random() < 0.3:
            s['lat'] = [math.radians(s['lat'][0]), 'rad']
            s['lon'] = [math.radians(s['lon'][0]), 'rad']
    return s


def gen_fac(R, rstar_km, unit_mix=False, big=False):
    rmax = rstar_km * math.exp(R.uniform(math.log(0.04), math.log(0.5 if big else 0.25)))
    growing = R.random() < 0.5
    r0 = rmax * math.exp(-2 * R.random() * 0.98) if growing or R.random() < 0.8 else rmax
    f = dict(lat=[gen_lat(R), 'deg'], lon=[gen_lon(R), 'deg'], rmax=[r3(rmax), 'km'], r0=[min(r3(r0), r3(rmax)), 'km'],
             depth=[r3(rmax * R.choice((0.02, 0.1, 0.3, R.uniform(0.01, 0.6)))), 'km'],
             life=[r3(math.exp(R.uniform(math.log(0.2), math.log(20)))), 'd'],
             fs=[R.choice((0.0, 0.0, r3(R.uniform(-20, 20) / rmax))), 'K/km'],
             fmin=[r3(rmax * R.choice((0.0, 0.1, 0.3, 0.7, 2.0))), 'km'],
             fb=[-float(R.randint(60, 200)), 'K'],
             ws=[R.choice((0.0, 0.0, r3(R.uniform(0, 60) / rmax))), 'K/km'],
             wi=[float(R.randint(30, 150)), 'K'], growing=growing)
    z = R.random()
    if z < 0.03:                                     # wall and floor (nearly) as hot as each other: they may round to one temperature
        f['wi'] = [f['fb'][0] + R.choice((0.2, 0.4, -0.3, 0.9, -0.8)), 'K']
        f['ws'], f['fs'] = [0.0, 'K/km'], [0.0, 'K/km']
    elif z < 0.05:                                   # or they cross while the facula grows or decays
        r_x = rmax * R.uniform(0.3, 0.9)
        f['wi'] = [f['fb'][0] + R.randint(5, 60), 'K']
        f['fmin'] = [0.0, 'km']
        f['fs'] = [r3((f['wi'][0] - f['fb'][0]) / r_x), 'K/km']
        f['ws'] = [0.0, 'K/km']
    if unit_mix or R.random() < 0.12:
        if R.random() < 0.4:
            f['life'] = [f['life'][0] * 24, 'h']
        if R.random() < 0.3:
            f['r0'] = [f['r0'][0] * 1000, 'm']
            f['r0'][0] = min(f['r0'][0], f['rmax'][0] * 1000 * (1 - 1e-12))
        if R.random() < 0.3:
            f['depth'] = [f['depth'][0] / 1000, 'Mm']
    return f


def gen_star_cfg(R, grid=None, nspots=(0, 6), nfacs=(0, 4), gens=True, flares=True, gran=0.2, big=False, any_teff=False, busy=0.0):
    teff = R.choice((3000.0, 3300.0, 3500.0, 2900.0 + R.randint(0, 500)))
    if any_teff and R.random() < 0.25:            # facula temperatures are clipped to config.grid_teff_bounds
        teff = R.choice((5772.0, 3850.0, 2400.0))
    rs = R.choice((0.1, 0.15, 0.15, 0.2, 0.4, 1.0, 2.5))
    total = 4 * math.pi * (rs * RSUN_KM)**2 / MSH_KM2
    u1, u2 = gen_ld(R)
    c = dict(teff=[teff, 'K'], radius=[rs, 'Rsun'] if R.random() < 0.8 else [rs * RSUN_KM, 'km'],
             grid=grid if grid is not None else gen_grid(R), u1=u1, u2=u2, share=R.random() < 0.3,
             seeds=[R.randrange(2**31) for _ in range(4)])
    c['spots'] = [gen_spot(R, teff, total, big=big) for _ in range(R.randint(*nspots))]
    c['facs'] = [gen_fac(R, rs * RSUN_KM, big=big) for _ in range(R.randint(*nfacs))]
    if gens:
        c['spotgen'] = gen_spotgen(R, teff, total)
        c['facgen'] = gen_facgen(R, rs * RSUN_KM)
    if flares:
        c['flaregen'] = gen_flaregen(R)
    if busy and gens and R.random() < busy:          # many small regions and flares at a time
        c['spotgen'].update(mean=[r3(total * 0.0006), 'msh'], d=[r3(total * 0.0001), 'msh/d'], g=[0.52, '1/d'], init=[r3(total * 0.00002), 'msh'])
        c['facgen']['r'] = [r3(rs * RSUN_KM * 0.03), 'km']
        if flares:
            c['flaregen']['beta'] += 1.5
        if grid is None:
            c['grid'] = R.choice((100, [10, 16]))
    if R.random() < gran:
        c['gran'] = dict(mean=R.choice((0.2, 0.5)), amp=R.choice((0.005, 0.02)), period=[R.choice((1.0, 3.0)), 'h'],
                         dteff=[float(R.choice((50, 100, 200))), 'K'],
                         seed=R.choice((0, R.randrange(1, 10**6), R.randrange(2**30, 2**31 - 1), R.randrange(2**31 - 1))))
    return c


def gen_spotgen(R, teff, total):
    mean = total * R.choice((0.004, 0.01, 0.02))
    static = R.random() < 0.15
    return dict(mean=[r3(mean), 'msh'], sig=R.choice((0.0, 0.2, 0.3)), tu=[teff - R.choice((300.0, 500.0)), 'K'],
                tp=[teff - R.choice((100.0, 200.0)), 'K'], g=[0.0 if static else R.choice((0.52, 1.5)), '1/d'],
                d=[0.0 if static else r3(mean / R.uniform(3, 20)), 'msh/d'], init=[r3(mean * R.choice((0.02, 0.1))), 'msh'],
                dist=R.choice(('iso', 'solar')), cov=R.choice((0.05, 0.1, 0.2)))


def gen_facgen(R, rstar_km):
    r = rstar_km * R.choice((0.05, 0.1, 0.15))
    return dict(r=[r3(r), 'km'], rsig=R.choice((0.0, 0.1, 0.2)), depth=[r3(r * R.choice((0.1, 0.3))), 'km'],
                life=[R.choice((6.0, 12.0, 48.0, 100.0)), 'h'], lsig=R.choice((0.0, 0.1, 0.2)), fs=[0.0, 'K/km'],
                fmin=[r3(r * R.choice((0.0, 0.3))), 'km'], fb=[-float(R.randint(50, 150)), 'K'], ws=[0.0, 'K/km'],
                wi=[float(R.randint(50, 150)), 'K'], cov=R.choice((0.01, 0.03, 0.05)))


def gen_flaregen(R):
    alpha = R.choice((-0.829, -0.6, -1.2))
    emin = 1e33
    rate = R.choice((0.3, 1.0, 4.0))                     # per day above emin
    return dict(teff=[9000.0, 'K'], tsig=[R.choice((0.0, 500.0)), 'K'], fwhm=[R.choice((1.0, 3.0, 0.3)), 'h'],
                fsig=R.choice((0.0, 0.3)), alpha=alpha, beta=math.log10(rate) - alpha * math.log10(emin), emin=[emin, 'erg'],
                cluster=R.choice((1, 2, 4)))


def gen_planet(R):
    mem = R.__dict__.setdefault('planets', [])
    if mem and R.random() < 0.15:
        p = list(R.choice(mem))
        k = R.randrange(4)
        d = R.choice((0.0, 1e-6, 1e-3, 0.004, 0.04))
        p[k] = p[k] * (1 + d if k == 0 else 1 - d) if k < 2 else p[k] + d   # never larger than the star
        return p
    p = _gen_planet(R)
    mem.append(p)
    return p


def _gen_planet(R):
    a = R.choice((5.0, 20.0, 1.0 + R.random() * 10))
    # phase 180 is mid transit, 0 mid eclipse; keep close to conjunction most of the time
    base = R.choice((180.0, 180.0, 0.0))
    w = math.degrees(math.asin(min(1.0, 1.3 / a)))
    ph = base + R.uniform(-w, w) if R.random() < 0.8 else R.uniform(0, 360)
    if R.random() < 0.1:
        ph = base
    inc = 90.0 if R.random() < 0.4 else 90.0 + R.uniform(-1, 1) * math.degrees(math.asin(min(1, 1.2 / a)))
    return [r3(a), r3(R.choice((0.05, 0.1, 0.15, 0.3, R.uniform(0.02, 0.5)))), round(ph, 4), round(inc, 4)]


def gen_request(R, cfg, cheap=False):
    z = R.choice(('map', 'cov', 'cov', 'cov', 'facmap', 'mask', 'avgteff', 'spotcov', 'mu', 'ld', 'jac', 'grid', 'plfrac',
                  'spotpix', 'facpix', 'surffrac', 'flareint', 'flareint', 'flarelist', 'nbirth', 'display', 'ldmask', 'facints'))
    if cfg.get('gran') and R.random() < 0.08:
        z = 'gran'
    v = gen_view(R, cfg.get('spots', ()))
    if z in ('cov', 'avgteff', 'surffrac', 'flareint') and R.random() < 0.08:
        v = ['spot', R.randrange(8)]
    if z == 'cov':
        d = {}
        if R.random() < 0.4:
            d['gran'] = R.choice((0.0, 1.0, 0.3, r3(R.random())))
        if R.random() < 0.35:
            d['pl'] = gen_planet(R)
        return ['cov', v, d]
    if z == 'mask':
        return ['mask', v, gen_planet(R)]
    if z in ('facmap', 'avgteff', 'mu', 'ld', 'ldmask'):
        return [z, v]
    if z == 'plfrac':
        return [z, gen_planet(R)]
    if z == 'spotpix':
        return [z, R.randrange(8)]
    if z == 'facpix':
        return [z, R.randrange(8), R.choice((0.0, 30.0, 60.0, 85.0, 90.0))]
    if z == 'surffrac':
        return [z, R.randrange(8), v]
    if z in ('flareint', 'flarelist'):
        mem = R.__dict__.setdefault('windows', [])
        t0 = R.uniform(0, 3)
        t1 = t0 + R.choice((0.01, 0.05, 0.3, 1.0))
        if mem and R.random() < 0.2:
            t0, t1 = R.choice(mem)
            t1 += R.choice((0.0, 1e-6, 1e-4, 0.003))
        mem.append((t0, t1))
        return [z, [r3(t0), 'd'], [r3(t1), 'd']] + ([v] if z == 'flareint' else [])
    if z == 'gran':
        n = R.choice((1, 5, 12))
        return [z, [r3(i * R.choice((0.5, 1.0))) for i in range(n)] if n > 1 else [0.0]]
    if z == 'nbirth':
        return [z, gen_time(R)]
    if z == 'display':
        return [z, R.choice(([6, 9], [10, 10], [12, 20]))]
    return [z]


def gen_change(R, cfg, maxage=8.0):
    teff, rs = cfg['teff'][0], Q(cfg['radius']).to_value(u.km)
    total = 4 * math.pi * rs**2 / MSH_KM2
    ks = ['age'] * 4 + ['spot', 'spots', 'fac', 'facs']
    if cfg.get('spotgen'):
        ks += ['birth_spots', 'birth_spots', 'mature']
    if cfg.get('facgen'):
        ks += ['birth_fac', 'birth_fac']
    if cfg.get('flaregen'):
        ks += ['flares']
    z = R.choice(ks)
    if z == 'age':
        return ['age', [0.0, 'd'] if R.random() < 0.05 else gen_time(R, 0.01, maxage)]
    if z == 'spot':
        return ['spot', gen_spot(R, teff, total)]
    if z == 'spots':
        return ['spots', [gen_spot(R, teff, total) for _ in range(R.randint(0, 3))]]
    if z == 'fac':
        return ['fac', gen_fac(R, rs)]
    if z == 'facs':
        return ['facs', [gen_fac(R, rs) for _ in range(R.randint(0, 2))]]
    if z == 'birth_spots':
        return [z, gen_time(R, 0.1, 4.0)]
    if z == 'birth_fac':
        return [z, gen_time(R, 0.02, 0.5)]
    if z == 'mature':
        return [z, R.choice((0.0, 0.01, 0.05))]
    return ['flares', gen_time(R, 0.3, 5.0)]


def gen_history(R, cfg, n, p_req=0.4, maxage=8.0):
    return [gen_request(R, cfg) if R.random() < p_req else gen_change(R, cfg, maxage) for _ in range(n)]


# ---------------------------------------------------------------- closed-form life cycles
class SpotLife:
    """Area of a spot at elapsed time t (days), from the documented law."""

    def __init__(self, a0, amax, g, d, growing):
        self.a0, self.amax, self.g, self.d, self.growing = a0, amax, g, d, growing   # msh, 1/day, msh/day
        k = math.log1p(g)
        if growing:
            self.k = k
            self.tpeak = math.log(amax / a0) / k if k > 0 else math.inf
            if self.tpeak == math.inf:
                self.tdeath = math.inf
            else:
                self.tdeath = self.tpeak + (amax / d if d > 0 else math.inf)
        else:
            self.tpeak = 0.0
            self.tdeath = a0 / d if d > 0 else math.inf

    def area(self, t):
        if self.growing and t < self.tpeak:
            return self.a0 * math.exp(self.k * t)
        top, t0 = (self.amax, self.tpeak) if self.growing else (self.a0, 0.0)
        if t >= self.tdeath:
            return 0.0
        return max(0.0, top - self.d * (t - t0))

    def is_growing(self, t):
        return self.growing and t < self.tpeak

    @classmethod
    def of(cls, s):
        return cls(val(s.area_current, MSH), val(s.area_max, MSH), val(s.growth_rate, 1 / u.day),
                   val(s.decay_rate, MSH / u.day), bool(s.is_growing))


class FacLife:
    def __init__(self, r0, rmax, life, growing):
        self.r0, self.rmax, self.life, self.growing = r0, rmax, life, growing       # km, days
        self.tpeak = 0.5 * life * math.log(rmax / r0) if growing else 0.0
        top = rmax if growing else r0
        # radius falls to rmax/e^2
        self.tdeath = self.tpeak + 0.5 * life * math.log(top / (rmax / math.e**2))
        if not growing and self.tdeath < 0:
            self.tdeath = 0.0

    def radius(self, t):
        if self.growing and t < self.tpeak:
            return self.r0 * math.exp(2 * t / self.life)
        top, t0 = (self.rmax, self.tpeak) if self.growing else (self.r0, 0.0)
        return top * math.exp(-2 * (t - t0) / self.life)

    def is_growing(self, t):
        return self.growing and t < self.tpeak

    @classmethod
    def of(cls, f):
        return cls(val(f.radius, u.km), val(f.r_max, u.km), val(f.lifetime, u.day), bool(f.is_growing))


# ---------------------------------------------------------------- reference renderer
def lens_outside(d):
    """1 - overlap fraction of two unit circles at distance d."""
    d = abs(d)
    if d >= 2:
        return 1.0
    return 1 - (2 * math.acos(d / 2) - (d / 2) * math.sqrt(4 - d * d)) / math.pi


def disk_overlap(x, y, r):
    """Area of the overlap of the circle (x,y,r) with the unit circle, in units of the circle."""
    d = math.hypot(x, y)
    if d >= 1 + r:
        return 0.0
    if d <= 1 - r:
        return 1.0
    if d <= r - 1:
        return 1 / r**2
    a1 = math.acos(max(-1, min(1, (d * d + 1 - r * r) / (2 * d))))
    a2 = math.acos(max(-1, min(1, (d * d + r * r - 1) / (2 * d * r))))
    tri = 0.5 * math.sqrt(max(0.0, (-d + 1 + r) * (d + 1 - r) * (d - 1 + r) * (d + 1 + r)))
    return (a1 + r * r * a2 - tri) / (math.pi * r * r)


def unit_vec(lat, lon):
    return np.array([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)])


class RSpot:
    """What a spot looks like, in plain numbers (radians, K)."""

    def __init__(self, s, rstar_km):
        self.lat, self.lon = val(s.coords['lat'], u.rad), val(s.coords['lon'], u.rad)
        area = val(s.area_current, u.km**2)
        self.rad = math.acos(max(-1.0, min(1.0, 1 - area / (2 * math.pi * rstar_km**2))))
        self.umb = self.rad / math.sqrt(float(s.total_area_over_umbra_area))
        self.tu, self.tp = val(s.teff_umbra, u.K), val(s.teff_penumbra, u.K)


class RFac:
    def __init__(self, f, rstar_km, teff):
        self.lat, self.lon = val(f.lat, u.rad), val(f.lon, u.rad)
        r = val(f.radius, u.km)
        self.rad = r / rstar_km
        self.floor_d = (r - val(f.floor_teff_min_rad, u.km)) * val(f.floor_teff_slope, u.K / u.km) + val(f.floor_teff_base_dteff, u.K)
        self.wall_d = r * val(f.wall_teff_slope, u.K / u.km) + val(f.wall_teff_intercept, u.K)
        self.small = r < val(f.floor_teff_min_rad, u.km)
        self.edge = abs(r / max(val(f.floor_teff_min_rad, u.km), 1e-9) - 1) < 1e-9
        self.dr = val(f.depth, u.km) / r
        self.teff = teff

    def tw(self):
        return self.teff + self.wall_d

    def tf(self):
        return self.teff + self.floor_d

    def wall_frac(self, angle):
        if self.small:
            return 1.0
        return lens_outside(self.dr * abs(math.tan(angle)))


def scene(st):
    rk = val(st.radius, u.km)
    teff = val(st.teff, u.K)
    return dict(rk=rk, teff=teff, spots=[RSpot(s, rk) for s in st.spots.spots],
                facs=[RFac(f, rk, teff) for f in st.faculae.faculae], u1=float(st.u1), u2=float(st.u2))


class Points:
    """Surface points with area weights, computed independently of the code's weights."""

    def __init__(self, lat, lon, kind):
        self.lat, self.lon = np.asarray(lat, float), np.asarray(lon, float)
        self.v = np.stack([np.cos(self.lat) * np.cos(self.lon), np.cos(self.lat) * np.sin(self.lon), np.sin(self.lat)])
        w = np.cos(self.lat) if kind == 'rect' else np.ones_like(self.lat)
        w = np.clip(w, 0, None)
        self.w = w / w.sum()

    @classmethod
    def of_star(cls, st):
        lat, lon = st.gridmaker.grid()
        kind = 'rect' if isinstance(st.grid_params, tuple) else 'spiral'
        return cls(lat.to_value(u.rad), lon.to_value(u.rad), kind)

    @classmethod
    def of_params(cls, grid):
        """The points a grid of these parameters should have."""
        if isinstance(grid, (list, tuple)):
            la = np.radians(np.linspace(-90, 90, grid[0]))
            lo = np.radians(np.arange(grid[1]) * 360.0 / grid[1])
            lat, lon = np.meshgrid(la, lo)
            return cls(lat, lon, 'rect')
        i = np.arange(grid)
        lon = (2 * np.pi * i / ((1 + 5**0.5) / 2)) % (2 * np.pi)
        lat = np.arcsin(np.clip(1 - 2 * (i + 0.5) / grid, -1, 1))
        return cls(lat, lon, 'spiral')

    @classmethod
    def fine(cls, n=40000):
        i = np.arange(n)
        lat = np.arcsin(1 - 2 * (i + 0.5) / n)
        lon = (i * math.pi * (3 - math.sqrt(5))) % (2 * math.pi)
        return cls(lat, lon, 'spiral')

    def dist(self, lat, lon):
        """Angular distance of all points from a direction, accurate at small and large angles."""
        c = unit_vec(lat, lon)
        ch = np.sqrt(sum((self.v[k] - c[k])**2 for k in range(3)))
        return 2 * np.arcsin(np.clip(ch / 2, 0, 1))

    def mu(self, lat, lon):
        c = unit_vec(lat, lon)
        return sum(self.v[k] * c[k] for k in range(3))


def render_spots(P, sc, eps=2e-6):
    """(temperature map, ambiguous mask)"""
    T = np.full(P.lat.shape, sc['teff'])
    amb = np.zeros(P.lat.shape, bool)
    for s in sc['spots']:
        r = P.dist(s.lat, s.lon)
        T = np.where(r < s.rad, np.minimum(T, s.tp), T)
        T = np.where(r < s.umb, np.minimum(T, s.tu), T)
        amb |= (np.abs(r - s.rad) < eps) | (np.abs(r - s.umb) < eps)
    return T, amb


def render_full(P, sc, lat0, lon0, eps=2e-6):
    """Spots plus faculae as seen from (lat0, lon0) in radians.
    Returns T, ambiguous mask (pixels whose region or wall/floor side is a rounding matter)."""
    T, amb = render_spots(P, sc, eps)
    mu = P.mu(lat0, lon0)
    c = unit_vec(lat0, lon0)
    for f in sc['facs']:
        r = P.dist(f.lat, f.lon)
        inside = r <= f.rad
        edge = np.abs(r - f.rad) < eps
        amb = (amb & ~(inside & ~edge)) | edge
        n = int(inside.sum())
        if n == 0:
            continue
        fv = unit_vec(f.lat, f.lon)
        ang = 2 * math.asin(min(1.0, float(np.linalg.norm(fv - c)) / 2))
        fr = f.wall_frac(ang)
        idx = np.flatnonzero(inside.ravel())
        order = idx[np.argsort(mu.ravel()[idx], kind='stable')]
        k = fr * n
        lo, hi = max(0, math.floor(k - 1.01)), min(n, math.ceil(k + 1.01))
        if f.small:
            lo = n
        if f.edge:
            lo, hi = 0, n
        Tr = T.ravel().copy()
        cut = int(round(k))
        Tr[order[:cut]] = f.tw()
        Tr[order[cut:]] = f.tf()
        T = Tr.reshape(T.shape)
        am = amb.ravel().copy()
        if lo < hi:
            # also everything with the same mu as the border
            m = mu.ravel()
            blo, bhi = m[order[lo]] - 1e-9, m[order[hi - 1]] + 1e-9
            am[idx[(m[idx] >= blo) & (m[idx] <= bhi)]] = True
        if hi - lo > 0 and len(np.unique(np.round(mu.ravel()[order], 9))) < n:
            pass
        amb = am.reshape(amb.shape)
    return T, amb


def ld_weight(mu, u1, u2):
    m = np.clip(mu, 0, None)
    return np.where(mu > 0, m * (1 - u1 * (1 - m) - u2 * (1 - m)**2), 0.0)


def fractions(P, T, amb, mu, u1, u2, cover=None):
    """{temperature: fraction}, total ambiguous weight."""
    w = P.w * ld_weight(mu, u1, u2)
    tot = w.sum()
    if cover is not None:
        w = w * cover
    out = {}
    for t in np.unique(T):
        out[float(t)] = float(w[T == t].sum() / tot)
    return out, float(w[amb].sum() / tot)


def parse_key(k):
    return float(u.Quantity(k).to_value(u.K)) if isinstance(k, str) else float(k.to_value(u.K))


def compare_fractions(got, want, tol, gap=1.2):
    """got: {key: fraction} from the code; want: {T: fraction}. Temperatures closer than
    `gap` kelvin are added up. Returns None or a message."""
    items = [(parse_key(k), 0, float(v)) for k, v in got.items()] + [(t, 1, float(v)) for t, v in want.items()]
    items.sort()
    clusters, last = [], None
    for t, side, v in items:
        if last is None or t - last > gap:
            clusters.append([t, 0.0, 0.0])
        clusters[-1][1 + side] += v
        last = t
    for t, g, w in clusters:
        if not abs(g - w) <= tol:
            return f'fraction at {t:.2f} K is {g:.8f}, expected {w:.8f} (tolerance {tol:.1e})'
    return None
