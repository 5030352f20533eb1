"""Contracts of the astronomical helper functions (C14-C20)."""
import math, ctypes
from vcg.contract import *

PI = 3.141592653589793; TWOPI = 6.283185307179586; DEG = 0.017453292519943295; RAD = 57.29577951308232

def u(r, lo, hi, *special):
    return r.choice(special) if special and r.random() < 0.15 else r.uniform(lo, hi)

# ---------------------------------------------------------------------------- C16
def sep_spec(m, t1, p1, t2, p2):
    """great-circle distance, radians (haversine of the central angle from the spherical law of cosines)"""
    h1 = m.sin((p2 - p1) / 2); h2 = m.sin((t2 - t1) / 2)
    h = h1 * h1 + m.cos(p1) * m.cos(p2) * h2 * h2
    if not m.sym: h = min(max(h, 0.), 1.)
    return 2 * m.asin(m.sqrt(h))

class Skysep(FC):
    name = 'skysep_h'
    inputs = [('t1', -PI, TWOPI), ('p1', -PI / 2, PI / 2), ('t2', -PI, TWOPI), ('p2', -PI / 2, PI / 2)]
    deftol = (2e-6, 1e-9, None)
    prog_mods = ['skysep_h']; split_fabs = True
    @staticmethod
    def gen(r):
        k = r.random()
        t1 = u(r, -PI, TWOPI, 0., PI, -PI, TWOPI, -1e-9, 1e-12); p1 = u(r, -PI / 2, PI / 2, 0., PI / 2, -PI / 2)
        if k < 0.15: t2, p2 = t1, p1
        elif k < 0.3: t2, p2 = (t1 + PI if t1 < PI else t1 - PI), -p1
        elif k < 0.4: t2, p2 = t1 + r.uniform(-1e-6, 1e-6), p1 + r.uniform(-1e-6, 1e-6)
        elif k < 0.5: t2, p2 = (t1 + TWOPI if t1 < 0 else t1 - TWOPI if t1 > PI else t1), p1 * r.choice((1, -1))
        else: t2, p2 = u(r, -PI, TWOPI, 0., PI, -PI, TWOPI, -1e-9), u(r, -PI / 2, PI / 2, 0., PI / 2)
        t2 = min(max(t2, -PI), TWOPI); p2 = min(max(p2, -PI / 2), PI / 2)
        return dict(t1=t1, p1=p1, t2=t2, p2=p2)
    def setup(s, ex, st, v): return [v.t1, v.p1, v.t2, v.p2]
    def observe(s, ex, st): return dict(result=st.ret)
    ranges = dict(result=(0., 180.))
    def spec(s, m, v): return dict(result=sep_spec(m, v.t1, v.p1, v.t2, v.p2) * RAD)
    def native(s, lib, v): return dict(result=dcall(lib, 'skysep_h', D, D(v.t1), D(v.p1), D(v.t2), D(v.p2)))

C16 = [Skysep()]

# ---------------------------------------------------------------------------- C14
JD2000 = 2451545.
def midnight(m, jd):
    """(julian day number of the preceding 0h UT, fraction of the day since)"""
    i = m.trunc(jd); f = jd - i
    return (i - 0.5, f + 0.5) if m.lt(f, 0.5) else (i + 0.5, f - 0.5)
def gmst82(m, jd):
    """IAU 1982 GMST in seconds, not reduced"""
    jd0, ut = midnight(m, jd)
    t = (jd0 - JD2000) / 36525.
    return 24110.54841 + t * (8640184.812866 + t * (0.093104 - t * 6.2e-6)) + 86400. * 1.00273790934 * ut
def gen_jd(r, lo=2415020.5, hi=2488069.5):
    k = r.random()
    if k < 0.1: return r.choice((lo, hi, JD2000, 2444239.5, 2451544.5, 2451545.5, 2440587.5, 2430000.))
    if k < 0.3: return min(hi, max(lo, math.floor(r.uniform(lo, hi)) + r.choice((0., 0.5, 0.25, 0.75, 0.999, 1e-6))))
    return r.uniform(lo, hi)

class Lmst(FC):
    name = 'lmst_hr'; title = 'lmst_hr'
    inputs = [('jd', 2415020.5, 2488069.5), ('lon', 0., 360.)]
    deftol = (2e-6, 0, 24.); ranges = dict(gmst=(0., 24.), lmst=(0., 24.))
    @staticmethod
    def gen(r): return dict(jd=gen_jd(r), lon=u(r, 0., 359.9999999, 0., 180., 359.99))
    def setup(s, ex, st, v):
        st.extra['g'] = ex.alloc(st, 'gmst', 8); return [v.jd, v.lon, st.extra['g']]
    def observe(s, ex, st): return dict(lmst=st.ret, gmst=ex.load(st, st.extra['g'], ('double',), ex.p.mods[0]))
    def spec(s, m, v):
        g = gmst82(m, v.jd) / 3600.
        return dict(gmst=g, lmst=g + v.lon / 15.)
    def native(s, lib, v):
        g = D(); return dict(lmst=dcall(lib, 'lmst_hr', D, D(v.jd), D(v.lon), ref(g)), gmst=g.value)

class ObserverXYZ(FC):
    """C14 (sidereal time of the observer module) and C15 (the observer's position)"""
    name = 'observer_cartesian_coords'
    inputs = [('jd', 2415020.5, 2488069.5), ('lon', -PI, TWOPI), ('rc', 0., 1.1), ('rs', -1.1, 1.1)]
    deftol = (2e-4, 1e-9, None)
    @staticmethod
    def gen(r): return dict(jd=gen_jd(r), lon=u(r, -PI, TWOPI, 0., PI), rc=u(r, 0., 1.1, 0., 1.), rs=u(r, -1.1, 1.1, 0., 1.))
    def setup(s, ex, st, v):
        st.extra['p'] = ex.alloc(st, 'vect', 24); return [v.jd, v.lon, v.rc, v.rs, st.extra['p']]
    def observe(s, ex, st):
        p = st.extra['p']; return {c: ex.load(st, Ptr(p.obj, 8 * i), ('double',), ex.p.mods[0]) for i, c in enumerate('xyz')}
    def spec(s, m, v):
        ut = v.jd + .5 - m.trunc(v.jd + .5)
        t = (v.jd - ut - JD2000) / 36525.
        th = TWOPI * (24110.54841 + t * (8640184.812866 + t * (0.093104 - t * 6.2e-6)) + 86400. * 1.00273790934 * ut) / 86400. + v.lon
        a = 6378140.
        return dict(x=m.cos(th) * v.rc * a / 1000., y=m.sin(th) * v.rc * a / 1000., z=v.rs * a / 1000.)
    def native(s, lib, v):
        a = (D * 3)(); dcall(lib, 'observer_cartesian_coords', None, D(v.jd), D(v.lon), D(v.rc), D(v.rs), a)
        return dict(x=a[0], y=a[1], z=a[2])

class Ut2gmst(FC):
    """the tool's own sidereal time agrees with the IAU 1982 expression to 0.05 s"""
    name = 'ut2gmst'
    inputs = [('jd', 2415020.5, 2488069.5)]
    deftol = (0.05 / 3600, 0, 24.); phys = dict(gmst=0.05 / 3600); ranges = dict(gmst=(0., 24.))
    @staticmethod
    def gen(r): return dict(jd=gen_jd(r))
    def setup(s, ex, st, v):
        st.extra['g'] = ex.alloc(st, 'gmst', 8); return [v.jd, st.extra['g']]
    def observe(s, ex, st): return dict(gmst=ex.load(st, st.extra['g'], ('double',), ex.p.mods[0]))
    def spec(s, m, v):
        i = m.floor(v.jd); f = v.jd - i
        jd0, ut = (i - 0.5, f + 0.5) if m.lt(f, 0.5) else (i + 0.5, f - 0.5)
        t = (jd0 - JD2000) / 36525.
        return dict(gmst=(24110.54841 + t * (8640184.812866 + t * (0.093104 - t * 6.2e-6)) + 86400. * 1.00273790934 * ut) / 3600.)
    def native(s, lib, v):
        g = D(); dcall(lib, 'ut2gmst', None, D(v.jd), ref(g)); return dict(gmst=g.value)

class ZenithRa(FC):
    """right ascension of the zenith = local sidereal time (degrees)"""
    name = 'zenith_site_ra'
    inputs = [('mjd', 15020., 88069.), ('lon', 0., 360.)]
    deftol = (0.05 / 240, 0, 360.); phys = dict(ra=0.05 / 240); ranges = dict(ra=(0., 360.))
    @staticmethod
    def gen(r): return dict(mjd=gen_jd(r) - 2400000.5, lon=u(r, 0., 359.9999, 0., 180.))
    def setup(s, ex, st, v):
        st.extra['g'] = ex.alloc(st, 'ra', 8); return [v.mjd, v.lon, st.extra['g']]
    def observe(s, ex, st): return dict(ra=ex.load(st, st.extra['g'], ('double',), ex.p.mods[0]), result=st.ret)
    def spec(s, m, v):
        jd = v.mjd + 2400000.5
        i = m.floor(jd); f = jd - i
        jd0, ut = (i - 0.5, f + 0.5) if m.lt(f, 0.5) else (i + 0.5, f - 0.5)
        t = (jd0 - JD2000) / 36525.
        g = (24110.54841 + t * (8640184.812866 + t * (0.093104 - t * 6.2e-6)) + 86400. * 1.00273790934 * ut) / 240.
        return dict(ra=g + v.lon, result=0)
    def native(s, lib, v):
        g = D(); r = dcall(lib, 'zenith_site_ra', ctypes.c_int, D(v.mjd), D(v.lon), ref(g)); return dict(ra=g.value, result=r)

C14 = [Lmst(), ObserverXYZ(), Ut2gmst(), ZenithRa()]

# ---------------------------------------------------------------------------- C15
A_E = 6378140.; B_E = 6356755.
class Parallax(FC):
    """geocentric position of a site in units of the equatorial radius: (N + h) cos(lat), (N (b/a)^2 + h) sin(lat)"""
    name = 'earth_lat_alt_to_parallax'
    inputs = [('lat', -PI / 2, PI / 2), ('h', -500., 10000.)]
    deftol = (1e-9, 0, None)
    @staticmethod
    def gen(r): return dict(lat=u(r, -PI / 2, PI / 2, 0., PI / 2, -PI / 2, 1e-7), h=u(r, -500., 10000., 0.))
    def assume(s, v): return ((fn('cos', v.lat), (1,)),)
    def setup(s, ex, st, v):
        st.extra['c'] = ex.alloc(st, 'rc', 8); st.extra['s'] = ex.alloc(st, 'rs', 8); return [v.lat, v.h, st.extra['c'], st.extra['s']]
    def observe(s, ex, st): return dict(rho_cos_phi=ex.load(st, st.extra['c'], ('double',), ex.p.mods[0]), rho_sin_phi=ex.load(st, st.extra['s'], ('double',), ex.p.mods[0]))
    def spec(s, m, v):
        r = B_E / A_E
        sl, cl = m.sin(v.lat), m.cos(v.lat)
        N = 1 / m.sqrt(cl * cl + (r * sl) * (r * sl))
        return dict(rho_cos_phi=(N + v.h / A_E) * cl, rho_sin_phi=(N * (r * 1.) * r + v.h / A_E) * sl)
    def native(s, lib, v):
        c, q = D(), D(); dcall(lib, s.name, None, D(v.lat), D(v.h), ref(c), ref(q)); return dict(rho_cos_phi=c.value, rho_sin_phi=q.value)

class RaDec(FC):
    name = 'get_satellite_ra_dec_delta'
    inputs = [(c, -1e6, 1e6) for c in ('ox', 'oy', 'oz', 'sx', 'sy', 'sz')]
    deftol = (2e-7, 1e-9, None); tol = dict(ra=(2e-7, 0, TWOPI)); ranges = dict(ra=(0., TWOPI), dec=(-PI / 2, PI / 2), delta=(0., math.inf))
    split_fabs = True
    @staticmethod
    def gen(r):
        p = {}
        for c in ('ox', 'oy', 'oz'): p[c] = u(r, -7000., 7000., 0.)
        for c in ('sx', 'sy', 'sz'): p[c] = u(r, -50000., 50000., 0., p['o' + c[1]])
        if p['sx'] == p['ox'] and p['sy'] == p['oy'] and p['sz'] == p['oz']: p['sx'] += 1.
        return p
    def assume(s, v):
        d = [v.sx - v.ox, v.sy - v.oy, v.sz - v.oz]
        return ((d[0] * d[0] + d[1] * d[1] + d[2] * d[2], (1,)),)
    def setup(s, ex, st, v):
        o = ex.array(st, 'obs', [v.ox, v.oy, v.oz]); q = ex.array(st, 'sat', [v.sx, v.sy, v.sz])
        for c in ('ra', 'dec', 'delta'): st.extra[c] = ex.alloc(st, c, 8)
        st.obj(o.obj).ro = st.obj(q.obj).ro = True
        return [o, q, st.extra['ra'], st.extra['dec'], st.extra['delta']]
    def observe(s, ex, st): return {c: ex.load(st, st.extra[c], ('double',), ex.p.mods[0]) for c in ('ra', 'dec', 'delta')}
    def spec(s, m, v):
        dx, dy, dz = v.sx - v.ox, v.sy - v.oy, v.sz - v.oz
        d = m.sqrt(dx * dx + dy * dy + dz * dz)
        ra = m.atan2(dy, dx)
        return dict(ra=ra + TWOPI if m.lt(ra, 0) else ra, dec=m.asin(dz / d), delta=d)
    def native(s, lib, v):
        o = (D * 3)(v.ox, v.oy, v.oz); q = (D * 3)(v.sx, v.sy, v.sz); a, b, c = D(), D(), D()
        dcall(lib, s.name, None, o, q, ref(a), ref(b), ref(c))
        return dict(ra=a.value, dec=b.value, delta=c.value)

class Precess(FC):
    name = 'epoch_of_date_to_j2000'
    inputs = [('jd', 2415020.5, 2488069.5), ('ra0', 0., TWOPI), ('dec0', -PI / 2, PI / 2)]
    deftol = (2e-7, 1e-9, None); tol = dict(ra=(2e-6, 1e-9, TWOPI)); ranges = dict(ra=(0., TWOPI), dec=(-PI / 2, PI / 2))
    @staticmethod
    def gen(r):
        d = u(r, -PI / 2, PI / 2, 0., 1.5, -1.5, 1.5707, -1.5707)
        if abs(d) > 1.5707: d = math.copysign(1.5707, d)
        return dict(jd=gen_jd(r), ra0=u(r, 0., 6.283185, 0., 1e-9, PI), dec0=d)
    def setup(s, ex, st, v):
        st.extra['ra'] = ex.array(st, 'ra', [v.ra0]); st.extra['dec'] = ex.array(st, 'dec', [v.dec0]); return [v.jd, st.extra['ra'], st.extra['dec']]
    def observe(s, ex, st): return {c: ex.load(st, st.extra[c], ('double',), ex.p.mods[0]) for c in ('ra', 'dec')}
    def spec(s, m, v):
        t = (v.jd - JD2000) / 36525.
        # annual rates of Meeus ch. 21 at the middle of the interval: seconds of time to radians
        M = (3.07496 + .00186 * t / 2.) * DEG / 240.; N = (1.33621 - .00057 * t / 2.) * DEG / 240.
        ra = v.ra0 - t * 100. * (M + N * m.sin(v.ra0) * m.tan(v.dec0)); dec = v.dec0 - t * 100. * (N * m.cos(v.ra0))
        if m.gt(dec, PI / 2): dec = PI - dec; ra = ra + PI
        elif m.lt(dec, -PI / 2): dec = -PI - dec; ra = ra + PI
        return dict(ra=ra, dec=dec)
    def native(s, lib, v):
        a, b = D(v.ra0), D(v.dec0); dcall(lib, s.name, None, D(v.jd), ref(a), ref(b)); return dict(ra=a.value, dec=b.value)

C15 = [Parallax(), ObserverXYZ(), RaDec(), Precess()]

# ---------------------------------------------------------------------------- C17
class Horizontal(FC):
    name = 'dechalat2alt'
    inputs = [('dec', -PI / 2, PI / 2), ('ha', -24., 24.), ('lat', -90., 90.)]
    deftol = (1e-4, 0, None); tol = dict(az=(1e-4, 0, 360.), q=(1e-4, 0, 360.)); ranges = dict(alt=(-90., 90.), az=(0., 360.), q=(-180., 180.))
    @staticmethod
    def gen(r):
        lat = u(r, -90., 90., 0., 90., -90., 89.99999, -89.99999, 89.9999999)
        dec = u(r, -1.57, 1.57, 0., lat * DEG, -lat * DEG)
        dec = min(max(dec, -1.5707), 1.5707)
        return dict(dec=dec, ha=u(r, -23.999, 23.999, 0., 6., -6., 12., -12., 1e-5, -1e-5), lat=lat)
    def assume(s, v): return ((fn('cos', v.dec), (1,)),)
    def setup(s, ex, st, v):
        for c in ('alt', 'az', 'q'): st.extra[c] = ex.alloc(st, c, 8)
        return [v.dec, v.ha, v.lat, st.extra['alt'], st.extra['az'], st.extra['q']]
    def observe(s, ex, st): return {c: ex.load(st, st.extra[c], ('double',), ex.p.mods[0]) for c in ('alt', 'az', 'q')}
    def spec(s, m, v):
        lat = v.lat * DEG; sd, cd = m.sin(v.dec), m.cos(v.dec)
        if m.eq(v.ha, 0):
            south = m.lt(v.dec, lat)
            zen = m.lt(m.fabs(v.dec - lat), 1e-6)
            return dict(az=180. if south else 0., q=0. if south else 180., alt=90. if zen else RAD * m.asin(s.clip(m, cd * m.cos(lat) + sd * m.sin(lat))))
        H = v.ha * 15 * DEG; sl, cl = m.sin(lat), m.cos(lat)
        if m.lt(cl, 1e-6): cl = 0 * v.lat; sl = -1. if m.lt(lat, 0) else 1.
        az = m.atan2(-cd * m.sin(H), sd * cl - cd * m.cos(H) * sl)
        y, x = m.sin(H) * cl, sl * cd - cl * sd * m.cos(H)
        out = dict(az=az * RAD, q=m.atan2(y, x) * RAD, alt=RAD * m.asin(s.clip(m, sd * sl + cd * cl * m.cos(H))))
        if m.eq(m.sin(H), 0) and m.gt(m.cos(H), 0) and m.lt(m.fabs(v.dec - lat), 1e-6): out['alt'] = 90.
        if not m.sym:
            # azimuth and parallactic angle are undetermined at the zenith, the nadir and (numerically) next to them
            if math.hypot(y, x) < 1e-7: del out['q']
            if math.hypot(cd * m.sin(H), sd * cl - cd * m.cos(H) * sl) < 1e-7: del out['az']
        return out
    def clip(s, m, x): return x if m.sym else min(1., max(-1., x))
    def native(s, lib, v):
        a, b, c = D(), D(), D(); dcall(lib, s.name, None, D(v.dec), D(v.ha), D(v.lat), ref(a), ref(b), ref(c))
        return dict(alt=a.value, az=b.value, q=c.value)
C17 = [Horizontal()]

# ---------------------------------------------------------------------------- C18
class Sun(FC):
    name = 'lpsun_radec'
    inputs = [('jd', 2305447.5, 2634166.5)]
    deftol = (2e-7, 0, None); tol = dict(ra=(2e-7, 0, TWOPI)); ranges = dict(ra=(0., TWOPI), dec=(-PI / 2, PI / 2))
    @staticmethod
    def gen(r): return dict(jd=r.choice((gen_jd(r), r.uniform(2305447.5, 2634166.5))))
    def setup(s, ex, st, v):
        for c in ('ra', 'dec'): st.extra[c] = ex.alloc(st, c, 8)
        return [v.jd, st.extra['ra'], st.extra['dec']]
    def observe(s, ex, st):
        o = {c: ex.load(st, st.extra[c], ('double',), ex.p.mods[0]) for c in ('ra', 'dec')}
        o['cos ra'] = fn('cos', o['ra']); o['sin ra'] = fn('sin', o['ra']); return o
    def spec(s, m, v):
        n = v.jd - JD2000
        g = (357.528 + 0.9856003 * n) * DEG
        l = (280.460 + 0.9856474 * n + 1.915 * m.sin(g) + 0.020 * m.sin(2. * g)) * DEG
        e = (23.439 - 0.0000004 * n) * DEG
        x, y = m.cos(l), m.cos(e) * m.sin(l)
        d = dict(dec=m.asin(m.sin(e) * m.sin(l)))
        if m.sym:
            rho = m.sqrt(x * x + y * y); d['cos ra'] = x / rho; d['sin ra'] = y / rho
        else: d['ra'] = m.atan2(y, x)
        return d
    def native(s, lib, v):
        a, b = D(), D(); dcall(lib, s.name, None, D(v.jd), ref(a), ref(b)); return dict(ra=a.value, dec=b.value)

class AtanCirc(FC):
    name = 'atan_circ'
    inputs = [('x', -1e6, 1e6), ('y', -1e6, 1e6)]
    deftol = (1e-9, 0, None); tol = dict(angle=(1e-9, 0, TWOPI)); ranges = dict(angle=(0., TWOPI))
    prog_mods = ['lpsun_radec']
    @staticmethod
    def gen(r): return dict(x=u(r, -10., 10., 0., 1.), y=u(r, -10., 10., 0., 1., -1.))
    def setup(s, ex, st, v): return [v.x, v.y]
    def observe(s, ex, st): return {'angle': st.ret, 'x': fn('cos', st.ret), 'y': fn('sin', st.ret)}
    def spec(s, m, v):
        if m.eq(v.x, 0) and m.eq(v.y, 0): return dict(angle=0)
        if not m.sym: return dict(angle=m.atan2(v.y, v.x))
        rho = m.sqrt(v.x * v.x + v.y * v.y); return dict(x=v.x / rho, y=v.y / rho)
    def native(s, lib, v): return dict(angle=dcall(lib, s.name, D, D(v.x), D(v.y)))

def tool_lib(tool):
    main = '#define main %s_main\n#include "%s.c"\n' % (tool, tool)
    if tool == 'sat_visibility':
        main += 'double *vp_geo(int i){ return i==0?&geo.lat:i==1?&geo.lon:i==2?&geo.alt:&geo.theta; }\nvoid vp_gmst(double g){ p.gmst=g; }\n'
    else:
        main += 'void vp_geoloc(double g, double *pos, double *o){ Geoloc q; sat_geoLocation(g,pos,&q); o[0]=q.lat;o[1]=q.lon;o[2]=q.alt;o[3]=q.theta; }\n'
    return main

ERAD = 6378.1366
class Sunlit(FC):
    """the decision, as the geometric fact: the ray satellite -> Sun meets the sphere of radius ERAD"""
    inputs = [(c, -5e4, 5e4) for c in 'xyz'] + [(c, -1.6e8, 1.6e8) for c in ('sx', 'sy', 'sz')]
    name = 'intersect_satsun_sphere'; prog_mods = None; deftol = (0, 0, None)
    def __init__(s, tool): s.tool = tool; s.title = 'intersect_satsun_sphere (%s)' % tool; s.lib_name = tool; s.lib_extra = tool_lib(tool)
    def program(s): return build.program(build.allsrc() + [s.tool], True)
    @staticmethod
    def gen(r):
        def vec(n):
            while True:
                q = [r.gauss(0, 1) for _ in range(3)]; l = math.sqrt(sum(c * c for c in q))
                if l > 1e-3: return [c * n / l for c in q]
        sun = vec(r.uniform(1.45e8, 1.55e8))
        k = r.random(); R = r.choice((r.uniform(6400., 8000.), r.uniform(6400., 50000.)))
        p = vec(R)
        if k < 0.35:    # next to the edge of the shadow cylinder, before or behind the Earth
            l = math.sqrt(sum(c * c for c in sun)); e = [c / l for c in sun]
            q = vec(1.); d = sum(a * b for a, b in zip(q, e)); q = [a - d * b for a, b in zip(q, e)]; l = math.sqrt(sum(c * c for c in q)) or 1.
            rho = ERAD + r.choice((-1, 1)) * r.choice((1., 30., 300.)); a = r.choice((-1, -1, 1)) * math.sqrt(max(0., R * R - rho * rho))
            p = [rho * c / l + a * b for c, b in zip(q, e)]
        elif k < 0.45: p = [c * R / math.sqrt(sum(b * b for b in sun)) * r.choice((1, -1)) for c in sun]
        return dict(x=p[0], y=p[1], z=p[2], sx=sun[0], sy=sun[1], sz=sun[2])
    def filter(s, v):
        # decisions within rounding of the boundary are not compared
        d = [v.sx - v.x, v.sy - v.y, v.sz - v.z]; l = math.sqrt(sum(c * c for c in d)); d = [c / l for c in d]
        b = -(d[0] * v.x + d[1] * v.y + d[2] * v.z); c = v.x**2 + v.y**2 + v.z**2 - ERAD**2
        return abs(b * b - c) > 1e-3 and c > 1.
    def setup(s, ex, st, v):
        a = ex.array(st, 'satpos', [v.x, v.y, v.z]); b = ex.array(st, 'sunpos', [v.sx, v.sy, v.sz]); st.obj(a.obj).ro = st.obj(b.obj).ro = True
        return [a, b, ex.alloc(st, 'eray', 16)]
    def observe(s, ex, st): return dict(meets=st.ret)
    def spec(s, m, v):
        """points sat + k*dir, k >= 0 with |.|^2 = R^2: k^2 - 2 b k + c = 0, b = -sat.dir, c = |sat|^2 - R^2"""
        e = [v.sx - v.x, v.sy - v.y, v.sz - v.z]; l = m.sqrt(e[0] * e[0] + e[1] * e[1] + e[2] * e[2])
        b2 = 2 * ((e[0] * -v.x + e[1] * -v.y + e[2] * -v.z) / l)
        c = v.x * v.x + v.y * v.y + v.z * v.z - ERAD * ERAD
        q = b2 * b2 - 4 * c
        if m.lt(q, 0): return dict(meets=0)
        return dict(meets=0 if m.lt((b2 + m.sqrt(q)) / 2, 0) else 1)      # the farther root is not behind the satellite
    def native(s, lib, v):
        a = (D * 3)(v.x, v.y, v.z); b = (D * 3)(v.sx, v.sy, v.sz); e = (D * 2)()
        return dict(meets=1 if dcall(lib, s.name, ctypes.c_int, a, b, e) else 0)

C18 = [Sun(), AtanCirc(), Sunlit('sat_skymap'), Sunlit('sat_visibility')]

# ---------------------------------------------------------------------------- C19
FLAT = 3.352819697896193e-3          # 1/298.25642, WGS/IERS
class SubPoint(LoopFC):
    inputs = [(c, -1e6, 1e6) for c in 'xyz'] + [('gmst', 0., 24.)]
    name = 'sat_geoLocation'; hang_is_violation = True
    deftol = (1e-6, 1e-10, None); ranges = dict(lat=(-90., 90.), lon=(-180., 180.))
    tol = dict(lon=(1e-7, 0, 360.), theta=(1e-7, 0, 360.), alt=(1e-3, 1e-9, None))
    def __init__(s, tool): s.tool = tool; s.title = 'sat_geoLocation (%s)' % tool; s.lib_name = tool; s.lib_extra = tool_lib(tool)
    def program(s): return build.program(build.allsrc() + [s.tool], False)
    def prepare(s):
        s.library(); s.program()
        if s.tool == 'sat_skymap': s.offs = build.struct_offsets('#define main x_main\n#include "sat_skymap.c"\n#undef main\n', 'Geoloc', ['lat', 'lon', 'alt', 'theta'], 'geo1', var=None)
        else:
            s.offs = build.struct_offsets('#define main x_main\n#include "sat_visibility.c"\n', 'geo', ['lat', 'lon', 'alt', 'theta'], 'geo2', var=True)
            s.poff = build.struct_offsets('#define main x_main\n#include "sat_visibility.c"\n', 'p', ['gmst'], 'par2', var=True)
    @staticmethod
    def gen(r):
        k = r.random(); R = r.choice((r.uniform(6400., 9000.), r.uniform(6400., 400000.)))
        q = [r.gauss(0, 1) for _ in range(3)]
        if k < 0.12: q[0] = q[1] = 0.
        elif k < 0.2: q[2] = 0.
        elif k < 0.3: q[r.randrange(2)] = 0.
        elif k < 0.4: q[0] *= 1e-7; q[1] *= 1e-7
        l = math.sqrt(sum(c * c for c in q)) or 1.
        if l == 1.: q = [0., 0., 1.]
        return dict(x=q[0] * R / l, y=q[1] * R / l, z=q[2] * R / l, gmst=u(r, 0., 24., 0., 24., 12.))
    def setup(s, ex, st, v):
        pos = ex.array(st, 'pos', [v.x, v.y, v.z]); st.obj(pos.obj).ro = True
        if s.tool == 'sat_skymap':
            st.extra['geo'] = ex.alloc(st, 'geo', s.offs['']); return [v.gmst, pos, st.extra['geo']]
        m = ex.p.mods[-1]
        st.extra['geo'] = ex.glob(st, m, 'geo'); pp = ex.glob(st, m, 'p')
        ex.store(st, Ptr(pp.obj, s.poff['gmst']), v.gmst, 8)
        return [pos]
    def observe(s, ex, st):
        g = st.extra['geo']; return {c: ex.load(st, Ptr(g.obj, g.off + s.offs[c]), ('double',), ex.p.mods[0]) for c in ('lat', 'lon', 'alt', 'theta')}
    def start(s, m, v): return ('cont', (m.atan2(v.z, m.sqrt(v.x * v.x + v.y * v.y)),))
    def step(s, m, v, st):
        """phi -> latitude of the normal through (r, z + N e2 sin phi); stop when it moves less than 1e-10"""
        phi, = st; r = m.sqrt(v.x * v.x + v.y * v.y); e2 = FLAT * (2. - FLAT)
        sp = m.sin(phi); c = 1. / m.sqrt(1. - e2 * sp * sp)
        lat = m.atan2(v.z + ERAD * c * e2 * sp, r)
        if m.ge(m.fabs(lat - phi), 1e-10): return ('cont', (lat,))
        th = m.atan2(v.y, v.x) * RAD
        lon = th - v.gmst * 15.
        if m.gt(lon, 180): lon = lon - 360.
        elif m.lt(lon, -180.): lon = lon + 360.
        sl = m.sin(lat)
        return ('exit', dict(theta=th, lon=lon, lat=lat * RAD, alt=r * m.cos(lat) + v.z * sl - ERAD * m.sqrt(1. - e2 * sl * sl)))
    def native(s, lib, v):
        pos = (D * 3)(v.x, v.y, v.z)
        if s.tool == 'sat_skymap':
            o = (D * 4)(); dcall(lib, 'vp_geoloc', None, D(v.gmst), pos, o); return dict(lat=o[0], lon=o[1], alt=o[2], theta=o[3])
        dcall(lib, 'vp_gmst', None, D(v.gmst)); dcall(lib, 'sat_geoLocation', None, pos)
        f = lib.vp_geo; f.restype = ctypes.POINTER(D)
        return {c: f(i)[0] for i, c in enumerate(('lat', 'lon', 'alt', 'theta'))}
    def extra(s, rep):
        # the map phi -> lat is a contraction outside the Earth (so the loop ends): |d lat/d phi| <= a e2 r / (.. D^2), D >= |p| - a e2
        import z3
        t0 = time.time()
        r, D_, R, k = z3.Reals('r D R k'); sv = z3.Solver(); e2 = FLAT * (2 - FLAT)
        sv.add(R >= 6356, D_ >= R - ERAD * e2 / (1 - e2), r <= D_, r >= 0, k * D_ * D_ * z3.RealVal(repr((1 - e2)**1.5)) == z3.RealVal(repr(ERAD * e2)) * r, k > z3.RealVal('0.01'))
        res = sv.check(); rep.t('z3', time.time() - t0)
        rep.add(s.name + '/termination: contraction factor <= 0.01', 'ok' if res == z3.unsat else 'undecided', 'z3')

C19 = [SubPoint('sat_skymap'), SubPoint('sat_visibility')]

# ---------------------------------------------------------------------------- C20
from specs.nut80 import NUT80, check_table
def fundamental(m, t):
    """mean anomalies of Moon and Sun, F, D, node of the Moon (radians), IAU 1980 (Seidelmann 1982)"""
    return (2.3555483935439407 + t * (8328.691422883896 + t * (1.517951635553957e-4 + 3.1028075591010306e-7 * t)),
            6.240035939326023 + t * (628.3019560241842 + t * (-2.7973749400020225e-6 - 5.817764173314431e-8 * t)),
            1.6279019339719611 + t * (8433.466158318453 + t * (-6.427174970469119e-5 + 5.332950492204896e-8 * t)),
            5.198469513579922 + t * (7771.377146170642 + t * (-3.340851076525812e-5 + 9.211459941081184e-8 * t)),
            2.1824386243609943 + t * (-33.75704593375351 + t * (3.614285992671591e-5 + 3.878509448876288e-8 * t)))
def nutation(m, t):
    """arcseconds"""
    a = fundamental(m, t); dp = de = 0
    for r in NUT80:
        x = 0
        for k, q in zip(r[:5], a):
            if k: x = x + k * q
        dp = dp + (r[5] + t * r[6]) * m.sin(x)
        if r[7] or r[8]: de = de + (r[7] + t * r[8]) * m.cos(x)
    return dp / 10000., de / 10000.
def tilt(m, jd):
    t = (jd - JD2000) / 36525.
    dp, de = nutation(m, t)
    mo = 84381.4480 - 46.8150 * t - 0.00059 * (t * t) + 0.001813 * (t * t * t)
    to = mo + de
    return dict(mobl=mo / 3600., tobl=to / 3600., eq=dp / 15. * m.cos(to * 4.848136811095359936e-6), dpsi=dp, deps=de)

class Nutation(FC):
    name = 'calcnutation'; inputs = [('t', -1., 1.)]; deftol = (1e-7, 0, None)
    npts = 40; nrand = 1500
    @staticmethod
    def gen(r): return dict(t=(gen_jd(r) - JD2000) / 36525.)
    def setup(s, ex, st, v):
        for c in ('dpsi', 'deps'): st.extra[c] = ex.alloc(st, c, 8)
        return [v.t, st.extra['dpsi'], st.extra['deps']]
    def observe(s, ex, st): return {c: ex.load(st, st.extra[c], ('double',), ex.p.mods[0]) for c in ('dpsi', 'deps')}
    def spec(s, m, v):
        a, b = nutation(m, v.t); return dict(dpsi=a, deps=b)
    def native(s, lib, v):
        a, b = D(), D(); dcall(lib, s.name, None, D(v.t), ref(a), ref(b)); return dict(dpsi=a.value, deps=b.value)
    def extra(s, rep):
        rep.add('calcnutation/series table reproduces the published test value', 'ok' if check_table() else 'failed', 'constants')
        # the arguments in the published form (arcseconds and revolutions)
        m = NumM(); bad = 0
        for k in range(200):
            t = -1 + k / 100.; AS = mp.pi / 648000; x = mp.mpf(t)
            pub = [((c0 + (c1 + (c2 + c3 * x) * x) * x) + rev * 1296000 * x) * AS for c0, c1, c2, c3, rev in
                   ((mp.mpf('485866.733'), mp.mpf('715922.633'), mp.mpf('31.310'), mp.mpf('0.064'), 1325), (mp.mpf('1287099.804'), mp.mpf('1292581.224'), mp.mpf('-0.577'), mp.mpf('-0.012'), 99),
                    (mp.mpf('335778.877'), mp.mpf('295263.137'), mp.mpf('-13.257'), mp.mpf('0.011'), 1342), (mp.mpf('1072261.307'), mp.mpf('1105601.328'), mp.mpf('-6.891'), mp.mpf('0.019'), 1236),
                    (mp.mpf('450160.280'), mp.mpf('-482890.539'), mp.mpf('7.455'), mp.mpf('0.008'), -5))]
            bad += any(abs(a - b) > 1e-9 for a, b in zip(pub, fundamental(m, t)))
        rep.add('calcnutation/fundamental arguments', 'ok' if not bad else 'failed', 'numeric-identity')

class Tilt(FC):
    """earthtilt and its one-entry cache.  Two calls, at jd0 and jd: the second one answers for jd unless jd is within 0.01 d
    of the date held; by induction on the calls the internal state is always that of a single call (checked cell by cell)"""
    name = 'earthtilt'; inputs = [('jd0', 2415020.5, 2488069.5), ('jd', 2415020.5, 2488069.5)]
    outs = ('mobl', 'tobl', 'eq', 'dpsi', 'deps')
    deftol = (1e-7, 0, None); npts = 30; nrand = 800
    @staticmethod
    def gen(r):
        a = gen_jd(r); b = a + r.choice((0., 0.005, -0.005, 0.0099, 0.02, -0.02, 1.)) if r.random() < 0.5 else gen_jd(r)
        return dict(jd0=a, jd=min(2488069.5, max(2415020.5, b)))
    def call(s, ex, st, jd):
        for c in s.outs: st.extra[c] = ex.alloc(st, c, 8)
        f = ex.p.fns[s.name]; ex.call(st, f, [jd] + [st.extra[c] for c in s.outs]); return ex.resume([st])
    def observe(s, ex, st): return {c: ex.load(st, st.extra[c], ('double',), ex.p.mods[0]) for c in s.outs}
    def verify(s, rep, seed=1):
        t0 = time.time(); prog = s.program(); iv = Iv({n: (a, b) for n, a, b in s.inputs}); ex = Exec(prog, {}, iv, max_visits=400)
        dom = Domain(s.gen, seed, s.npts); a, b = var('jd0'), var('jd'); n = 0
        def statics(st): return {(o, off): c[1] for o, ob in st.mem.items() if o.startswith('glob:') and not ob.ro for off, c in ob.cells.items()}
        def state_of(jd):
            out = {}
            for f in s.call(ex, ex.new_state(), jd):
                if s.bad_path(rep, f, dom): continue
                out[f.signs.log] = f
            return out
        A = state_of(a); B = state_of(b)
        if len(A) != 1 or len(B) != 1: rep.add('earthtilt/first call', 'undecided', 'paths', '%d paths' % len(A))
        for f in A.values():
            n += s.compare_path(rep, ex, f, lambda m: tilt(m, a), dom, iv)
            sA = statics(f); sB = statics(next(iter(B.values())))
            g0 = f.clone(); g0.frames = []; g0.ret = None
            for g in s.call(ex, g0, b):
                if s.bad_path(rep, g, dom): continue
                near = not SymM(g.signs).gt(fn('fabs', b - a), 1e-2) if any(lin(t)[1] and 'jd' in variables(t) for t, _ in g.signs.log) else None
                if near is None: rep.add('earthtilt/second call', 'undecided', 'paths', 'no decision on the date'); continue
                n += s.compare_path(rep, ex, g, lambda m: tilt(m, a if near else b), dom, iv)
                want = sA if near else sB
                got = statics(g)
                for k, x in got.items():
                    if isinstance(x, T) or k in want: equal(rep, 'earthtilt/internal state after the call', x, want.get(k), g.signs.log, dom)
        rep.paths += len(A); rep.functions[s.name] = dict(paths=ex.total_steps and len(A) + 2, instructions=ex.total_steps); rep.inlined |= ex.inlined
        rep.t('vcgen', time.time() - t0); rep.covers.append((s.name, n))
    def spec(s, m, v):
        return tilt(m, v.jd0 if abs(v.jd - v.jd0) <= 1e-2 else v.jd)
    def filter(s, v): return abs(abs(v.jd - v.jd0) - 0.01) > 1e-6
    def native(s, lib, v):
        o = [D() for _ in s.outs]
        for far in (1e3, v.jd0, v.jd): dcall(lib, s.name, None, D(far), *[ref(x) for x in o])
        return {c: x.value for c, x in zip(s.outs, o)}

class Gast(FC):
    """ut2gast: GMST plus the equation of the equinoxes; earthtilt by its contract"""
    name = 'ut2gast'; inputs = [('jd', 2415020.5, 2488069.5)]; deftol = (1e-6, 0, 24.); npts = 30; nrand = 500
    @staticmethod
    def gen(r): return dict(jd=gen_jd(r))
    def setup(s, ex, st, v):
        st.extra['g'] = ex.alloc(st, 'gast', 8); st.extra['m'] = ex.alloc(st, 'gmst', 8)
        fs = ex.run(st, 'ut2gmst', [v.jd, st.extra['m']]); s.first = fs
        return None
    def verify(s, rep, seed=1):
        t0 = time.time(); prog = s.program(); iv = Iv({n: (a, b) for n, a, b in s.inputs}); dom = Domain(s.gen, seed, s.npts)
        jd = var('jd'); n = 0
        def tilt_contract(ex, st, args, ins):
            o = ('mobl', 'tobl', 'eq', 'dpsi', 'deps')
            for k, c in enumerate(o): ex.store(st, args[1 + k], fn('tilt.' + c, args[0]), 8)
            return None
        ex = Exec(prog, {'earthtilt': tilt_contract}, iv)
        st = ex.new_state(); pm = ex.alloc(st, 'gmst', 8); pg = ex.alloc(st, 'gast', 8)
        for f in ex.run(st, 'ut2gmst', [jd, pm]):
            if s.bad_path(rep, f, dom): continue
            f.halt = None; ex.call(f, prog.fns['ut2gast'], [jd, pg])
            for g in ex.resume([f]):
                if s.bad_path(rep, g, dom): continue
                d = ('double',); n += 1
                a, b = congr(ex.load(g, pg, d, prog.mods[0]), ex.load(g, pm, d, prog.mods[0]) + fn('tilt.eq', jd) / 3600., 24.)
                equal(rep, 'ut2gast/gast', a, b, g.signs.log, dom, 1e-9, 1e-9, 24.)
        rep.contracts.add('earthtilt'); rep.functions[s.name] = dict(paths=n, instructions=ex.total_steps); rep.t('vcgen', time.time() - t0); rep.covers.append((s.name, n))
    def spec(s, m, v): return None if m.sym else dict(gast=s.gm(v.jd) + tilt(m, v.jd)['eq'] / 3600.)
    def compare(s, lib, p):
        g = D(); dcall(lib, 'ut2gmst', None, D(p['jd']), ref(g)); s.gm = lambda jd: g.value
        return FC.compare(s, lib, p)
    def native(s, lib, v):
        g = D(); o = [D() for _ in range(5)]
        dcall(lib, 'earthtilt', None, D(1e3), *[ref(x) for x in o])
        dcall(lib, 'ut2gast', None, D(v.jd), ref(g)); return dict(gast=g.value)

C20 = [Nutation(), Tilt(), Gast()]
