"""Reference of the two programs, written from their documentation: which satellites a request selects and the numbers that
belong to them.  Astronomy from the contracts of specs/astro.py; element parsing, propagation and HEALPix through the library
(their own contracts: C01-C13).  Used by the falsifier of specs/tools.py."""
import ctypes, math, os, re
from vcg import build
from vcg.spec import NumM
from vcg.contract import NS
from specs import astro
D = ctypes.c_double; PI = astro.PI; DEG = astro.DEG; RAD = astro.RAD; TWOPI = astro.TWOPI
M = NumM()
libc = ctypes.CDLL(None); libc.atof.restype = D; libc.strtol.restype = ctypes.c_long
def scan(s, n):
    v = [D() for _ in range(n)]; k = libc.sscanf(s, b','.join([b'%lf'] * n), *[ctypes.byref(x) for x in v]); return [x.value for x in v[:max(0, k)]]
OFF = {}; _lib = None
EXTRA = '#define main tr_main\n#include "sat_skymap.c"\n'
def setup():
    global _lib
    if not OFF: OFF.update(build.struct_offsets('#include "norad.h"\n', 'tle_t', ['norad_number', 'intl_desig', 'epoch'], 'toolref'))
    if _lib is None:
        srcs = ['%s/%s.c' % (build.SRC, n) for n in build.allsrc()] + [build.HPX + '/chealpix.c']; so = build.tmp() + '/toolref.so'
        if not os.path.exists(so): build.run(['gcc', '-shared', '-fPIC', '-w', '-O2', '-I' + build.HPX, '-I' + build.SRC] + srcs + ['-o', so, '-lm'])
        _lib = ctypes.CDLL(so); _lib.mjd2date.restype = ctypes.c_char_p
    return _lib
def exe(tool, kind):
    """the program built from the current sources: 'plain', 'asan' (address and undefined behaviour), 'msan' (uninitialised values)"""
    e = '%s/%s_%s' % (build.tmp(), tool, kind)
    if not os.path.exists(e):
        fl = {'plain': ['gcc', '-O2'], 'asan': ['gcc', '-g', '-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=float-divide-by-zero'], 'msan': [build.CLANG, '-g', '-O1', '-fsanitize=memory']}[kind]
        build.run(fl + ['-w', '-I' + build.HPX, '-I' + build.SRC] + ['%s/%s.c' % (build.SRC, n) for n in build.allsrc() + [tool]] + [build.HPX + '/chealpix.c', '-o', e + '.tmp', '-lm'])
        os.rename(e + '.tmp', e)
    return e
# ------------------------------------------------------------------ astronomy
def sep(a, b, c, d): return astro.sep_spec(M, a, b, c, d) * RAD
def sidereal(jd, lon):
    g = (astro.gmst82(M, jd) / 3600.) % 24.; return g, (g + lon / 15.) % 24.
_hor = astro.Horizontal(); _sun = astro.Sun(); _xyz = astro.ObserverXYZ(); _par = astro.Parallax(); _rd = astro.RaDec(); _pre = astro.Precess(); _geo = astro.SubPoint('sat_skymap'); _lit = astro.Sunlit('sat_skymap')
def horizon(dec, ha, lat): return _hor.spec(M, NS(dict(dec=dec, ha=ha, lat=lat)))
def sunpos(jd): d = _sun.spec(M, NS(dict(jd=jd))); return d['ra'] % TWOPI, d['dec']
def observer(jd, lon, rc, rs): d = _xyz.spec(M, NS(dict(jd=jd, lon=lon, rc=rc, rs=rs))); return [d['x'], d['y'], d['z']]
def parallax(lat, h): d = _par.spec(M, NS(dict(lat=lat, h=h))); return d['rho_cos_phi'], d['rho_sin_phi']
def radec(o, p): d = _rd.spec(M, NS(dict(ox=o[0], oy=o[1], oz=o[2], sx=p[0], sy=p[1], sz=p[2]))); return d['ra'], d['dec'], d['delta']
def precess(jd, ra, dec): d = _pre.spec(M, NS(dict(jd=jd, ra0=ra, dec0=dec))); return d['ra'] % TWOPI, d['dec']
def geoloc(gmst, p):
    v = NS(dict(x=p[0], y=p[1], z=p[2], gmst=gmst)); st = _geo.start(M, v)
    for _ in range(60):
        st = _geo.step(M, v, st[1])
        if st[0] == 'exit': return st[1]
    return dict(lat=math.nan, lon=math.nan, alt=math.nan, theta=math.nan)
def sunlit(p, sra, sdec):
    """(lit, undecided)"""
    r = 149597870.700; s = [math.cos(sra) * math.cos(sdec) * r, math.sin(sra) * math.cos(sdec) * r, math.sin(sdec) * r]
    d = [s[i] - p[i] for i in range(3)]; l = math.sqrt(sum(c * c for c in d)); b = -sum(d[i] / l * p[i] for i in range(3)); c = sum(x * x for x in p) - astro.ERAD ** 2
    disc = b * b - c
    if disc < 0: return True, disc > -1.
    e = b + math.sqrt(disc); return e < 0, disc < 1. or abs(e) < 1e-3
def sundata(jd, gmst, lmst, lat, tra, tdec):
    ra, dec = sunpos(jd); lon = (ra * RAD - gmst * 15.) % 360.
    h = horizon(dec, lmst - ra * RAD / 15., lat)
    return dict(ra=ra * RAD, dec=dec * RAD, lon=lon - 360. if lon > 180. else lon, az=h.get('az'), alt=h['alt'], parang=h.get('q'), separation_deg=sep(tra, tdec, ra, dec))
class Sat:
    """one element set"""
    def __init__(s, L, t):
        s.L = L; s.tle = t; s.deep = L.select_ephemeris(t); s.par = (D * 300)(); s.pos = (D * 3)(); s.epoch = D.from_buffer(t, OFF['epoch']).value
        (L.SDP4_init if s.deep else L.SGP4_init)(s.par, t)
    def at(s, jd, fresh=False):
        if fresh: (s.L.SDP4_init if s.deep else s.L.SGP4_init)(s.par, s.tle)
        rc = (s.L.SDP4 if s.deep else s.L.SGP4)(D((jd - s.epoch) * 1440.), s.tle, s.par, s.pos, None); return rc, list(s.pos)
def shaky(L, t, jd, dt, st, pos):
    """the model is ill-conditioned here (a nearly decayed orbit): a few tenths of a millisecond move the satellite by more than they can"""
    h = 4e-9; a = Sat(L, t); s1, p1 = a.at(jd + h); s2, p2 = a.at(jd + h + dt / 86400.); b = Sat(L, t); b.at(jd); s3, p3 = b.at(jd + dt / 86400.)
    def far(x, y):
        d = math.dist(x, y); return not d < .02 or math.hypot(*x) < 5500.
    return s1 != st or s2 != s3 or (warn(st) and far(p1, pos)) or (warn(s3) and far(p2, p3))
def tle_buf(): return ctypes.create_string_buffer(OFF[''] + 16)
def cstr(b): return b.split(b'\0')[0]
def lines(data, n):
    """fgets with a buffer of n bytes, as C strings"""
    i = 0
    while i < len(data):
        j = data.find(b'\n', i, i + n - 1); j = min(i + n - 1, len(data)) if j < 0 else j + 1
        yield cstr(data[i:j]); i = j
SPACE = b' \t\n\v\f\r'
def read(path):
    try:
        if os.path.isdir(path): return b''
        return open(path, 'rb').read()
    except (OSError, ValueError): return None
class Out(dict): __getattr__ = dict.get; __setattr__ = dict.__setitem__
def usage(): return Out(kind='usage')
def err(st, **k): return Out(dict(dict(kind='json', status=st, error=True, n=0, n_sats=0, lit=0, rows=None, amb=False, bare=True), **k))
# ------------------------------------------------------------------ common parts
def finite(x): return math.isfinite(x)
def options(argv, L, vis):
    """the options as documented -> (early answer | None, options)"""
    p = Out(lat=0., lon=0., ht=2400., mjd=58861.5, date=b'2020-01-13T12:00:00', ra=0., de=0., radius=20., dt=1, max=1000, norad=0, intl=b'', name=b'', amin=0., amax=1e32, path=b'.', epochs=None)
    if vis: p.update(lat=0., lon=0., ht=0., radius=90., dt=3, mjds=[0., 0.], dates=[b'', b''])
    valued = b'adDijlrst' if vis else b'adDijlnprsSt'; known = valued + (b'hNT' if vis else b'hEGHITV')
    i = 1
    while i < len(argv):
        a = argv[i]
        if a[:1] != b'-': i += 1; continue
        o = a[1:2]
        if o and o in valued:
            v = a[2:]
            if not v:
                i += 1
                if i == len(argv): return err(-2), p
                v = argv[i]
        if not o or o not in known: return err(-2), p
        if o == b'h': return usage(), p
        elif o == b'E': p.E = p.G = True
        elif o == b'G': p.G = True
        elif o == b'H': p.H = True
        elif o == b'I': p.I = True
        elif o == b'T': p.T = True
        elif o == b'V': p.V = True
        elif o == b'N': p.N = True
        elif o == b'a':
            x = scan(v, 2)
            if len(x) > 0: p.amin = x[0]
            if len(x) > 1: p.amax = x[1]
            if p.amax < p.amin: p.amin, p.amax = p.amax, p.amin
            p.alt = p.G = True
        elif o == b'd' and not vis:
            m = D()
            if L.date2mjd_nf(v, ctypes.byref(m)): return err(-1), p
            p.mjd = m.value; p.date = v[:23]; p.d = True
        elif o == b'd':
            if b'-' not in v: return usage(), p
            t = v.split(b',', 1); m = [D(), D()]
            k = re.match(rb'([^,]{1,23}),\s*(\S{1,23})', v)
            if not k or L.date2mjd_nf(k.group(1), ctypes.byref(m[0])) or L.date2mjd_nf(k.group(2), ctypes.byref(m[1])): return err(-1), p
            if L.mjd2date(m[0]) is None or L.mjd2date(m[1]) is None: return err(-1), p
            p.dates = [k.group(1), k.group(2)]; p.mjds = [x.value for x in m]; p.d = True
        elif o == b'D': p.path = v[:127]; p.D = True
        elif o == b'i': p.intl = v[:31]; p.si = True; p.alt = False; p.region = False
        elif o == b'j' and not vis:
            if not p.d:
                m = libc.atof(v)
                if L.mjd2date(D(m)) is None: return err(-1), p
                p.mjd = m; p.date = bytes(L.mjd2date(D(m)))
        elif o == b'j':
            if not p.d:
                if b'-' in v: return usage(), p
                x = scan(v, 2)
                if len(x) < 2 or any(L.mjd2date(D(y)) is None for y in x): return err(-1), p
                p.mjds = x; p.dates = [bytes(L.mjd2date(D(y))) for y in x]
        elif o == b'l':
            x = scan(v, 3); p.update(zip(('lat', 'lon', 'ht'), x))
            if p.lon < 0: p.lon += 360.
            if not -90. <= p.lat <= 90. or not finite(p.lon) or not finite(p.ht): return err(-1), p
            p.l = True
        elif o == b'n':
            m = re.match(rb'\s*([+-]?\d+)', v)
            if m: p.max = int(m.group(1))
        elif o == b'p':
            p.update(zip(('ra', 'de'), scan(v, 2)))
            if not 0. <= p.ra <= 360. or not -90. <= p.de <= 90.: return err(-1), p
            p.region = True
        elif o == b'r':
            p.radius = libc.atof(v)
            if not finite(p.radius): return err(-1), p
        elif o == b's':
            n = libc.strtol(v, None, 10); p.norad = (n + 2 ** 31) % 2 ** 32 - 2 ** 31; p.sn = True; p.alt = False; p.region = False
        elif o == b'S': p.name = v[:31]; p.S = True
        elif o == b't':
            x = libc.atof(v)
            if not 1. <= x < 2147483648.: return err(-1), p
            p.dt = int(x)
        i += 1
    if p.T and not p.D: p.path = b'/usr/local/TLErepo'
    if not p.l: return usage(), p
    return None, p
def files(argv, p, cwd):
    """the element files of the request -> (name printed, early answer, generator of paths)"""
    k = len(argv) - 1 if argv[1][:1] == b'-' else 1; f = argv[k]
    if f[:1] == b'@':
        f = f[1:]; data = read(os.path.join(cwd, (p.path + b'/' + f)[:199]))
        if data is None: return f, err(2), None
        def gen():
            for r in lines(data, 64):
                if r[:1] == b'#': continue
                while r and r[-1] < 32: r = r[:-1]
                if r: yield (p.path + b'/' + r)[:199]
        return f, None, gen()
    return f, None, iter([f[:199] if b'/' in f else (p.path + b'/' + f)[:199]])
def designator(d):
    d = cstr(d)
    if d[:1] == b' ': return None
    return ((b'19' if libc.atoi(d) > 57000 else b'20') + d[:2] + b'-' + d[2:])[:11].rstrip(SPACE)
def pairs(data, L):
    """consecutive lines that form an element set: (name, line 1, elements)"""
    it = lines(data, 100); l1 = next(it); name = l1[:23].rstrip(SPACE)
    for l2 in it:
        t = tle_buf()
        if L.parse_elements(l1, l2, t) == 0: yield name, l1, t
        l1 = l2
        if l2[:1] not in (b'1', b'2'): name = l2[:23].rstrip(SPACE)
def warn(rc): return rc in (0, -3, -4)
def wrap(x): return x - TWOPI if x > PI else x + TWOPI if x < -PI else x
# ------------------------------------------------------------------ sat_skymap
def sky(argv, cwd):
    L = setup()
    if len(argv) < 2: return err(1)
    e, p = options(argv, L, False)
    if e: return e
    jd = 2400000.5 + p.mjd; rc, rs = parallax(p.lat * DEG, p.ht); o1 = observer(jd, p.lon * DEG, rc, rs); o2 = observer(jd + p.dt / 86400., p.lon * DEG, rc, rs)
    fname, e, paths = files(argv, p, cwd)
    if e: return e
    single = bool(p.sn or p.si)
    if single: p.G = True; p.alt = False
    gmst, lmst = sidereal(jd, p.lon); zenith = p.E or single or not p.region
    if zenith: p.ra = lmst * 15.; p.de = p.lat
    tra, tde = p.ra * DEG, p.de * DEG; tlon, tlat = p.lon * DEG, p.lat * DEG
    h = horizon(tde, 0. if zenith else lmst - p.ra / 15., p.lat)
    R = Out(kind='json', status=0, n=0, n_sats=0, lit=0, rows=[], amb=False, bare=False, error=False, geofields=bool(p.G), info=bool(p.I))
    R.params = dict(tle_file=fname, lat=p.lat, lon=p.lon, ht=p.ht, ra=p.ra, dec=p.de, radius=p.radius, lmst=lmst, az=h.get('az'), alt=h['alt'], parang=h.get('q'), mjd=p.mjd, date=p.date, gmst=gmst, dt=p.dt, max=p.max)
    R.sun = sundata(jd, gmst, lmst, p.lat, tra, tde); sra, sde = sunpos(jd)
    seen = set(); found = False; done = False
    def near(a, b): R.amb = R.amb or abs(a - b) < 1e-6 * max(1, abs(b) * 1e-3)
    for path in paths:
        data = read(os.path.join(cwd, path))
        if not data: R.status = 2 if data is None else -2; R.error = True; break
        for name, l1, t in pairs(data, L):
            norad = ctypes.c_int.from_buffer(t, OFF['norad_number']).value; des = designator(t.raw[OFF['intl_desig']:OFF['intl_desig'] + 9])
            if p.sn: hit = norad == p.norad
            elif p.si: hit = (des or b'none') == p.intl
            else:
                hit = False
                if p.S and not name.startswith(p.name): continue
            if hit: found = True
            elif single: continue
            key = l1[2:7]
            if key in seen: continue
            seen.add(key)
            s = Sat(L, t); st, pos = s.at(jd); R.amb = R.amb or shaky(L, t, jd, p.dt, st, pos)
            if not warn(st): continue
            ra, dec, dist = radec(o1, pos)
            g = geoloc(gmst, pos)
            if p.alt:
                near(g['alt'], p.amin); near(g['alt'], p.amax)
                if g['alt'] < p.amin or g['alt'] > p.amax: continue
            ra, dec = precess(jd, ra, dec)
            st, pos2 = s.at(jd + p.dt / 86400.)
            if not warn(st): continue
            ra1, dec1, _ = radec(o2, pos2); ra1, dec1 = precess(jd, ra1, dec1)
            if p.E:
                a = sep(tlon, tlat, g['lon'] * DEG, g['lat'] * DEG) if p.H else math.hypot(wrap(g['lon'] * DEG - tlon), g['lat'] * DEG - tlat) * RAD; b = None
            elif p.H: a, b = sep(tra, tde, ra, dec), sep(tra, tde, ra1, dec1)
            else: a, b = math.hypot(wrap(ra - tra), dec - tde) * RAD, math.hypot(wrap(ra1 - tra), dec1 - tde) * RAD
            if not (single or p.S):
                near(a, p.radius)
                if b is not None: near(b, p.radius)
                elif a > p.radius >= 2 * a: pass
                if not (a <= p.radius or (b is not None and b <= p.radius)): continue
            lit, und = sunlit(pos2, sra, sde); R.amb = R.amb or und
            if p.V and not lit: continue
            dra = wrap(ra1 - ra) * math.cos(dec); pa = math.atan2(dra, dec1 - dec) * RAD % 360.; mv = sep(ra, dec, ra1, dec1)
            if abs(wrap(ra1 - ra)) > 3.1 or not p.H and abs(wrap(ra - tra)) > 3.14159: R.amb = True
            hp = set()
            for e1 in (0., 1e-9, -1e-9):
                for e2 in (0., 1e-9, -1e-9):
                    x = ctypes.c_long(); L.ang2pix_nest(ctypes.c_long(256), D(min(PI, max(0., PI / 2 - dec + e1))), D(ra + e2), ctypes.byref(x)); hp.add(x.value)
            R.rows.append(dict(name=name, intl=des or b'none', norad=norad, geo=g if p.G else None, ra=ra * RAD, dec=dec * RAD, ra1=ra1 * RAD, dec1=dec1 * RAD, dist=dist, sep=a, pa=pa, moved=mv, speed=mv * 60 / p.dt, lit=int(lit), hp=hp))
            R.n += 1; R.lit += lit
            if found or R.n == p.max: done = True; break
        if done: break
    R.n_sats = R.n if not found or R.error else 1
    if R.error: R.n_sats = 0
    R.message = R.error or (single and not found)
    return R
# ------------------------------------------------------------------ sat_visibility
def vis(argv, cwd, limit=20000):
    L = setup()
    if len(argv) < 2: return err(1)
    e, p = options(argv, L, True)
    if e: return e
    fname, e, paths = files(argv, p, cwd)
    if e: return e
    if not (p.sn or p.si): return err(2)
    t = None; des = None
    for path in paths:
        data = read(os.path.join(cwd, path))
        if not data: return err(2 if data is None else -2)
        for name, l1, q in pairs(data, L):
            des = designator(q.raw[OFF['intl_desig']:OFF['intl_desig'] + 9]); norad = ctypes.c_int.from_buffer(q, OFF['norad_number']).value
            if norad == p.norad if p.sn else (des or b'none') == p.intl: t = q; break
        if t is not None: break
    if t is None: return err(1)
    s = Sat(L, t); j0, j1 = (2400000.5 + x for x in p.mjds); rc, rs = parallax(p.lat * DEG, p.ht); dt = p.dt / 86400.
    R = Out(kind='json', status=0, n=0, amb=False, bare=False, error=False, message=False, blocks={}, name=name, intl=des or b'none', norad=norad)
    R.params = dict(tle_file=fname, lat=p.lat, lon=p.lon, ht=p.ht, radius=p.radius, mjds=p.mjds, dates=p.dates, dt=p.dt)
    def where(tt):
        gmst, lmst = sidereal(tt, p.lon); st, pos = s.at(tt, True); obs = observer(tt, p.lon * DEG, rc, rs); ra, dec, dist = radec(obs, pos); R.amb = R.amb or not math.hypot(*pos) > 6200. or not dist > 30.
        return gmst, lmst, pos, obs, ra, dec, dist, sep(lmst * 15. * DEG, p.lat * DEG, ra, dec)
    def motion(tt, obs, ra, dec):
        _, pos = s.at(tt, True); a, d, _ = radec(obs, pos); dra = wrap(a - ra) * math.cos(dec); mv = sep(ra, dec, a, d)
        return math.atan2(dra, d - dec) * RAD % 360., mv * 60 / p.dt, mv
    def block(tt, old=None):
        gmst, lmst, pos, obs, ra, dec, dist, z = where(tt); h = horizon(dec, lmst - ra * RAD / 15., p.lat); r2, d2 = precess(tt, ra, dec)
        _, p2 = s.at(tt + 1. / 86400., True); g1, l1, q2, o2, ra2, dec2, _, _ = where(tt + 1. / 86400.)
        return dict(jd=tt, mjd=tt - 2400000.5, ra=r2 * RAD, dec=d2 * RAD, az=h.get('az'), alt=h['alt'], dist=dist, sep=z, geo=geoloc(gmst, pos), sun=sundata(tt, gmst, lmst, p.lat, lmst * 15. * DEG, p.lat * DEG), rate=sep(ra, dec, ra2, dec2) + 0.005, vd=math.dist(pos, p2))
    tt = j0; n = 0
    if p.N:
        while True:
            g, l = sidereal(tt, p.lon); ra, dec = sunpos(tt); a = horizon(dec, l - ra * RAD / 15., p.lat)['alt']
            if abs(a) < 1e-5: R.amb = True
            if a < 0 or tt > j1: break
            tt += 0.0007; n += 1
            if n > 100000: R.amb = True; return R
    start = end = None; best = 999.; tbest = None; last = None; n = 0
    while tt <= j1:
        n += 1
        if n > limit: R.amb = True; return R
        if abs(tt - j1) < 2e-6: R.amb = True
        gmst, lmst, pos, obs, ra, dec, dist, z = where(tt); last = tt
        if p.alt:
            al = geoloc(gmst, pos)['alt']
            if min(abs(al - p.amin), abs(al - p.amax)) < 1e-4: R.amb = True
            if al < p.amin or al > p.amax: R.error = R.message = True; R.status = 2; R.n = int(start is not None); R.partial = True; break
        if abs(z - p.radius) < 1e-5: R.amb = True
        seen = z <= p.radius
        if seen:
            sra, sde = sunpos(tt); lit, und = sunlit(pos, sra, sde); R.amb = R.amb or und; seen = lit
        if seen:
            if z < best - 1e-7: best = z; tbest = tt
            elif abs(z - best) <= 1e-7: R.amb = True
            if start is None: start = tt; R.pa, R.speed, R.moved = motion(tt + dt, obs, ra, dec)
        elif start is not None: end = tt; break
        tt += dt
    if abs(tt - j1) < 2e-6: R.amb = True
    R.samples = n; R.start = start
    if R.error: return R
    if start is None:
        g, l = sidereal(j0, p.lon); R.sun = sundata(j0, g, l, p.lat, l * 15. * DEG, p.lat * DEG); return R
    if end is None: end = last
    R.n = 1; R.end = end; R.duration = (end - start) * 1440.
    for k, x in (('start', start), ('end', end), ('mid', start + (end - start) / 2.), ('max', tbest)): R.blocks[k] = block(x)
    return R
