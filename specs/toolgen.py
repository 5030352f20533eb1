"""Requests for the two programs: element files, list files and command lines, most of them near a decision of the request."""
import os, random, math, ctypes
from specs import toolref as T
from vcg import build
REAL = {}
def real():
    if not REAL:
        for f in ('default.tle', 'stations.txt'):
            try: l = open(build.SRC + '/' + f, 'rb').read().splitlines()
            except OSError: continue
            REAL[f] = [l[i - 1:i + 2] for i in range(1, len(l) - 1) if l[i][:2] == b'1 ' and l[i + 1][:2] == b'2 ']
    return REAL
def fix(l): return l[:68] + str(sum(int(c) if '0' <= c <= '9' else c == '-' for c in l[:68]) % 10)
AL = '0123456789ABCDEFGHJKLMNPQRSTUVWXYZ'
def expo(x):
    if x == 0: return ' 00000-0'
    e = math.floor(math.log10(abs(x))) + 1; m = round(abs(x) / 10. ** e * 1e5)
    if m >= 100000: m //= 10; e += 1
    return '%s%05d%s%d' % ('-' if x < 0 else ' ', m, '-' if e <= 0 else '+', min(9, abs(e)))
def tle(r, mjd, kind=None, **k):
    """element set with its epoch near the date"""
    kind = kind or r.choice(('leo', 'leo', 'leo', 'leo', 'meo', 'geo', 'mol', 'low', 'ecc'))
    n = dict(leo=r.uniform(12.5, 15.8), meo=r.uniform(1.9, 6.3), geo=r.uniform(.98, 1.02), mol=r.uniform(1.98, 2.03), low=r.uniform(15.9, 16.4), ecc=r.uniform(2., 11.))[kind]
    e = dict(leo=r.uniform(0, .02), meo=r.uniform(0, .02), geo=r.uniform(0, .01), mol=r.uniform(.6, .72), low=r.uniform(0, .003), ecc=r.uniform(0, .3))[kind]
    if kind == 'ecc': e = min(e, max(0., 1 - (n / 15.9) ** (2 / 3.)))
    inc = dict(leo=r.choice((51.64, 98.2, 53., r.uniform(0, 110))), meo=55., geo=r.choice((0.05, 5.)), mol=63.4, low=51.6, ecc=r.uniform(0, 100))[kind]
    ep = mjd + r.choice((0, r.uniform(-.5, .5), r.uniform(-3, 3), r.uniform(-20, 20)))
    if kind == 'low': ep = mjd - r.choice((.1, .5, 2., 5., 30., 200.))
    y, doy = year_day(ep); f = dict(n=n, e=e, inc=inc, node=r.uniform(0, 360), argp=r.uniform(0, 360), ma=r.uniform(0, 360), bstar=r.choice((0., 1e-4, 3e-5, r.uniform(-1e-3, 1e-3))) if kind != 'low' else r.choice((1e-3, 5e-2)),
        norad=''.join(r.choice(AL[:10]) for _ in range(5)) if r.random() < .85 else r.choice(AL) + ''.join(r.choice(AL[:10]) for _ in range(4)), des='%02d%03d%-3s' % (r.choice((98, 57, 58, 0, 19, 20, 24)), r.randint(1, 199), r.choice(('A', 'B', 'AB', 'ABC'))), cls='U', bull=r.randint(0, 999), rev=r.randint(0, 99999))
    f.update(k)
    l1 = '1 %5s%s %-8s %02d%012.8f %s %s %s 0 %4d0' % (f['norad'], f['cls'], f['des'], y % 100, doy, ' .00000123', ' 00000-0', expo(f['bstar']), f['bull'])
    l2 = '2 %5s %8.4f %8.4f %07d %8.4f %8.4f %11.8f%5d0' % (f['norad'], f['inc'], f['node'] % 360, round(f['e'] * 1e7), f['argp'] % 360, f['ma'] % 360, f['n'], f['rev'])
    return fix(l1).encode(), fix(l2).encode()
def year_day(mjd):
    import datetime
    d = datetime.datetime(1858, 11, 17) + datetime.timedelta(days=mjd); y = d.year
    return y, mjd - (datetime.datetime(y, 1, 1) - datetime.datetime(1858, 11, 17)).days + 1.
NAMES = ['STARLINK-%d' % k for k in range(20, 40)] + ['ISS (ZARYA)', 'STAR', 'STARLINK', 'GPS BIIR-2  (PRN 13)', 'COSMOS 2251 DEB', 'A', 'A VERY LONG SATELLITE NAME INDEED', 'NOAA 19 [-]', 'STARLETTE', '(1998-067A)', 'QUOTE "X" \\ Y', 'TAB\tNAME', '"']
def element_file(r, mjd, n, nl=b'\n', pool=None):
    out = []; sets = []
    style = r.random(); rl = real()
    for _ in range(n):
        if pool and r.random() < .25: nm, a, b = r.choice(pool)
        elif rl and r.random() < .1: nm, a, b = r.choice(r.choice(list(rl.values())))
        else: nm = r.choice(NAMES).encode(); a, b = tle(r, mjd)
        q = r.random()
        if q < .03: b = b[:-1] + b'0123456789'[(b[-1] - 47) % 10:][:1]              # wrong check digit
        elif q < .05: b = b[:r.randint(0, 68)]
        elif q < .06: out.append(b'')
        elif q < .08: out.append(b'# comment')
        elif q < .09: nm = b'N' * r.choice((24, 98, 99, 100, 150, 250))
        elif q < .10: out.append(b'2 orphan')
        elif q < .11: a = a + b' trailing text'
        elif q < .12: b = b[:2] + tle(r, mjd)[1][2:7] + b[7:]
        if style < .12: out += [a, b]
        else: out += [nm + b' ' * r.choice((0, 0, 5, 24)), a, b]
        sets.append((nm, a, b))
    if r.random() < .03: out.insert(0, b'')
    data = nl.join(out) + (nl if r.random() < .85 else b'')
    return data, sets
def num(r, x, d=None): return ('%.*f' % (r.choice((2, 4, 6)) if d is None else d, x))
def pick_site(r):
    lat = r.choice((r.uniform(-90, 90), r.uniform(-60, 60), 44.52804, -29.25627, 0., 90., -90., 89.5)); lon = r.choice((r.uniform(-180, 180), r.uniform(0, 360), 0., 180., -180., 359.99, 11.33915, -70.73805)); return lat, lon, r.choice((0., 23.5, 2400., -100., r.uniform(0, 5000)))
def dateopt(r, mjd):
    L = T.setup()
    if r.random() < .5: return ['-j', num(r, mjd, r.choice((5, 8)))]
    return ['-d', bytes(L.mjd2date(T.D(mjd))).decode()]
def join(r, o):
    """option and value together or apart"""
    return [o[0] + o[1]] if r.random() < .6 and o[1] else list(o)
def sky(r, d):
    """(argv, directory prepared)"""
    mjd = r.choice((58861.5, r.uniform(58000, 60500), round(r.uniform(58000, 60500) * 2) / 2, 58119. + 1e-5, 59580. - 1e-5))
    nl = r.choice((b'\n', b'\n', b'\r\n')); nf = r.choice((1, 1, 1, 2, 3)); lst = r.random() < .3
    pool = []; names = []
    for k in range(nf if lst else 1):
        data, sets = element_file(r, mjd, r.choice((1, 2, 5, 10, 25)) if not lst else r.choice((1, 3, 6)), nl, pool); pool += sets
        fn = 'f%d.tle' % k; open(os.path.join(d, fn), 'wb').write(data); names.append(fn)
    lat, lon, ht = pick_site(r); opts = [['-l', '%s,%s,%s' % (num(r, lat), num(r, lon), num(r, ht, 1))]] if r.random() < .99 else []
    if r.random() < .93: opts.append(dateopt(r, mjd))
    if r.random() < .04: opts.append(dateopt(r, mjd + 1))
    q = r.random(); rad = r.choice((5., 20., 40., 60., 90., 180., r.uniform(1, 90)))
    nm, a, b = r.choice(pool)
    tgt = None
    if q < .6 and r.random() < .9:
        # a centre some way from where one of the satellites is
        try:
            L = T.setup(); t = T.tle_buf(); L.parse_elements(a, b, t); s = T.Sat(L, t); st, pos = s.at(2400000.5 + mjd)
            o = T.observer(2400000.5 + mjd, lon * T.DEG, *T.parallax(lat * T.DEG, ht)); ra, dec, _ = T.radec(o, pos)
            if math.isfinite(ra) and st == 0:
                off = rad * r.choice((0., .5, .98, .999, 1.001, 1.02, r.uniform(0, 1.5))); w = r.uniform(0, 2 * math.pi)
                de = max(-90., min(90., dec * T.RAD + off * math.sin(w))); tgt = ((ra * T.RAD + off * math.cos(w) / (1 if r.random() < .5 else max(.05, math.cos(de * T.DEG)))) % 360., de)
        except Exception: pass
    if q < .6: opts.append(['-p', '%s,%s' % (num(r, (tgt or (r.choice((0., .5, 359.5, 180., r.uniform(0, 360))), r.uniform(-90, 90)))[0]), num(r, (tgt or (0, r.uniform(-90, 90)))[1]))])
    if r.random() < .8: opts.append(['-r', num(r, rad)])
    if q > .9: opts.append(['-s', r.choice((a[2:7].decode(), '99999', '25544'))])
    elif q > .84:
        dz = T.designator(a[9:17]); opts.append(['-i', r.choice((dz or b'none', dz or b'x', b'1998-067A', b'none')).decode('latin-1')])
    elif q > .74: k = r.choice((nm.decode('latin-1')[:23].strip(), 'STAR', 'STARLINK', 'STARLINK-2', 'A', 'star', '', nm.decode('latin-1')[:r.randint(1, 8)])); opts.append(['-S', k])
    elif q > .62: opts.append(['-E', ''])
    if r.random() < .05: opts.append(['-s', a[2:7].decode()])
    for o, pr in (('-G', .25), ('-H', .5), ('-I', .1), ('-V', .2), ('-E', .03)):
        if r.random() < pr: opts.append([o, ''])
    if r.random() < .25: opts.append(['-n', str(r.choice((1, 1, 2, 3, 5, 0, -1, 1000)))])
    if r.random() < .3: opts.append(['-t', r.choice(('1', '10', '60', '300', '2.9', '1.0'))])
    if r.random() < .2: x, y = sorted((r.choice((0., 400., 500., r.uniform(150, 2000))), r.choice((600., 20000., 40000., r.uniform(300, 40000))))); opts.append(['-a', r.choice(('%g,%g' % (x, y), '%g,%g' % (y, x), '%g' % x))])
    if r.random() < .05: opts.append(r.choice((['-r', 'nan'], ['-p', '400,0'], ['-l', '91,0,0'], ['-j', '1e9'], ['-d', '2020-13-01'], ['-x', ''], ['-t', '0'], ['-h', ''], ['-r', ''], ['-', ''], ['-p', '10'], ['-l', '10'], ['-n', 'x'], ['-S', 'QUOTE "'], ['-q"\\', ''], ['-d', '2020-01-01"'], ['-i', '\\n"'], ['-S', 'TAB\t'])))
    return finish(r, d, opts, names, lst, 'sat_skymap')
def finish(r, d, opts, names, lst, tool):
    r.shuffle(opts); sub = ''
    if r.random() < .15:
        os.makedirs(d + '/sub', exist_ok=True)
        for n in names: os.rename(d + '/' + n, d + '/sub/' + n)
        opts.insert(r.randint(0, len(opts)), ['-D', r.choice(('sub', './sub'))])
    if lst:
        rows = []
        for n in names: rows += r.choice(([], ['# x'], [''], [])) + [n]
        if r.random() < .08: rows.append('missing.tle')
        if r.random() < .05: rows.append('x' * r.choice((62, 63, 64, 100)))
        base = d + ('/sub' if any(o[0] == '-D' for o in opts) else ''); nl = r.choice(('\n', '\r\n')); open(base + '/list', 'w', newline='').write(nl.join(rows) + (nl if r.random() < .7 else ''))
        f = '@list'
    else:
        f = names[0]
        if r.random() < .1 and not any(o[0] == '-D' for o in opts): f = './' + f
        if r.random() < .03: f = r.choice(('nofile', 'sub/nofile', '.'))
    if r.random() < .03: open(d + '/empty', 'w').close(); f = 'empty' if not lst else f
    av = [x for o in opts for x in join(r, o) if x != '' or o[0] in ('-S',)]
    if r.random() < .8: av = [f] + av
    else:
        av = av + [f]
        if av[0][:1] != '-': av = [f] + av[:-1]
    if r.random() < .01: av = [f]
    if r.random() < .003: av = []
    return [tool] + av
def vis(r, d):
    mjd = r.choice((58861.5, r.uniform(58000, 60500), round(r.uniform(58000, 60500) * 4) / 4)); nl = r.choice((b'\n', b'\n', b'\r\n'))
    names = []; pool = []; lst = r.random() < .2
    for k in range(2 if lst else 1):
        out = []
        for _ in range(r.choice((1, 2, 4))):
            nm = r.choice(NAMES).encode(); a, b = tle(r, mjd, r.choice(('leo', 'leo', 'leo', 'leo', 'meo', 'mol', 'geo', 'ecc', 'low' if r.random() < .2 else 'leo'))); pool.append((nm, a, b)); out += [nm, a, b]
        if r.random() < .1: out.insert(0, b'junk')
        fn = 'f%d.tle' % k; open(os.path.join(d, fn), 'wb').write(nl.join(out) + nl); names.append(fn)
    lat, lon, ht = pick_site(r); nm, a, b = r.choice(pool); deep = float(b[52:63]) < 6.4
    dt = r.choice((10, 20, 30, 60)) if not deep else r.choice((60, 120, 300)); span = r.choice((.03, .1, .2, .4, .6)) * (1 if not deep else 3); span = min(span, 900. * dt / 86400.)
    j0 = mjd; L = T.setup()
    try:
        # an interval around a pass over the site, so that something is visible in many cases
        t = T.tle_buf(); L.parse_elements(a, b, t); s = T.Sat(L, t); best = None
        for k in range(60):
            x = mjd + r.uniform(-.5, 1.); st, pos = s.at(2400000.5 + x, True); g, l = T.sidereal(2400000.5 + x, lon % 360); o = T.observer(2400000.5 + x, lon * T.DEG, *T.parallax(lat * T.DEG, ht)); ra, dec, _ = T.radec(o, pos); z = T.sep(l * 15 * T.DEG, lat * T.DEG, ra, dec); sra, sde = T.sunpos(2400000.5 + x); lit, _ = T.sunlit(pos, sra, sde)
            if st == 0 and lit and (best is None or z < best[0]): best = (z, x)
        if best and r.random() < .85: j0 = best[1] - r.choice((0., .002, .01, span / 2)); 
    except Exception: pass
    j0 = round(j0, 5); j1 = j0 + span * r.choice((1, 1, .3)) + 1.7e-4
    opts = [['-l', '%s,%s,%s' % (num(r, lat), num(r, lon), num(r, ht, 1))]] if r.random() < .99 else []
    opts.append(['-s', a[2:7].decode()] if r.random() < .75 else ['-i', (T.designator(a[9:17]) or b'none').decode('latin-1')])
    if r.random() < .02: opts[-1] = ['-s', '99999']
    opts.append(['-j', '%.5f,%.5f' % (j0, j1)] if r.random() < .5 else ['-d', '%s,%s' % tuple(bytes(L.mjd2date(T.D(x))).decode() for x in (j0, j1))])
    opts.append(['-t', str(dt)])
    if r.random() < .6: opts.append(['-r', num(r, r.choice((90., 80., 60., 45., 30., 180., r.uniform(5, 90))))])
    if r.random() < .2: opts.append(['-N', ''])
    if r.random() < .15: opts.append(['-a', r.choice(('100,100000', '300,36000', '500,1500', '2000,100', '%g,%g' % (r.uniform(200, 800), r.uniform(800, 40000))))])
    if r.random() < .04: opts.append(r.choice((['-r', 'nan'], ['-l', '91,0,0'], ['-j', '1e9,1e9'], ['-j', '58000'], ['-d', '2020-13-01,2020-01-01'], ['-x', ''], ['-t', '0'], ['-h', ''], ['-r', ''], ['-', ''], ['-j', '60000,59000'], ['-q"\\', ''], ['-d', '2020-01-01",x'], ['-i', '\\n"'])))
    return finish(r, d, opts, names, lst, 'sat_visibility')
