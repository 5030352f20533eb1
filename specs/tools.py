"""C21-C25: the two programs."""
import os, re, json, math, time, random, subprocess, tempfile, shutil, datetime
from vcg import build
from vcg.llir import Unsupported
from specs import toolref as T, toolgen as G
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0', LC_ALL='C')
def execute(tool, kind, argv, cwd, timeout=20):
    try: r = subprocess.run([tool] + argv[1:], executable=T.exe(tool, kind), cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=ENV)
    except subprocess.TimeoutExpired: return None, b'', b'no answer in %d s' % timeout
    return r.returncode, r.stdout, r.stderr
def sanitizer(err):
    m = re.search(rb'(ERROR: AddressSanitizer[^\n]*|[^\n]*runtime error[^\n]*|WARNING: MemorySanitizer[^\n]*|SUMMARY[^\n]*|free\(\)[^\n]*|[^\n]*smashing[^\n]*|[^\n]*overflow detected[^\n]*)', err)
    return m.group(1).decode('latin-1')[:200] if m else None
def parse(out):
    """(object, None) or (None, complaint)"""
    t = out.decode('latin-1')
    def bad(x): raise ValueError('number ' + x)
    def pairs(kv):
        d = {}
        for k, v in kv:
            if k in d: raise ValueError('name %r twice' % k)
            d[k] = v
        return d
    try: o = json.loads(t, parse_constant=bad, object_pairs_hook=pairs)
    except ValueError as e: return None, 'not one well-formed JSON object: %s; ends with %r' % (str(e)[:80], t[-60:])
    return (o, None) if isinstance(o, dict) else (None, 'not an object')
def is_usage(out): return out.startswith(b'Usage:') and out.rstrip().endswith(b'-s 25544')
class Bad(Exception):
    def __init__(s, clause, got, want): Exception.__init__(s); s.clause, s.got, s.want = clause, got, want
def need(clause, got, want, ok=None):
    if not (got == want if ok is None else ok): raise Bad(clause, got, want)
def close(clause, got, want, tol, mod=None):
    if want is None: return
    if not isinstance(got, (int, float)): raise Bad(clause, got, want)
    d = abs(got - want)
    if mod: d %= mod; d = min(d, mod - d)
    if not d <= tol: raise Bad(clause, got, want)
def check_json(tool, R, out):
    """C23: syntax, status, message"""
    if R['kind'] == 'usage': need('usage text', out[:40], 'the usage text', is_usage(out)); return None
    o, why = parse(out)
    if why: raise Bad('one well-formed JSON object', why, 'valid JSON')
    if R.get('amb'): return o
    need('status', o.get('status'), R['status']); e = o.get('errmsg'); need('errmsg', e, 'a message' if R.get('message') or R.get('bare') else '', isinstance(e, str) and bool(e) == bool(R.get('message') or R.get('bare')))
    for k in ('swinfo', 'run_command', 'n_sats_found') + (('n_sats', 'n_sunlit_sats') if tool == 'sat_skymap' else ()): need('field ' + k, k in o, True)
    need('software name', o['swinfo'].get('name'), tool)
    if R.get('bare'): need('n_sats_found', o['n_sats_found'], 0)
    return o
def any_json(tool, rc, out):
    """C23 for a request without a reference: the usage text or one object with the documented members"""
    if rc is None or rc < 0: return                # C24
    if is_usage(out): return
    o, why = parse(out)
    if why: raise Bad('one well-formed JSON object', why, 'valid JSON')
    for k, t in (('swinfo', dict), ('run_command', str), ('status', int), ('errmsg', str), ('n_sats_found', int)) + ((('n_sats', int), ('n_sunlit_sats', int)) if tool == 'sat_skymap' else ()): need('field ' + k, o.get(k), t.__name__, type(o.get(k)) is t)
    need('error message with a non-zero status', o['errmsg'], 'a message', bool(o['errmsg']) or o['status'] == 0)
    if tool == 'sat_skymap':
        need('entries of satellites', len(rows_of(o)), o['n_sats_found'], len(rows_of(o)) == o['n_sats_found'] or 'satellites' not in o); need('sunlit satellites', o['n_sunlit_sats'], o['n_sats_found'], 0 <= o['n_sunlit_sats'] <= o['n_sats_found'])
SKYROW = ['ra', 'dec', 'ra1', 'dec1', 'dist', 'sep', 'pa', 'speed', 'lit', 'hp']
def rows_of(o): return o.get('satellites', [])
def check_rows(R, o):
    """C21: which satellites"""
    if R.get('bare') or R['info']: need('satellites listed', 'satellites' in o, False)
    else:
        got = [(x['name'].encode('latin-1'), x['intl_desig'].encode('latin-1'), x['norad_n']) for x in rows_of(o)]; want = [(x['name'], x['intl'], x['norad']) for x in R['rows']]
        need('satellites reported (name, designator, number)', got, want)
    if not R.get('bare'):
        need('n_sats_found', o['n_sats_found'], R['n']); need('n_sats', o['n_sats'], R['n_sats'])
def check_numbers(R, o):
    """C22"""
    if R.get('bare'): return
    need('n_sats_found', o['n_sats_found'], R['n']); need('n_sunlit_sats', o['n_sunlit_sats'], R['lit'])
    P = R['params']; q = o['input_params']; l = q['location']; g = q['region']
    need('tle_file', q['tle_file'].encode('latin-1'), P['tle_file'])
    close('site latitude', l['lat'], P['lat'], 6e-5); close('site longitude', l['lon'], P['lon'], 6e-5, 360); close('site height', l['alt'], P['ht'], .06)
    close('region ra', g['ra'], P['ra'], 2e-4, 360); close('region dec', g['dec'], P['dec'], 6e-5); close('region radius', g['radius'], P['radius'], 6e-5 + 1e-12 * abs(P['radius'])); close('lmst', g['lmst'], P['lmst'], 6e-5, 24); close('gmst', q['gmst'], P['gmst'], 6e-5, 24)
    close('region altitude', g['alt'], P['alt'], 3e-4); edge = abs(P['alt']) > 89.9; pole = edge or abs(P['dec']) > 89.9
    close('region azimuth', g['az'], None if edge else P['az'], 3e-4 / max(.002, math.cos(math.radians(P['alt']))), 360); close('region parallactic angle', g['parang'], None if pole else P['parang'], 2e-3 / max(.002, math.cos(math.radians(P['alt'])) * math.cos(math.radians(P['dec']))), 360)
    close('mjd', q['mjd'], P['mjd'], 6e-6); need('epoch_UTC', q['epoch_UTC'].encode('latin-1'), P['date']); need('delta_time_s', q['delta_time_s'], P['dt']); need('max_sats', q['max_sats'], P['max'])
    check_sun('sun', o['sun'], R['sun'])
    if R['info']: return
    if bool(R['rows']) != ('data_fields' in o) : raise Bad('description of the data fields', 'data_fields' in o, bool(R['rows']))
    if not [(x['norad_n']) for x in rows_of(o)] == [x['norad'] for x in R['rows']]: return            # C21
    if R['rows']: need('data fields described', len(o['data_fields']['name']), len(rows_of(o)[0]['data']))
    for x, w in zip(rows_of(o), R['rows']):
        n = 'satellite %d: ' % w['norad']; d = x['data']; c = max(1e-3, math.cos(w['dec'] * T.DEG))
        need(n + 'data columns', len(d), 10)
        close(n + 'RA_start', d[0], w['ra'], 6e-5 + 2e-5 / c, 360); close(n + 'Dec_start', d[1], w['dec'], 8e-5); close(n + 'RA_end', d[2], w['ra1'], 6e-5 + 2e-5 / c, 360); close(n + 'Dec_end', d[3], w['dec1'], 8e-5)
        close(n + 'Distance', d[4], w['dist'], .006 + 1e-6 * w['dist']); close(n + 'Separation', d[5], w['sep'], 1e-4)
        pt = 1.001 if abs(w['pa'] - round(w['pa'])) < max(1e-3, 1e-5 / max(w['moved'], 1e-9)) else 0
        if w['moved'] > 1e-6: close(n + 'PA', d[6], int(w['pa']), pt, 360)
        close(n + 'Speed', d[7], w['speed'], 6e-4 + 1e-5 * w['speed'] + (1e-3 if w['moved'] < 1e-4 else 0)); need(n + 'sunlit', d[8], w['lit']); need(n + 'HPXID_8', d[9], sorted(w['hp'])[0], d[9] in w['hp'])
        need(n + 'geodetic position given', 'geoloc' in x, w['geo'] is not None)
        if w['geo']: check_geo(n, x['geoloc'], w['geo'])
def check_geo(n, x, g, e=0., h=0.):
    c = max(1e-4, math.cos(g['lat'] * T.DEG)); close(n + 'latitude', x['lat'], g['lat'], 6e-4 + e); close(n + 'longitude', x['lon'], g['lon'], 6e-4 + (1e-6 + e) / c, 360); close(n + 'altitude', x['alt'], g['alt'], .007 + 1e-7 * abs(g['alt']) + h); close(n + 'theta', x['theta'], g['theta'], 6e-4 + (1e-6 + e) / c, 360)
def check_sun(n, x, w, e=0.):
    c = max(.002, math.cos(w['alt'] * T.DEG)); close(n + ' ra', x['ra'], w['ra'], 6e-4 + e, 360); close(n + ' dec', x['dec'], w['dec'], 6e-4 + e); close(n + ' altitude', x['alt'], w['alt'], 8e-4 + e); close(n + ' azimuth', x['az'], w['az'], 8e-4 + (1e-4 + e) / c, 360)
    close(n + ' longitude', x['lon'], w['lon'], 8e-4 + e, 360); close(n + ' parallactic angle', x['parang'], w['parang'], 8e-4 + (1e-4 + e) / c, 360); close(n + ' separation', x['separation_deg'], w['separation_deg'], 8e-4 + e)
    if w['az'] is not None and not -180. <= x['lon'] <= 180.: raise Bad(n + ' longitude range', x['lon'], '[-180, 180]')
def mjd_of(date):
    m = re.match(r'(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)', date); y = [int(x) for x in m.groups()]
    return (datetime.date(*y[:3]) - datetime.date(1858, 11, 17)).days + (y[3] * 3600 + y[4] * 60 + y[5]) / 86400.
def check_window(R, o):
    """C25"""
    if R.get('bare'): return
    P = R['params']; q = o.get('input_params')
    if q:
        need('tle_file', q['tle_file'].encode('latin-1'), P['tle_file']); l = q['location']; close('site latitude', l['lat'], P['lat'], 6e-5); close('site longitude', l['lon'], P['lon'], 6e-5, 360); close('site height', l['alt'], P['ht'], .06)
        close('radius', q['region']['radius'], P['radius'], 6e-5 + 1e-12 * abs(P['radius'])); need('delta_time_s', q['delta_time_s'], P['dt'])
        for k in range(2): close('mjd_range', q['mjd_range'][k], P['mjds'][k], 6e-6); need('date_utc_range', q['date_utc_range'][k].encode('latin-1'), P['dates'][k])
    need('n_sats_found', o['n_sats_found'], R['n'])
    if R.get('partial'): return
    s = o.get('satellite'); need('satellite reported', s is not None, R['n'] == 1)
    if s is None: need('Sun of the first instant', 'sun' in o, True); check_sun('sun', o['sun'], R['sun']); return
    need('name, designator and number', (s['name'].encode('latin-1'), s['intl_desig'].encode('latin-1'), s['norad_n']), (R['name'], R['intl'], R['norad']))
    m = {}
    for k in ('start', 'end', 'mid', 'max'):
        b = s.get('sat_' + k); need('block sat_' + k, b is not None, True); m[k] = b['MJD']
        if abs(mjd_of(b['Date']) - b['MJD']) > 1.1e-5: raise Bad('date printed with the MJD (%s)' % k, b['Date'], b['MJD'])
    need('start <= mid <= end', m, 'ordered', m['start'] <= m['mid'] + 1e-5 and m['mid'] <= m['end'] + 1e-5); need('start <= max <= end', m, 'ordered', m['start'] <= m['max'] + 1e-5 and m['max'] <= m['end'] + 1e-5)
    close('duration', o['sunlit_duration_minutes'], (m['end'] - m['start']) * 1440., .02 + .015 ); need('duration not negative', o['sunlit_duration_minutes'], '>= 0', o['sunlit_duration_minutes'] >= 0)
    close('duration', o['sunlit_duration_minutes'], R['duration'], .0052 + 1e-3)
    for k in ('start', 'end', 'mid', 'max'):
        b, w = s['sat_' + k], R['blocks'][k]; n = k + ': '; e = 4e-4 + .03 * w['rate']; c = max(1e-3, math.cos(w['dec'] * T.DEG)); ca = max(1e-3, math.cos(w['alt'] * T.DEG))
        close(n + 'MJD', b['MJD'], w['mjd'], 7e-6)
        if k != 'mid' or True:
            close(n + 'ra', b['ra'], w['ra'], e / c + 1e-4, 360); close(n + 'dec', b['dec'], w['dec'], e); close(n + 'altitude', b['alt'], w['alt'], e); close(n + 'azimuth', b['az'], w['az'], e / ca + 1e-3, 360)
            close(n + 'Distance', b['Distance'], w['dist'], .02 + .03 * w['vd'] + 1e-6 * w['dist']); close(n + 'Separation', b['Separation'], w['sep'], e)
            check_geo(n + 'geodetic ', s['geoloc_' + k], w['geo'], e, .02 + .03 * w['vd']); check_sun('sun_' + k, s['sun_' + k], w['sun'], 3e-4)
    if R['moved'] > 1e-4: close('speed at the start', s['sat_start']['Speed'], R['speed'], 2e-3 + 2e-3 * R['speed']); close('position angle of motion at the start', s['sat_start']['PA'], R['pa'], 1.01 + min(180., .03 / R['moved']), 360)
# ------------------------------------------------------------------ C24
VALUES = ['', '0', '1', '-1', 'nan', 'inf', '-inf', '1e308', '-1e308', '1e9', '2147483647', '2147483648', '-2147483648', '99999999999999999999', 'x', ',', ',,', '1,', ',1', '1,2', '1,2,3', '1,2,3,4', '90,180,0', '-90,-180,-1e9', '0.5,0.5', 'nan,nan', '1e300,1e300', '2020-01-01', '2020-01-01T00:00:00', '2020-01-01T25:61:61', '2020-13-45', '0000-00-00', '99999-01-01T00:00:00', '-2020-01-01', '58861.5', '58861.5,58861.6', '58861.6,58861.5', '2020-01-11T00:00:00,2020-01-11T01:00:00', '1998-067A', '98067A', '25544', 'STAR', '%s%n%d', '"\\\'', '\x01\x7f', '..', '/', '-r', '@', '360,90', '359.9999999,-90', '0,90', '1e-320', 'T']
def blob(r, d):
    """a damaged element file"""
    mjd = 58861.5; data, sets = G.element_file(r, mjd, r.choice((0, 1, 2, 6)), r.choice((b'\n', b'\r\n', b'\r')))
    q = r.random()
    if q < .1: return bytes(r.randrange(256) for _ in range(r.choice((0, 1, 70, 500))))
    if q < .15: return r.choice((b'', b'\n', b'\n\n\n', b'\0', b'\0' * 300, b'\r', b'1', b'1 \n2 \n', b'x' * 5000, b'1 ' * 90 + b'\n' + b'2 ' * 90))
    b = bytearray(data)
    for _ in range(r.choice((0, 1, 1, 3, 10, 40))):
        if not b: break
        k = r.randrange(len(b)); w = r.random()
        if w < .3: b[k] = r.randrange(256)
        elif w < .5: b[k] = r.choice(b'0123456789 +-.UXTHIN\n\r\0')
        elif w < .65: del b[k:k + r.choice((1, 1, 2, 10, 80))]
        elif w < .8: b[k:k] = bytes(r.choice(b'0123456789 AZ\n') for _ in range(r.choice((1, 2, 30, 200))))
        elif w < .9: b[k:k] = b[r.randrange(len(b)):][:150]
        else: del b[k:]
    out = bytes(b)
    if r.random() < .5:                                          # check digits made right again, so that the damaged fields are used
        ls = out.split(b'\n'); out = b'\n'.join(G.fix(l[:69].decode('latin-1')).encode('latin-1') + l[69:] if len(l) >= 69 and l[:2] in (b'1 ', b'2 ') else l for l in ls)
    return out
def robust_cases(r, d, tool):
    """(kind, argv) pairs on one directory of files"""
    q = r.random()
    if q < .35: argv = (G.sky if tool == 'sat_skymap' else G.vis)(r, d)
    else:
        names = []
        for k in range(r.choice((1, 1, 2))): open('%s/g%d.tle' % (d, k), 'wb').write(blob(r, d)); names.append('g%d.tle' % k)
        open(d + '/list', 'wb').write(r.choice((b'\n', b'\r\n', b'')).join(r.choice((n.encode(), n.encode() + b' ', b'', b'#', b'nofile', b'y' * r.choice((62, 63, 64, 65, 127, 128, 300)), n.encode())) for n in names * 2) + r.choice((b'', b'\n', b'\0')))
        f = r.choice((names[0], names[0], names[-1], '@list', '@list', '@', '@@list', '@nofile', 'nofile', '.', './' + names[0], 'z' * r.choice((63, 64, 65, 127, 128, 129, 200, 255, 256, 4000)), '@' + 'z' * r.choice((63, 64, 128, 255, 256, 4000)), '', '-', '/'))
        opts = [] if r.random() < .1 else ([['-l', '44.5,11.3,20'], ['-j', '58861.5' if tool == 'sat_skymap' else '58861.5,58861.55']] + ([['-r', r.choice(('90', '180'))], ['-p', '100,20']] if tool == 'sat_skymap' else [['-s', '25544'], ['-t', '60'], ['-r90', '']]))
        if r.random() < .3 and tool == 'sat_skymap': opts.append(['-S', r.choice(('', 'S', 'A'))])
        r.shuffle(opts); opts = [[o[0], o[1]] for o in opts]
        for _ in range(r.choice((0, 1, 1, 2, 4, 12))):
            v = r.choice(VALUES) if r.random() < .85 else r.choice(('1', '9', 'a', ' ', ',', '1,', '%', '"', '\\')) * r.choice((5, 20, 30, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000, 20000))
            opts.insert(r.randint(0, len(opts)), [r.choice(('-a', '-d', '-D', '-E', '-G', '-H', '-h', '-I', '-i', '-j', '-l', '-n', '-N', '-p', '-r', '-s', '-S', '-t', '-T', '-V', '-v', '-z', '-', '--', '')), v])
        av = []
        for o in opts: av += [o[0] + o[1]] if r.random() < .5 else ([o[0], o[1]] if r.random() < .8 else [o[0]])
        av.insert(0 if r.random() < .8 else r.randint(0, len(av)), f)
        if tool == 'sat_visibility': av = [slow(x) for x in av]
        argv = [tool] + [a.replace('\0', '') for a in av]
    yield 'asan', argv
    if r.random() < .4: yield 'msan', argv
def slow(x): return x
# ------------------------------------------------------------------ parts
def show(argv, d):
    fs = {}
    for base, _, fl in os.walk(d):
        for f in fl:
            try: fs[os.path.relpath(os.path.join(base, f), d)] = open(os.path.join(base, f), 'rb').read()[:20000].decode('latin-1')
            except OSError: pass
    return dict(argv=[a if isinstance(a, str) else a.decode('latin-1') for a in argv], files=fs)
class Runs:
    """generated requests: the compiled program against the reference"""
    weight = 12
    def __init__(s, prop, tool, i, of, budget): s.prop, s.tool, s.i, s.of, s.budget = prop, tool, i, of, budget; s.name = '%s runs %d/%d' % (tool, i, of)
    def label(s): return s.name
    def prepare(s):
        T.setup(); G.real()
        for k in ('plain',) + (('asan',) if s.prop in ('C23', 'C24') else ()) + (('msan',) if s.prop == 'C24' else ()): T.exe(s.tool, k)
    def run(s, seed, tier):
        t0 = time.time(); end = t0 + s.budget * (12 if tier == 'thorough' else 1); r = random.Random(seed * 1000003 + s.i * 101 + (7 if s.tool == 'sat_visibility' else 0)); n = amb = rows = 0; viol = []; base = tempfile.mkdtemp(prefix='vsat_t')
        try:
            while time.time() < end and len(viol) < 2:
                d = os.path.join(base, 'd'); shutil.rmtree(d, ignore_errors=True); os.mkdir(d)
                if s.prop == 'C24': n += s.robust(r, d, viol); continue
                if s.prop == 'C23' and r.random() < .4:
                    for kind, argv in robust_cases(r, d, s.tool):
                        rc, out, err = execute(s.tool, 'plain', argv, d); n += 1
                        try: any_json(s.tool, rc, out)
                        except Bad as e: viol.append(dict(contract=s.tool, clause=e.clause, input=show(argv, d), code=repr(e.got)[:600], contract_value=repr(e.want)[:600], obligation=[], replayed=True))
                        break
                    continue
                argv = (G.sky if s.tool == 'sat_skymap' else G.vis)(r, d); b = [os.fsencode(a) for a in argv]
                R = (T.sky if s.tool == 'sat_skymap' else T.vis)(b, os.fsencode(d))
                kind = 'asan' if s.prop == 'C23' and n % 4 == 0 else 'plain'
                rc, out, err = execute(s.tool, kind, argv, d); n += 1
                try:
                    if rc is None: raise Bad('terminates', 'no answer', 'an answer')
                    if rc < 0 or sanitizer(err): raise Bad('normal end', sanitizer(err) or 'signal %d' % -rc, 'no error')
                    if s.prop == 'C23': check_json(s.tool, R, out); continue
                    try: o = check_json(s.tool, R, out)
                    except Bad:
                        if s.prop == 'C24': raise
                        if parse(out)[0] is None: continue            # C23
                        o = parse(out)[0]
                    if o is None or R['kind'] == 'usage': continue
                    if R.get('amb'): amb += 1; continue
                    if R.get('bare'):
                        if s.prop == 'C21': check_rows(R, o)
                        continue
                    rows += R['n']
                    try: dict(C21=check_rows, C22=check_numbers, C25=check_window)[s.prop](R, o)
                    except (KeyError, TypeError, IndexError, AttributeError) as e: raise Bad('fields of the answer', '%s %s' % (type(e).__name__, e), 'the documented fields')
                except Bad as e: viol.append(dict(contract=s.tool, clause=e.clause, input=show(argv, d), code=repr(e.got)[:600], contract_value=repr(e.want)[:600], obligation=[], replayed=True))
        finally: shutil.rmtree(base, ignore_errors=True)
        return dict(obls=[], functions={}, violations=viol, solver={'native': time.time() - t0}, evaluations=n, samples=[dict(part=s.name, runs=n, satellites=rows, undecided_at_a_threshold=amb)] if s.i == 0 else [], notes=[], bounded=[s.name + ': generated requests, not all requests'])
    def robust(s, r, d, viol):
        n = 0
        for kind, argv in robust_cases(r, d, s.tool):
            rc, out, err = execute(s.tool, kind, argv, d); n += 1; w = sanitizer(err)
            if rc is None or rc < 0 or w: viol.append(dict(contract=s.tool, clause='terminates' if rc is None else 'memory safety and normal end (%s)' % kind, input=show(argv, d), code=w or ('no answer in 20 s' if rc is None else 'signal %d' % -rc), contract_value='a normal end', obligation=[], replayed=True)); break
        return n
def runs(prop, tools, n, budget): return [Runs(prop, t, i, n, budget) for t in tools for i in range(n)]
BOTH = ('sat_skymap', 'sat_visibility')
C21 = runs('C21', ('sat_skymap',), 8, 80)
C22 = runs('C22', ('sat_skymap',), 8, 80)
C23 = runs('C23', BOTH, 4, 80)
C24 = runs('C24', BOTH, 4, 100)
C25 = runs('C25', ('sat_visibility',), 8, 80)
