"""Contracts of the calendar functions (C07): date2mjd_nf, mjd2date, mjd2datef, with double and float rounding modelled,
the calendar terms of the code evaluated on every day number, and a native falsifier."""
import os, re, subprocess, time
from fractions import Fraction
import numpy as np, z3
from vcg import build
from vcg.llir import Unsupported
from vcg.zexec import ZExec, St, Pt, isconc, zi, zr
from specs import healpix
from specs.healpix import Part

MJD0 = -678941            # Modified Julian Date of 0000-01-01 (proleptic Gregorian)
def leap(y): return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
ML = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
NDAYS = sum(366 if leap(y) else 365 for y in range(10000))
def civil():
    """calendar of every day of the years 0..9999"""
    y = np.arange(10000); L = ((y % 4 == 0) & ((y % 100 != 0) | (y % 400 == 0))).astype(int)
    Y = np.repeat(y, 365 + L); start = np.concatenate(([0], np.cumsum(365 + L)[:-1])); doy = np.arange(NDAYS) - start[Y]
    cum = np.cumsum([0] + ML); LL = L[Y]; M = np.zeros(NDAYS, int); D = np.zeros(NDAYS, int)
    for m in range(12):
        a = cum[m] + (LL if m >= 2 else 0); b = cum[m + 1] + (LL if m >= 1 else 0); k = (doy >= a) & (doy < b); M[k] = m + 1; D[k] = (doy - a)[k] + 1
    return Y, M, D

def cstring(ex, p):
    if p.obj is None or not p.obj.startswith('@') or not isconc(p.off): raise Unsupported('format is not a constant')
    t = ex.table(p.obj[1:]); out = []
    i = p.off
    while t.get(i, 0): out.append(chr(t[i] & 255)); i += 1
    return ''.join(out)
def fmt(f):
    """format string -> [literal or (width, precision, flags, conversion, length)]"""
    out = []
    for m in re.finditer(r'%([-+ #0]*)(\d*)(?:\.(\d+))?(hh|h|ll|l|)([a-zA-Z%])|([^%]+)', f):
        if m.group(6): out.append(m.group(6))
        else: out.append((int(m.group(2) or 0), int(m.group(3)) if m.group(3) else -1, m.group(1), m.group(5), m.group(4)))
    if ''.join(m.group(0) for m in re.finditer(r'%([-+ #0]*)(\d*)(?:\.(\d+))?(hh|h|ll|l|)([a-zA-Z%])|([^%]+)', f)) != f: raise Unsupported('format ' + f)
    return out

# ------------------------------------------------------------------ date -> MJD
class ToMjd(Part):
    """date2mjd_nf: requires the text yyyy-mm-ddThh:mm:ss of a Gregorian date; ensures result 0 and *mjd within half a second of the date"""
    prop = 'C07'; weight = 3
    def __init__(s): Part.__init__(s, 'date to MJD', ['date2mjd_nf'])
    def sscanf(s, vals, nr):
        want = [('Y', 4, 4), '-', ('M', 2, 2), '-', ('D', 2, 2), 'T', ('h', 2, 2), ':', ('m', 2, 2), ':', ('s', 2, 2)]
        def h(ex, st, a):
            ps = fmt(cstring(ex, a[1])); i = 0; outs = a[2:]
            if a[0].obj != 'text' or a[0].off != 0: raise Unsupported('sscanf of another text')
            left = [w if isinstance(w, str) else w for w in want]
            for p in ps:
                if isinstance(p, str):
                    for ch in p:
                        if not left or left[0] != ch: raise Unsupported('format literal %r' % p)
                        left.pop(0)
                else:
                    if p[3] != 'd' or p[4] or p[1] >= 0 or p[2] or not left or isinstance(left[0], str): raise Unsupported('format conversion')
                    if p[0] and p[0] < left[0][1]: raise Unsupported('field narrower than the text')
                    o = outs[i]; st.mem[o.obj][o.off] = vals[left[0][0]]; i += 1; left.pop(0)
            if i != len(outs) or left: raise Unsupported('format does not cover the text')
            return nr
        return h
    def prove(s, seed, tier):
        healpix.need  # (shared base)
        m = build.module('date2mjd_nf')
        if 'date2mjd_nf' not in m.fns: raise Unsupported('no function date2mjd_nf')
        y, d, h, mi, sec = z3.Ints('y d h mi sec')
        for mo in range(1, 13):
            for isleap in ((0, 1) if mo == 2 else (None,)):
                ex = ZExec(m, rounding=True, timeout=60000); ex.lattice = True; c = s.sscanf(dict(Y=y, M=mo, D=d, h=h, m=mi, s=sec), 6)
                for n in ('sscanf', '__isoc99_sscanf', '__isoc23_sscanf'): ex.contracts[n] = c
                lp = z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0)); ln = ML[mo - 1] + (isleap or 0)
                pc = [y >= 0, y <= 9999, d >= 1, d <= ln, h >= 0, h <= 23, mi >= 0, mi <= 59, sec >= 0, sec <= 59] + ([lp == bool(isleap)] if isleap is not None else [])
                yy = y if mo <= 2 else y + 1     # leap days before the month: those of the years before yy
                days = 365 * y + (yy + 3) / 4 - (yy + 99) / 100 + (yy + 399) / 400 + sum(ML[:mo - 1]) + d - 1
                st = St(); o = ex.obj(st, 'mjd'); dd = z3.Int('dd'); ex.aghosts = [z3.ToReal(dd) + zr(Fraction(4800001, 2))]
                pc.append(dd == days + MJD0)
                outs = ex.run([ex.start('date2mjd_nf', [Pt('text', 0), o], st, pc)])
                for q in outs:
                    x = q.mem[o.obj].get(0)
                    if x is None: s.obls.append((s.name + '/month %d: the result is written' % mo, 'failed', 'z3', '')); continue
                    e = (zr(x) - z3.ToReal(days + MJD0)) * 86400 - z3.ToReal(3600 * h + 60 * mi + sec)
                    s.decide(ex, q, zi(q.ret) == 0, 'month %d returns 0' % mo); 
                    c = z3.And(e < z3.Q(1, 2), e > -z3.Q(1, 2))
                    if y.get_id() not in variables(zr(x)) and dd.get_id() in variables(zr(x)):
                        # the day number is exact: the rest needs only its range
                        s.decide(ex, q, z3.And(dd >= MJD0, dd < MJD0 + NDAYS), 'month %d day number in range' % mo)
                        q = q.copy(); q.frames = []; q.pc = [k for k in q.pc if y.get_id() not in variables(k)] + [dd >= MJD0, dd < MJD0 + NDAYS]
                        c = z3.And((zr(x) - z3.ToReal(dd)) * 86400 - z3.ToReal(3600 * h + 60 * mi + sec) < z3.Q(1, 2), (zr(x) - z3.ToReal(dd)) * 86400 - z3.ToReal(3600 * h + 60 * mi + sec) > -z3.Q(1, 2))
                    s.decide(ex, q, c, 'month %d within half a second' % mo)
                    extra = [k for k in q.mem if k != o.obj and not k.split('#')[0] in [i[1] for b in m.fns['date2mjd_nf'].blocks.values() for i in b if i[0] == 'alloca']]
                    if set(q.mem[o.obj]) != {0}: s.obls.append((s.name + '/writes only the result', 'failed', 'frame', ''))
                s.close(ex, 'month %d' % mo, outs)
        nr = z3.Int('nr')
        ex = ZExec(m, rounding=True); c = s.sscanf(dict(Y=z3.Int('y'), M=z3.Int('m'), D=d, h=h, m=mi, s=sec), nr)
        for n in ('sscanf', '__isoc99_sscanf', '__isoc23_sscanf'): ex.contracts[n] = c
        st = St(); o = ex.obj(st, 'mjd'); outs = ex.run([ex.start('date2mjd_nf', [Pt('text', 0), o], st, [nr >= -1, nr < 6])])
        for q in outs: s.decide(ex, q, zi(q.ret) != 0, 'fewer than six numbers are refused')
        s.close(ex, 'refusal', outs)
    assume = ['libc: sscanf reads the fields of its format from the text and returns how many it read', 'double and float arithmetic round to nearest']
    def replay(s, bad): return search(7)

# ------------------------------------------------------------------ MJD -> date
def npeval(t, env, memo):
    k = t.get_id()
    if k in memo: return memo[k]
    if k in env: return env[k]
    c = [npeval(x, env, memo) for x in t.children()]
    if z3.is_int_value(t): r = np.int64(t.as_long())
    elif z3.is_true(t): r = np.bool_(True)
    elif z3.is_false(t): r = np.bool_(False)
    elif z3.is_add(t): r = sum(c[1:], c[0])
    elif z3.is_mul(t):
        r = c[0]
        for x in c[1:]: r = r * x
    elif z3.is_sub(t): r = c[0] - c[1]
    elif z3.is_app_of(t, z3.Z3_OP_UMINUS): r = -c[0]
    elif z3.is_idiv(t): r = c[0] // c[1]
    elif z3.is_mod(t): r = c[0] % c[1]
    elif z3.is_app_of(t, z3.Z3_OP_ITE): r = np.where(c[0], c[1], c[2])
    elif z3.is_le(t): r = c[0] <= c[1]
    elif z3.is_lt(t): r = c[0] < c[1]
    elif z3.is_ge(t): r = c[0] >= c[1]
    elif z3.is_gt(t): r = c[0] > c[1]
    elif z3.is_eq(t): r = c[0] == c[1]
    elif z3.is_not(t): r = ~c[0]
    elif z3.is_and(t):
        r = c[0]
        for x in c[1:]: r = r & x
    elif z3.is_or(t):
        r = c[0]
        for x in c[1:]: r = r | x
    else: raise Unsupported('term ' + str(t.decl()))
    memo[k] = r; return r
def variables(t):
    out = {}; seen = set(); st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[x.get_id()] = x
        st += x.children()
    return out

class FromMjd(Part):
    """mjd2date(mjd): ensures, for 0000-01-01 <= mjd < 10000-01-01, the fields of the calendar date of the nearest second (mjd2datef: of the
    instant cut to the millisecond), a string of 19 (23) characters, and a null pointer for every other value"""
    prop = 'C07'; weight = 10; limit = 850
    CASES = [('[%s,%s)' % (a, b), a, b, l) for a, b, l in ((0, .25, None), (.25, .5, 54), (.5, 1, 53), (1, 2, 52), (2, None, 51), (-.25, 0, None), (-.5, -.25, 54), (-1, -.5, 53), (None, -1, 52))]
    def __init__(s, fn, case):
        s.fn = fn; s.ms = fn.endswith('f'); s.case = case; Part.__init__(s, '%s (%s)' % (fn, FromMjd.CASES[case][0]), [fn])
    assume = ['libc: sprintf prints its arguments in the given format; fmod, floor are exact', 'double arithmetic rounds to nearest',
              'rounding next to a whole second is decided by running the compiled function on every double within 64 units of 2^-54 of each second of a day (native part)']
    def replay(s, bad): return search(7)
    def prove(s, seed, tier):
        m = build.module('mjd2date')
        if s.fn not in m.fns: raise Unsupported('no function ' + s.fn)
        H = Fraction(0.000005787037037037037e0) if not s.ms else Fraction(0)
        x = z3.Real('mjd'); v = x + zr(H)
        ex = ZExec(m, rounding=True, timeout=60000); ex.lattice = True; ex.marks = [zr(Fraction(q)) for q in (-2, -1, -.5, -.25, .25, .5, 1, 2)]
        rec = {}
        def sprintf(e, st, a, sized=False):
            if sized: a = [a[0]] + a[2:]
            ps = fmt(cstring(e, a[1])); fields = []; out = []; i = 2
            for p in ps:
                if isinstance(p, str): out += list(p)
                else:
                    if p[3] != 'd' or p[4] not in ('', 'l') or '-' in p[2] or '+' in p[2] or ' ' in p[2]: raise Unsupported('conversion in the date format')
                    w = max(p[0], p[1]); zero = p[1] >= w or '0' in p[2] and p[1] < 0
                    out.append((w, zero, a[i])); i += 1
            if i != len(a): raise Unsupported('arguments of the date format')
            st.rec = (a[0], out); return z3.Int('printed')
        ex.contracts = {'sprintf': sprintf, 'snprintf': lambda e, st, a: sprintf(e, st, a, True)}
        _, a, b, l = FromMjd.CASES[s.case]; facts = ([v >= zr(Fraction(a))] if a is not None else []) + ([v < zr(Fraction(b))] if b is not None else [])
        if s.ms and l is not None: ex.lats[x.get_id()] = l
        st0 = ex.start(s.fn, [x], pc=facts)
        outs = ex.run([st0]); s.close(ex, 'run', outs)
        Y, M, D = civil()
        inside = z3.And(v >= MJD0, v < MJD0 + NDAYS)
        for n, q in enumerate(outs):
            w = 'path %d ' % n
            Ks = {}
            for c in q.pc:
                vs = variables(c)
                if len(vs) == 1 and z3.is_int(list(vs.values())[0]): Ks.update(vs)
            if not isinstance(q.ret, Pt): raise Unsupported('result is not a pointer')
            args = q.rec[1] if q.rec else None
            if args is not None:
                dt = [t for t in args if not isinstance(t, str)]
                if len(dt) < 3: raise Unsupported('date fields')
                for t in dt[:3]:
                    if not isconc(t[2]): Ks.update({k: u for k, u in variables(t[2]).items()})
            Ks = {k: u for k, u in Ks.items() if not str(u).startswith('fmodq')}
            if q.ret.obj is None and not Ks:
                s.decide(ex, q, z3.Not(inside), w + 'refused only outside the years 0-9999'); continue
            cand = [u for u in Ks.values() if str(u).startswith('int!') or str(u).startswith('floor!')]
            pv = {}
            for c in q.pc: pv.update(variables(c))
            fm = [mm[1] for kk, mm in ex.memo.items() if kk[0] == 'fmod' and mm[1].get_id() in pv]
            off = None; why = ''
            for K in cand:
                # the day number: an integer variable whose calendar terms the path uses and which adds up to the instant with the fraction of the day
                if args is not None and any(set(variables(t[2])) - {K.get_id()} for t in dt[:3] if not isconc(t[2])): continue
                for r in fm[::-1]:
                    f = z3.If(r < 0, r + 1, r)
                    for j in (0, 1, -1, 2):
                        e = (z3.ToReal(K) + j - 2400001 + f - v) * 86400
                        c = z3.Implies(z3.And(x >= -3000000, x <= 3000000), z3.And(e < z3.Q(1, 10000), e > -z3.Q(1, 10000), f >= 0, f < 1))
                        if ex.unsat(q.pc, z3.Not(c)): off = j; break
                    if off is not None: break
                if off is not None: break
            if off is None: s.obls.append((s.name + '/' + w + 'day and fraction add up to the instant', 'undecided', 'z3', '')); continue
            s.ok(w + 'day and fraction add up to the instant (rounding included)', 'z3')
            loc = [c for c in q.pc if set(variables(c)) == {K.get_id()}]
            lo, hi = -2500000, 6000000                                             # day numbers (MJD)
            day = np.arange(lo, hi, dtype=np.int64); env = {K.get_id(): day + 2400001 - off}; memo = {}
            on = np.ones(len(day), bool)
            for c in loc: on = on & npeval(c, env, memo)
            ins = (day >= MJD0) & (day < MJD0 + NDAYS)
            def only(clause, good):
                good = good.copy()
                for sel in (day < MJD0, (day >= MJD0) & (day < MJD0 + NDAYS), day >= MJD0 + NDAYS):
                    bad = day[~good & sel]
                    if len(bad) and ex.unsat(q.pc, K >= int(bad.min()) + 2400001 - off, K <= int(bad.max()) + 2400001 - off): good = good | sel; s.ok(clause, 'z3')
                s.table(clause, good, day)
            if q.ret.obj is None:
                only(w + 'a null pointer only outside the years 0-9999', ~(on & ins)); continue
            only(w + 'a date only inside the years 0-9999', ~(on & ~ins))
            far = ex.unsat(loc, z3.Or(K >= hi + 2400001 - off, K < lo + 2400001 - off)) or ex.unsat(q.pc, z3.Or(K >= hi + 2400001 - off, K < lo + 2400001 - off))
            s.obls.append((s.name + '/' + w + 'no date beyond the enumerated days', 'ok' if far else 'undecided', 'z3', ''))
            sel = on & ins; ix = day[sel] - MJD0; env = {K.get_id(): env[K.get_id()][sel]}; memo = {}
            for t, name, want in zip(dt, ('year', 'month', 'day'), (Y, M, D)):
                s.table(w + name + ' of every day', npeval(zi(t[2]), env, memo) == want[ix], day[sel])
            # string
            lay = [t if isinstance(t, str) else (t[0], t[1] or i == 0) for i, t in enumerate(args)]
            want = [(4, True), '-', (2, True), '-', (2, True), 'T', (2, True), ':', (2, True), ':', (2, True)] + (['.', (3, True)] if s.ms else [])
            s.obls.append((s.name + '/' + w + 'layout of the string', 'ok' if lay == want else 'failed', 'structure', '' if lay == want else repr(lay)))
            L = 24 if s.ms else 20; g = q.rec[0]; size = m.ty.size(m.globals[g.obj[1:]][0]) if g.obj and g.obj.startswith('@') and g.obj[1:] in m.globals else None
            s.obls.append((s.name + '/' + w + 'the string fits its buffer', 'undecided' if size is None or not isconc(g.off) else 'ok' if size - g.off >= L else 'failed', 'structure', 'buffer of %s' % size))
            s.obls.append((s.name + '/' + w + 'returns the string', 'ok' if q.ret.obj == g.obj and isconc(q.ret.off) and q.ret.off == g.off else 'failed', 'structure', ''))
            # time of day
            if lay == want:
                hh, mi, se = [zi(t[2]) for t in dt[3:6]]; T = z3.Int('T'); u = z3.Real('u'); W = z3.Q(86400 * 64, 2 ** 54)
                pc = [f * 86400 == z3.ToReal(T) + u, u >= W, u <= 1 - W]
                for c, t in ((z3.And(hh >= 0, hh <= 23), 'hour 0-23'), (z3.And(mi >= 0, mi <= 59), 'minute 0-59'), (z3.And(se >= 0, se <= 59), 'second 0-59'), (3600 * hh + 60 * mi + se == T, 'time of day')):
                    s.decide(ex, q, c, w + t, hints=pc)
                if s.ms:
                    if all(o[1] == 'ok' for o in s.obls[-4:]): pc += [hh >= 0, hh <= 23, mi >= 0, mi <= 59, se >= 0, se <= 59, 3600 * hh + 60 * mi + se == T]
                    fs = zi(dt[6][2]); e = f * 86400000 - z3.ToReal(3600000 * hh + 60000 * mi + 1000 * se + fs)
                    s.decide(ex, q, z3.And(fs >= 0, fs <= 999), w + 'millisecond 0-999', hints=pc); s.decide(ex, q, z3.And(e > -z3.Q(1, 10 ** 6), e < 1 + z3.Q(1, 10 ** 6)), w + 'millisecond', hints=pc)
    def table(s, clause, ok, day):
        t = bool(np.all(ok)); s.evals += len(day)
        s.obls.append((s.name + '/' + clause, 'ok' if t else 'failed', 'exhaustive evaluation of the code term', '' if t else 'MJD %d' % int(day[np.argmin(ok)])))

# ------------------------------------------------------------------ native
def native():
    exe = build.tmp() + '/datefals'
    if not os.path.exists(exe):
        build.run(['gcc', '-O2', '-w', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'datefals.c')] + ['%s/%s.c' % (build.SRC, n) for n in build.allsrc()] + ['-o', exe, '-lm'])
    return exe
def call(seed, depth, part, of, timeout):
    r = subprocess.run([native(), str(seed), str(depth), str(part), str(of)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout)
    bad = []; n = 0
    for l in r.stdout.splitlines():
        if l.startswith('FAIL|'): _, c, i, g, w = l.split('|'); bad.append(dict(contract='calendar', clause=c, input=i, code=g, contract_value=w))
        mm = re.match(r'(\d+) evaluations', l)
        if mm: n = int(mm.group(1))
    if not r.stdout.strip().endswith('evaluations'): bad.append(dict(contract='calendar', clause='returns normally', input=r.stdout[-200:], code='exit code %d' % r.returncode, contract_value='normal return'))
    return bad, n
def search(seed):
    b, n = call(seed, 1, 0, 8, 300); return b[0] if b else None
class Native(Part):
    weight = 12
    def __init__(s, i, of): s.i, s.of = i, of; Part.__init__(s, 'compiled calendar functions, slice %d of %d' % (i, of), [])
    def prepare(s): native()
    def run(s, seed, tier):
        t = time.time(); bad, n = call(seed, 2 if tier == 'thorough' else 1, s.i, s.of, 2500 if tier == 'thorough' else 400)
        viol = [dict(b, obligation=[], replayed=True) for b in bad[:2]]
        return dict(obls=[], functions={}, violations=viol, solver={'native': time.time() - t}, evaluations=n, samples=[dict(part=s.name, evaluations=n)] if s.i == 0 else [], notes=[], bounded=[])
C07 = [Native(i, 8) for i in range(8)] + [ToMjd()] + [FromMjd(f, c) for f in ('mjd2date', 'mjd2datef') for c in range(9)]
