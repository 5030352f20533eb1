"""Contracts of the HEALPix library (C01 pixel numbering, C02 directions, C03 counts): integer kernels over z3 integers
and reals, order by order; bit kernels by CBMC; a native falsifier for replays."""
import os, subprocess, math, time, re
from fractions import Fraction
import z3
from vcg import build
from vcg.llir import Unsupported
from vcg.zexec import ZExec, St, isconc, zi, zr

SRC = build.HPX + '/chealpix.c'
JR = [2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4]; JP = [1, 3, 5, 7, 0, 2, 4, 6, 1, 3, 5, 7]     # ring and longitude of the face centres (Gorski et al. 2005)
P = Fraction(math.pi); CONSTS = {2 / math.pi: 2 / P, 2. / 3: Fraction(2, 3), 1. / 3: Fraction(1, 3)}
MAXK = {32: 13, 64: 29}
def sfx(bits): return '64' if bits == 64 else ''
def mod(): return build.module(SRC)
def need(*names):
    for n in names:
        if n not in mod().fns: raise Unsupported('no function ' + n)

# ------------------------------------------------------------------ contracts
def isqrt_contract(ex, st, a):
    """r = isqrt(v): requires v >= 0; ensures r >= 0, r*r <= v < (r+1)*(r+1) (proved by Isqrt below)"""
    v = zi(a[0]); st.pend.append((v >= 0, 'isqrt requires v >= 0')); ex.flush(st)
    r = ex.new('isqrt'); st.pc += [r >= 0, r * r <= v, v < (r + 1) * (r + 1)]
    for g in ex.isg: st.pc.append(z3.Implies(g >= 0, (g <= r) == (g * g <= v)))          # monotonicity of the square
    return r
def fmodulo_contract(ex, st, a):
    """fmodulo(v1,v2): requires v2 > 0; ensures 0 <= r < v2 and v1 - r is a multiple of v2 (proved by Modulo below)"""
    x, y = z3.simplify(zr(a[0])), z3.simplify(zr(a[1])); st.pend.append((y > 0, 'fmodulo requires v2 > 0')); ex.flush(st)
    kk = ('fmod', x.get_id(), y.get_id())
    if kk not in ex.memo: ex.memo[kk] = (ex.new('fmodq'), ex.new('fmod', True), x, y)
    k, r = ex.memo[kk][:2]; st.pc += [r >= 0, r < y, x == r + z3.ToReal(k) * y]
    for g in ex.fghosts:
        if ex.unsat(st.pc, r != g): return g
    return r
def region(n, f, reg):
    """symbolic pixel (ix,iy) of face f in a region -> (ix, iy, facts, ring number term, ghost ring radius)"""
    ix, nr = z3.Ints('ix nr')
    if reg == 'N': jr = nr; pc = [nr >= 1, nr < n]; before = 2 * nr * (nr - 1); ks = 0; N = nr
    elif reg == 'S': jr = 4 * n - nr; pc = [nr >= 1, nr < n]; before = 12 * n * n - 2 * (nr + 1) * nr; ks = 0; N = nr
    else:
        h, ks = z3.Ints('h ks'); jr = n + 2 * h + ks; pc = [ks >= 0, ks <= 1, h >= 0, jr <= 3 * n]; before = 2 * n * (n - 1) + (jr - n) * 4 * n; N = n
    iy = JR[f] * n - 1 - ix - jr
    pc += [ix >= 0, ix < n, iy >= 0, iy < n]
    t = z3.Int('t'); pc += [2 * t == JP[f] * N + ix - iy + 1 + ks]
    j = z3.If(t > 4 * n, t - 4 * n, z3.If(t < 1, t + 4 * n, t)) - 1 if reg == 'E' else t - 1
    return ix, iy, pc, before + j, N, j, jr, ks
def specring(n, f, ix, iy, e=0):
    """the ring number of pixel (ix,iy) of face f as one term (on the rings n and 3n the polar and the equatorial formulas coincide: e picks)"""
    jr = JR[f] * n - ix - iy - 1
    def fin(nr, before, ks):
        t = (JP[f] * nr + ix - iy + 1 + ks) / 2
        return before + z3.If(t > 4 * n, t - 4 * n, z3.If(t < 1, t + 4 * n, t)) - 1
    return z3.If(jr < n + e, fin(jr, 2 * jr * (jr - 1), 0), z3.If(jr > 3 * n - e, fin(4 * n - jr, 12 * n * n - 2 * (4 * n - jr + 1) * (4 * n - jr), 0), fin(n, 2 * n * (n - 1) + (jr - n) * 4 * n, (jr - n) % 2)))
def interleave(k, ix, iy, f):
    v = f << (2 * k)
    for i in range(k): v |= ((ix >> i & 1) << (2 * i)) | ((iy >> i & 1) << (2 * i + 1))
    return v

# ------------------------------------------------------------------ base of the parts
class Part:
    weight = 1; limit = 800
    def __init__(s, name, fns): s.name = name; s.fns = fns
    def label(s): return s.name
    def prepare(s): mod(); native()
    def run(s, seed, tier):
        s.obls = []; s.cands = []; s.solver = {}; s.viol = []; s.notes = []; s.evals = 0; s.sq = 0; t = time.time()
        try: s.prove(seed, tier)
        except Unsupported as e: s.obls.append((s.name + '/proof', 'undecided', 'engine', str(e)[:300]))
        bad = [o for o in s.obls if o[1] == 'failed']
        if bad:
            w = s.replay(bad)
            if w: s.viol.append(dict(w, obligation=[o[0] for o in bad][:5], replayed=True))
            else: s.viol.append(dict(contract=s.name, clause=bad[0][0], input=bad[0][3], code='the prover has a counterexample', contract_value='', obligation=[o[0] for o in bad][:10], replayed=False))
        fns = {f: dict(contract=s.name, obligations=len(s.obls)) for f in s.fns}
        return dict(obls=s.obls, functions=fns, violations=s.viol, solver=s.solver, notes=s.notes, evaluations=s.evals, assumptions=s.assume)
    assume = ['libm: sqrt is correctly rounded; cos, sin, acos, atan2 are the mathematical functions']
    def ok(s, clause, how, n=1): s.obls += [(s.name + '/' + clause, 'ok', how, '')] * n
    def decide(s, ex, st, cond, clause, hints=(), sub=()):
        """one obligation of a path; sub: variables with a value known on the path"""
        t = time.time(); alt = []
        if isinstance(cond, list): cond, alt = cond[0], cond[1:]
        c = zbool(cond); pc = st.pc + list(hints)
        if sub: pc = [z3.substitute(x, *sub) for x in pc] + [a == b for a, b in sub]; c = z3.substitute(c, *sub)
        r, m = (z3.unsat, None) if ex.unsat(pc, z3.Not(c)) or any(ex.unsat(pc, z3.Not(z3.substitute(a, *sub) if sub else a)) for a in alt) else ex.check(pc, z3.Not(c))
        s.solver['z3'] = s.solver.get('z3', 0) + time.time() - t
        s.obls.append((s.name + '/' + clause, 'ok' if r == z3.unsat else 'failed' if r == z3.sat else 'undecided', 'z3', str(m)[:600] if m is not None else ''))
        if m is not None: s.cands.append(m)
    def close(s, ex, where, outs):
        """safety obligations gathered by the executor"""
        s.ok(where + '/no overflow, division by zero, bad index', 'z3', max(0, ex.nobl - len(ex.failed) - len(ex.undecided)))
        for w, m, _ in ex.failed: s.obls.append((s.name + '/' + where + ' ' + w, 'failed', 'z3', str(m)[:600])); s.cands.append(m)
        for w in ex.undecided: s.obls.append((s.name + '/' + where + ' ' + w, 'undecided', 'z3', ''))
        if not outs and not ex.failed: s.obls.append((s.name + '/' + where + ' no path returns', 'undecided', 'z3', ''))
        s.solver['z3'] = s.solver.get('z3', 0) + ex.solver_s
    def replay(s, bad):
        return native_search(s.prop, s.name, 7, 1)
def zbool(c): return z3.BoolVal(c) if isinstance(c, bool) else c

# ------------------------------------------------------------------ C01
class RingOrder(Part):
    """nest2ring and ring2nest of one order: ring2nest(nest2ring(p)) = p for every pixel, the ring numbers are distinct and in range"""
    prop = 'C01'
    def __init__(s, bits, k):
        s.bits, s.k = bits, k; Part.__init__(s, 'rings%s/order %d' % (sfx(bits), k), ['nest2ring' + sfx(bits), 'ring2nest' + sfx(bits)])
    def prove(s, seed, tier):
        n = 1 << s.k; x = sfx(s.bits); need('xyf2nest' + x, 'nest2xyf' + x, 'isqrt' + x, 'nest2ring' + x, 'ring2nest' + x)
        for f in range(12):
            for reg in 'NES':
                if reg == 'N' and f > 3 or reg == 'S' and f < 8 or n == 1 and reg != 'E': continue
                ix, iy, pc, p, nr, j, jr, ks = region(n, f, reg)
                ex = ZExec(mod(), timeout=60000); ex.isg = []
                if ex.check(pc)[0] == z3.unsat: continue
                w = 'face %d %s' % (f, reg)
                # nested -> ring; contract of nest2xyf: the pixel number is the interleaved one, so its decoding is (ix,iy,f)
                pn, pr = z3.Ints('pnest pring')
                def dec(e, st, a):
                    s.argcheck(e, st, a[:2], [n, pn], w)
                    for q, v in zip(a[2:], (ix, iy, f)): st.mem[q.obj][q.off] = v
                ex.contracts = {'nest2xyf' + x: dec}
                st = St(); o = ex.obj(st, 'out'); base = pc + [pn >= 0, pn < 12 * n * n]
                outs = ex.run([ex.start('nest2ring' + x, [n, pn, o], st, base)])
                for q in outs: s.decide(ex, q, z3.And(zi(q.mem[o.obj].get(0, -7)) == p, p >= 0, p < 12 * n * n), 'nest2ring %s = ring formula, in [0,12n^2)' % w)
                s.close(ex, 'nest2ring ' + w, outs)
                # ring -> nested
                ex = ZExec(mod(), timeout=60000); ex.isg = [2 * nr - 1, 2 * nr + 1]; ex.ghosts = [] if isconc(nr) else [nr]
                def enc(e, st, a):
                    s.argcheck(e, st, a, [n, ix, iy, f], w); return pn
                ex.contracts = {'isqrt' + x: isqrt_contract, 'xyf2nest' + x: enc}
                st = St(); o = ex.obj(st, 'out')
                outs = ex.run([ex.start('ring2nest' + x, [n, pr, o], st, base + [pr == p])])
                for q in outs: s.decide(ex, q, zi(q.mem[o.obj].get(0, -7)) == pn, 'ring2nest %s inverts nest2ring' % w)
                s.close(ex, 'ring2nest ' + w, outs)
    def argcheck(s, ex, st, got, want, w):
        for i, (a, b) in enumerate(zip(got, want)): s.decide(ex, st, zi(a) == zi(b), '%s argument %d of the bit kernel' % (w, i))

def cbmc(name, code, args):
    f = '%s/%s.c' % (build.tmp(), re.sub(r'\W', '_', name)); open(f, 'w').write(code)
    r = subprocess.run(['cbmc', f, '-I' + build.HPX, '-I' + build.SRC, '--function', 'harness', '--unwinding-assertions', '--trace', '--drop-unused-functions'] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    o = r.stdout
    res = re.findall(r'^\[(\S+)\] (.*): (SUCCESS|FAILURE|UNKNOWN)$', o, re.M)
    if r.returncode not in (0, 10) or not res: raise Unsupported('cbmc: ' + o[-300:])
    return res, o

class Kernels(Part):
    """xyf2nest and nest2xyf: bit interleaving and its inverse, for all ix, iy, faces of every order"""
    prop = 'C01'; weight = 20
    def __init__(s, bits): s.bits = bits; Part.__init__(s, 'bit kernels%s' % sfx(bits), ['xyf2nest' + sfx(bits), 'nest2xyf' + sfx(bits)])
    def prove(s, seed, tier):
        x = sfx(s.bits); need('xyf2nest' + x, 'nest2xyf' + x)
        if [str(p[0]) for p in mod().fns['xyf2nest' + x].params] != [str(('i', s.bits if i == 0 else 32)) for i in range(4)] or len(mod().fns['nest2xyf' + x].params) != 5: raise Unsupported('signature of the bit kernels')
        for k in range(MAXK[s.bits] + 1):
            code = '#include <stdint.h>\n#include "%s"\ntypedef int64_t I; int nondet_int(void);\nvoid harness(void){I n=(I)1<<%d; int ix=nondet_int(),iy=nondet_int(),f=nondet_int();\n' % (SRC, k) + \
              '__CPROVER_assume(ix>=0&&ix<n&&iy>=0&&iy<n&&f>=0&&f<12); I want=(I)f<<%d; int a=0,b=0,c=0;\n' % (2 * k) + ''.join('want|=((I)((ix>>%d)&1)<<%d)|((I)((iy>>%d)&1)<<%d);\n' % (i, 2 * i, i, 2 * i + 1) for i in range(k)) + \
              'I p=xyf2nest%s(n,ix,iy,f); __CPROVER_assert(p==want,"interleave"); nest2xyf%s(n,want,&a,&b,&c); __CPROVER_assert(a==ix&&b==iy&&c==f,"inverse");}\n' % (x, x)
            t = time.time(); res, out = cbmc('kern%s_%d' % (x, k), code, ['--unwind', '70', '--bounds-check', '--pointer-check', '--signed-overflow-check', '--div-by-zero-check'])
            s.solver['cbmc'] = s.solver.get('cbmc', 0) + time.time() - t
            for i, d, r in res: s.obls.append(('%s/order %d %s' % (s.name, k, i), 'ok' if r == 'SUCCESS' else 'failed' if r == 'FAILURE' and 'unwinding' not in d else 'undecided', 'cbmc', d if r == 'SUCCESS' else d + ' ' + ' '.join('%s=%s' % (v, q) for v, q in re.findall(r'^  (ix|iy|f|p|want|a|b|c)=(-?\d+)', out, re.M))[:300]))

class Refuse(Part):
    prop = 'C01'; weight = 5
    def __init__(s): Part.__init__(s, 'refusal of other nside', ['nest2ring', 'ring2nest', 'nest2ring64', 'ring2nest64'])
    def prove(s, seed, tier):
        need('nest2ring', 'ring2nest', 'nest2ring64', 'ring2nest64')
        code = '#include <stdint.h>\n#include "%s"\nlong nondet_long(void);\nvoid harness(void){long n=nondet_long(),p=nondet_long(),r=0; int64_t r6=0;\n__CPROVER_assume(n>=1&&n<=(1L<<29)&&(n&(n-1))!=0&&p>=0&&p<12*n*n);\n' % SRC + \
          'nest2ring64(n,p,&r6); __CPROVER_assert(r6==-1,"nest2ring64 refuses"); r6=0; ring2nest64(n,p,&r6); __CPROVER_assert(r6==-1,"ring2nest64 refuses");\n__CPROVER_assume(n<=8192&&p<12*n*n);\n' + \
          'nest2ring(n,p,&r); __CPROVER_assert(r==-1,"nest2ring refuses"); r=0; ring2nest(n,p,&r); __CPROVER_assert(r==-1,"ring2nest refuses");}\n'
        t = time.time(); res, out = cbmc('refuse', code, ['--unwind', '70']); s.solver['cbmc'] = time.time() - t
        for i, d, r in res:
            if 'refuses' in d: s.obls.append(('%s/%s' % (s.name, d), 'ok' if r == 'SUCCESS' else 'failed', 'cbmc', '' if r == 'SUCCESS' else ' '.join('%s=%s' % (v, q) for v, q in re.findall(r'^  (n|p)=(-?\d+)', out, re.M))[:300]))

class Isqrt(Part):
    """isqrt is the exact floor of the square root, rounding of double arithmetic included"""
    def __init__(s, bits, prop): s.bits = bits; s.prop = prop; Part.__init__(s, 'isqrt' + sfx(bits), ['isqrt' + sfx(bits)])
    def prove(s, seed, tier):
        x = sfx(s.bits); need('isqrt' + x)
        ex = ZExec(mod(), rounding=True, timeout=120000); v = z3.Int('v'); lim = 2 ** 31 - 1 if s.bits == 32 else 24 * 4 ** 29
        outs = ex.run([ex.start('isqrt' + x, [v], pc=[v >= 0, v <= lim])])
        for o in outs:
            r = zi(o.ret)
            for c, t in ((r >= 0, 'result >= 0'), (r * r <= v, 'r^2 <= v'), (v < (r + 1) * (r + 1), 'v < (r+1)^2')): s.decide(ex, o, c, t)
        s.close(ex, 'isqrt', outs)

# ------------------------------------------------------------------ C03
class Count(Part):
    prop = 'C03'
    def __init__(s, bits): s.bits = bits; Part.__init__(s, 'pixel count%s' % sfx(bits), ['nside2npix' + sfx(bits), 'npix2nside' + sfx(bits)])
    def prove(s, seed, tier):
        x = sfx(s.bits); need('isqrt' + x, 'nside2npix' + x, 'npix2nside' + x)
        n = z3.Int('n'); lim = 8192 if s.bits == 32 else 2 ** 29
        ex = ZExec(mod(), timeout=60000); ex.isg = []
        outs = ex.run([ex.start('nside2npix' + x, [n], pc=[n >= 1, n <= lim])])
        for o in outs: s.decide(ex, o, zi(o.ret) == 12 * n * n, 'nside2npix = 12 n^2')
        s.close(ex, 'nside2npix', outs)
        top = 2 ** 31 - 1 if s.bits == 32 else 12 * 4 ** 29 * 2
        N, m = z3.Ints('npix m')
        ex = ZExec(mod(), timeout=60000, ghosts=[]); ex.isg = [m, m + 1]; ex.contracts = {'isqrt' + x: isqrt_contract}
        outs = ex.run([ex.start('npix2nside' + x, [N], pc=[N == 12 * m * m, m >= 0, N <= top])])
        for o in outs: s.decide(ex, o, zi(o.ret) == m, 'npix2nside(12 m^2) = m')
        s.close(ex, 'npix2nside of a count', outs)
        ex = ZExec(mod(), timeout=60000, ghosts=[]); ex.isg = []; ex.contracts = {'isqrt' + x: isqrt_contract}
        outs = ex.run([ex.start('npix2nside' + x, [N], pc=[N >= 0, N <= top])])
        for o in outs: r = zi(o.ret); s.decide(ex, o, z3.Or(r == -1, z3.And(r >= 0, 12 * r * r == N)), 'npix2nside is a valid resolution or -1')
        s.close(ex, 'npix2nside', outs)

# ------------------------------------------------------------------ C02
def lemma_polar():
    """jp <= t m < jp+1, jm <= (1-t) m < jm+1, 0 <= t < 1  =>  jp <= t (jp+jm+1) < jp+1"""
    a, b, t, m = z3.Reals('a b t m'); so = z3.Solver(); so.set('timeout', 60000)
    so.add(a <= t * m, t * m < a + 1, b <= (1 - t) * m, (1 - t) * m < b + 1, t >= 0, t < 1, a >= 0, b >= 0, z3.Not(z3.And(a <= t * (a + b + 1), t * (a + b + 1) < a + 1)))
    return so.check() == z3.unsat
def som(e): return z3.simplify(e, som=True)
class Directions(Part):
    """ang2pix_*_z_phi: for every z in [-1,1] and every longitude the nested and the ring answer are the pixel that contains the direction"""
    prop = 'C02'
    def __init__(s, bits, k, withs=False):
        s.bits, s.k, s.withs = bits, k, withs; x = sfx(bits); Part.__init__(s, 'directions%s%s/order %d' % (x, ' with sin(theta)' if withs else '', k), ['ang2pix_nest_z_phi' + x, 'ang2pix_ring_z_phi' + x])
    def prove(s, seed, tier):
        n = 1 << s.k; x = sfx(s.bits); need('ang2pix_nest_z_phi' + x, 'ang2pix_ring_z_phi' + x, 'xyf2nest' + x)
        ok = lemma_polar(); s.obls.append((s.name + '/lemma: column of the ring from the edge-line indices', 'ok' if ok else 'undecided', 'z3', ''))
        ex = ZExec(mod(), timeout=30000); ex.consts = CONSTS; ex.isg = []; ex.qbounds = [n]; ex.ftime = 300
        def enc(e, st, a): st.rec = a; return z3.Int('pnest')
        ex.contracts = {'xyf2nest' + x: enc}
        if has_fmodulo(): ex.contracts['fmodulo'] = fmodulo_contract
        z, phi, sth = z3.Reals('z phi sth'); st = St(); st.pc = [z >= -1, z <= 1] + ([sth >= 0, sth * sth == 1 - z * z] if s.withs else [])
        args = [n, z] + ([sth if s.withs else Fraction(-5)] if s.bits == 64 else []) + [phi]
        outs = ex.run([ex.start('ang2pix_nest_z_phi' + x, args, st)])
        for o in outs:
            if o.rec is None: raise Unsupported('the nested answer does not come from xyf2nest')
            nn, ix, iy, f = o.rec; ix, iy = zi(ix), zi(iy)
            s.decide(ex, o, z3.And(zi(nn) == n, zi(o.ret) == z3.Int('pnest')), 'nested answer is the pixel (ix,iy,face)')
            hints = s.hints(ex, o, n, z, sth)
            s.decide(ex, o, z3.And(ix >= 0, ix < n, iy >= 0, iy < n), 'ix, iy in [0,n)', hints)
            fs = [f] if isconc(f) else ex.values(o, f, 12)
            for ff in fs:
                if not 0 <= ff < 12: s.obls.append((s.name + '/face number', 'failed', 'z3', str(ff))); continue
                q0 = o.copy(); q0.halt = None; q0.ret = None; sub = []
                if not isconc(f):
                    q0.pc.append(zi(f) == ff)
                    for _, k0, tt in s.ints(ex):
                        if ex.check(q0.pc, k0 != ff % 4, timeout=1000)[0] == z3.unsat: sub.append((k0, z3.IntVal(ff % 4)))
                for q in ex.run([ex.start('ang2pix_ring_z_phi' + x, args, q0)]):
                    hints = s.hints(ex, q, n, z, sth)
                    s.decide(ex, q, [zi(q.ret) == specring(n, ff, ix, iy), zi(q.ret) == specring(n, ff, ix, iy, 1)], 'ring answer is the same pixel', hints, sub)
            s.inside(ex, o, n, z, phi, sth, ix, iy, f, fs)
        s.close(ex, 'directions', outs)
    def ints(s, ex): return [(k[0], v[0], v[1]) for k, v in ex.memo.items() if k[0] in ('int',)]
    def hints(s, ex, st, n, z, sth):
        """instances of lemma_polar for the quantities the code computes"""
        out = []; I = s.ints(ex); sq = [(v[0], v[1]) for k, v in ex.memo.items() if k[0] == 'sqrt']
        fm = [v[1] for k, v in ex.memo.items() if k[0] == 'fmod']
        ms = [n * y for y, _ in sq] if not s.withs else [v[0] for k, v in ex.memo.items() if k[0] == 'quot']
        for m in ms:
            for _, k0, tt in I:
                if not any(str(v) in str(tt) for v in fm) and 'phi' not in str(tt): continue
                t = tt - z3.ToReal(k0)
                for _, a, ea in I:
                    if not z3.is_true(z3.simplify(som(ea - t * m) == 0)): continue
                    for _, b, eb in I:
                        if not z3.is_true(z3.simplify(som(eb - (1 - t) * m) == 0)): continue
                        A, B = z3.ToReal(a), z3.ToReal(b)
                        out.append(z3.Implies(z3.And(A <= ea, ea < A + 1, B <= eb, eb < B + 1, t >= 0, t < 1, A >= 0, B >= 0), z3.And(A <= som(t * (A + B + 1)), som(t * (A + B + 1)) < A + 1)))
        return out
    def inside(s, ex, o, n, z, phi, sth, ix, iy, f, fs): pass

class Modulo(Part):
    """contract of fmodulo"""
    prop = 'C02'
    def __init__(s): Part.__init__(s, 'fmodulo', ['fmodulo'])
    def prove(s, seed, tier):
        if not has_fmodulo(): return
        ex = ZExec(mod(), timeout=30000); ex.isg = []; v1, v2 = z3.Reals('v1 v2')
        outs = ex.run([ex.start('fmodulo', [v1, v2], pc=[v2 > 0])])
        for o in outs:
            r = zr(o.ret); ks = [v[0] for k, v in ex.memo.items() if k[0] == 'fmod']
            s.decide(ex, o, z3.And(r >= 0, r < v2), '0 <= r < v2')
            s.decide(ex, o, z3.Or(r == v1, *[v1 - r == (z3.ToReal(k) + d) * v2 for k in ks for d in (-1, 0, 1)]), 'v1 - r is a multiple of v2')
        s.close(ex, 'fmodulo', outs)
def has_fmodulo():
    f = mod().fns.get('fmodulo'); return f is not None and [str(p[0]) for p in f.params] == ["('f', 64)"] * 2 if False else f is not None and len(f.params) == 2
class Centres(Part):
    """pix2ang_*_z_phi: the centre of every pixel, and its way back"""
    prop = 'C02'
    def __init__(s, bits, k): s.bits, s.k = bits, k; x = sfx(bits); Part.__init__(s, 'centres%s/order %d' % (x, k), ['pix2ang_ring_z_phi' + x, 'pix2ang_nest_z_phi' + x, 'ang2pix_ring_z_phi' + x])
    def prove(s, seed, tier):
        n = 1 << s.k; x = sfx(s.bits); b64 = s.bits == 64; need('pix2ang_ring_z_phi' + x, 'pix2ang_nest_z_phi' + x, 'ang2pix_ring_z_phi' + x, 'isqrt' + x, 'nest2xyf' + x)
        for f in range(12):
            for reg in 'NES':
                if reg == 'N' and f > 3 or reg == 'S' and f < 8 or n == 1 and reg != 'E': continue
                ix, iy, pc, p, nr, j, jr, ks = region(n, f, reg)
                ex = ZExec(mod(), timeout=30000); ex.consts = CONSTS; ex.isg = [2 * nr - 1, 2 * nr + 1]; ex.ghosts = [jr - n, j, j + 1] if isconc(nr) else [nr, j + 1]; ex.gall = True
                if ex.check(pc)[0] == z3.unsat: continue
                w = 'face %d %s' % (f, reg); pn, pr = z3.Ints('pnest pring')
                R = z3.ToReal(nr) if not isconc(nr) else z3.RealVal(n)
                if reg == 'E': cz = z3.ToReal(2 * n - jr) * Fraction(2, 3 * n).limit_denominator() if False else z3.ToReal(2 * n - jr) * z3.Q(2, 3 * n)
                else: cz = (1 - R * R * z3.Q(1, 3 * n * n)) * (1 if reg == 'N' else -1)
                off = z3.ToReal(j) + (z3.Q(1, 2) if reg != 'E' else z3.If(ks == 0, z3.Q(1, 2), z3.RealVal(0)))     # longitude in steps of pi/(2 nr)
                cphiR = off * zr(P / 2)                                                                              # longitude times nr
                def dec(e, st, a):
                    s.decide(e, st, z3.And(zi(a[0]) == n, zi(a[1]) == pn), w + ' arguments of nest2xyf')
                    for q, v in zip(a[2:], (ix, iy, f)): st.mem[q.obj][q.off] = v
                ex.contracts = {'isqrt' + x: isqrt_contract, 'nest2xyf' + x: dec}
                for fn, num in (('pix2ang_ring_z_phi', pr), ('pix2ang_nest_z_phi', pn)):
                    st = St(); o = [ex.obj(st, t) for t in (('z', 's', 'phi') if b64 else ('z', 'phi'))]
                    outs = ex.run([ex.start(fn + x, [n, num] + o, st, pc + [pr == p])])
                    for q in outs:
                        m = [q.mem[a.obj].get(a.off) for a in o]
                        if any(v is None for v in m): s.obls.append((s.name + '/%s %s result not set' % (fn, w), 'failed', 'z3', '')); continue
                        s.decide(ex, q, zr(m[0]) == cz, '%s %s z' % (fn, w))
                        s.decide(ex, q, zr(m[-1]) * R == cphiR, '%s %s longitude' % (fn, w))
                        s.decide(ex, q, z3.And(cphiR >= 0, cphiR < R * zr(2 * P), cz <= 1, cz >= -1), '%s %s in range' % (fn, w))
                        if b64: v = zr(m[1]); s.decide(ex, q, z3.Or(v <= -2, z3.And(v >= 0, v * v == 1 - cz * cz)), '%s %s sin(theta)' % (fn, w))
                    s.close(ex, fn + ' ' + w, outs); ex.failed = []; ex.undecided = []; ex.nobl = 0; ex.memo = {}
        # the way back, ring by ring: j = q nr + jj
        x32 = Fraction(1, 3 * n * n)
        for reg in 'NES':
            if n == 1 and reg != 'E': continue
            for withs in ((False, True) if b64 and reg != 'E' else (False,)):
                for Q in range(4):
                    nr, jj, i, kk = z3.Ints('nr jj i kk'); u, sth = z3.Reals('u sth')
                    if reg == 'E':
                        pc = [i >= 0, i <= 2 * n, kk >= 0, kk <= 1, jj >= 0, jj < n]; h = z3.Int('h'); pc.append(i == 2 * h + kk)
                        z = z3.ToReal(n - i) * z3.Q(2, 3 * n); off = z3.ToReal(jj) + z3.If(kk == 0, z3.Q(1, 2), z3.RealVal(0))
                        pc += [u * n == off]; p = 2 * n * (n - 1) + i * 4 * n + Q * n + jj
                    else:
                        R = z3.ToReal(nr); pc = [nr >= 1, nr < n, jj >= 0, jj < nr, u * R == z3.ToReal(jj) + z3.Q(1, 2), u > 0, u < 1]
                        z = (1 - R * R * zr(x32)) * (1 if reg == 'N' else -1)
                        p = 2 * nr * (nr - 1) + Q * nr + jj if reg == 'N' else 12 * n * n - 2 * nr * (nr + 1) + Q * nr + jj
                        if withs: pc += [sth >= 0, sth * sth == 1 - z * z]
                    ex = ZExec(mod(), timeout=30000); ex.consts = CONSTS; ex.isg = []
                    if reg != 'E':
                        ex.sghosts = [R / n]; ex.rghosts = []
                        if withs:
                            # sin(theta)/sqrt((1+|z|)/3) = nr/n
                            y = z3.Real('y2'); t = R * R * zr(x32); pc += [y > 0, y * y == (2 - t) / 3, sth == y * R / n]; ex.sghosts = [R / n, y]; ex.rghosts = [R, R / n]
                    phi = (Q + u) * zr(P / 2); ex.fghosts = [phi]
                    ex.gall = True
                    if reg == 'E': ex.ghosts = [Q * n + jj]
                    if reg != 'E': ex.ighosts = [z3.IntVal(Q), jj, nr - jj - 1]
                    if has_fmodulo(): ex.contracts['fmodulo'] = fmodulo_contract
                    args = [n, z] + ([sth if withs else Fraction(-5)] if b64 else []) + [phi]
                    outs = ex.run([ex.start('ang2pix_ring_z_phi' + x, args, pc=pc)])
                    for q in outs: s.decide(ex, q, zi(q.ret) == p, 'centre of region %s quadrant %d maps back' % (reg, Q))
                    s.close(ex, 'way back %s %d' % (reg, Q), outs)
            if b64 and reg == 'N' : 
                y, S, t, r = z3.Reals('y S t r'); so = z3.Solver(); so.set('timeout', 30000)
                so.add(y > 0, S >= 0, r > 0, t == r * r / 3, t < 1, y * y == (2 - t) / 3, S * S == t * (2 - t), S != y * r)
                s.obls.append((s.name + '/lemma: sin(theta) of a ring centre', 'ok' if so.check() == z3.unsat else 'undecided', 'z3', ''))

class Wrappers(Part):
    """the public angle and vector forms hand the right z, longitude and sin(theta) to the kernels and turn their answers into angles and unit vectors"""
    prop = 'C02'
    def __init__(s): Part.__init__(s, 'angle and vector forms', ['%s2pix_%s%s' % (a, b, c) for a in ('ang', 'vec') for b in ('ring', 'nest') for c in ('', '64')] + ['pix2%s_%s%s' % (a, b, c) for a in ('ang', 'vec') for b in ('ring', 'nest') for c in ('', '64')] + ['ang2vec', 'vec2ang'])
    def prove(s, seed, tier):
        n, p = z3.Ints('n p'); th, ph = z3.Reals('theta phi'); C, S, AC = (z3.Function('uf_' + f, z3.RealSort(), z3.RealSort()) for f in ('cos', 'sin', 'acos')); AT = ZExec.ATAN2
        V = z3.Reals('v0 v1 v2'); L2 = V[0] * V[0] + V[1] * V[1] + V[2] * V[2]
        trig = lambda a: C(a) * C(a) + S(a) * S(a) == 1
        for x in ('', '64'):
            lim = 8192 if not x else 2 ** 29
            for sch in ('ring', 'nest'):
                kn = 'ang2pix_%s_z_phi%s' % (sch, x); need(kn)
                rec = []
                def hk(e, st, a): rec.append((e, st.copy(), a)); return z3.Int('pix')
                for form in ('ang', 'vec'):
                    fn = '%s2pix_%s%s' % (form, sch, x); need(fn); rec.clear()
                    ex = ZExec(mod(), timeout=30000); ex.consts = CONSTS; ex.contracts = {kn: hk}; ex.isg = []
                    st = St(); o = ex.obj(st, 'pix'); v = ex.obj(st, 'vec')
                    for i in range(3): st.mem[v.obj][8 * i] = V[i]
                    pc = [n >= 1, n <= lim, trig(th)] + ([th >= 0, th <= zr(P), S(th) >= 0] if form == 'ang' else [L2 > 0])
                    outs = ex.run([ex.start(fn, [n, th, ph, o] if form == 'ang' else [n, v, o], st, pc)])
                    for q in outs: s.decide(ex, q, zi(q.mem[o.obj].get(0, -9)) == z3.Int('pix'), fn + ' returns the kernel answer')
                    for e, q, a in rec:
                        z, pp = zr(a[1]), zr(a[-1]); L = z3.Real('len'); q.pc += [L > 0, L * L == L2]
                        if form == 'ang': s.decide(ex, q, z3.And(zi(a[0]) == n, z == C(th), pp == ph), fn + ' hands on n, cos(theta), phi')
                        else: s.decide(ex, q, z3.And(zi(a[0]) == n, z * L == V[2], pp == AT(V[1], V[0])), fn + ' hands on n, z/|v|, atan2(y,x)')
                        if x:
                            t = zr(a[2]); s.decide(ex, q, z3.Or(t <= -2, z3.And(t >= 0, t * t == 1 - z * z)), fn + ' hands on sin(theta) or nothing')
                        for c, d in ((z >= -1, 'z >= -1'), (z <= 1, 'z <= 1')): s.decide(ex, q, c, fn + ' ' + d)
                    s.close(ex, fn, outs)
                kn = 'pix2ang_%s_z_phi%s' % (sch, x); need(kn)
                for withs in ((False, True) if x else (False,)):
                    Z, F, T = z3.Reals('Z F T')
                    def hp(e, st, a):
                        s.decide(e, st, z3.And(zi(a[0]) == n, zi(a[1]) == p), 'pix2*_%s%s hands on n and the pixel' % (sch, x))
                        vals = [Z, T if withs else Fraction(-5), F] if x else [Z, F]
                        for q, v in zip(a[2:], vals): st.mem[q.obj][q.off] = v
                    base = [n >= 1, n <= lim, p >= 0, p < 12 * n * n, Z >= -1, Z <= 1, trig(F)] + ([T >= 0, T * T == 1 - Z * Z] if withs else [])
                    ex = ZExec(mod(), timeout=30000); ex.consts = CONSTS; ex.contracts = {kn: hp}; st = St(); o1, o2 = ex.obj(st, 'theta'), ex.obj(st, 'phi')
                    fn = 'pix2ang_%s%s' % (sch, x); need(fn)
                    outs = ex.run([ex.start(fn, [n, p, o1, o2], st, base)])
                    for q in outs:
                        t, f = q.mem[o1.obj].get(0), q.mem[o2.obj].get(0)
                        s.decide(ex, q, z3.And(z3.Or(zr(t) == AC(Z), zr(t) == AT(T, Z)) if withs else zr(t) == AC(Z), zr(f) == F), fn + ' theta = acos(z), phi')
                    s.close(ex, fn, outs)
                    ex = ZExec(mod(), timeout=30000); ex.consts = CONSTS; ex.contracts = {kn: hp}; st = St(); o = ex.obj(st, 'vec'); fn = 'pix2vec_%s%s' % (sch, x); need(fn)
                    outs = ex.run([ex.start(fn, [n, p, o], st, base)])
                    for q in outs:
                        v = [zr(q.mem[o.obj].get(8 * i, 0)) for i in range(3)]; st_ = z3.Real('st'); q.pc += [st_ >= 0, st_ * st_ == 1 - Z * Z]
                        s.decide(ex, q, z3.And(v[2] == Z, v[0] == st_ * C(F), v[1] == st_ * S(F)), fn + ' is the unit vector of the centre')
                    s.close(ex, fn, outs)
        need('ang2vec', 'vec2ang'); ex = ZExec(mod()); st = St(); o = ex.obj(st, 'vec')
        outs = ex.run([ex.start('ang2vec', [th, ph, o], st)])
        for q in outs: v = [zr(q.mem[o.obj].get(8 * i, 0)) for i in range(3)]; s.decide(ex, q, z3.And(v[0] == S(th) * C(ph), v[1] == S(th) * S(ph), v[2] == C(th)), 'ang2vec')
        s.close(ex, 'ang2vec', outs)
        ex = ZExec(mod()); st = St(); o1, o2, v = ex.obj(st, 'theta'), ex.obj(st, 'phi'), ex.obj(st, 'vec')
        for i in range(3): st.mem[v.obj][8 * i] = V[i]
        A = AT(V[1], V[0]); outs = ex.run([ex.start('vec2ang', [v, o1, o2], st, [A >= -zr(P), A <= zr(P)])])
        for q in outs:
            h = z3.Real('h'); q.pc += [h >= 0, h * h == V[0] * V[0] + V[1] * V[1]]; f = zr(q.mem[o2.obj].get(0, 0))
            s.decide(ex, q, z3.And(zr(q.mem[o1.obj].get(0, 0)) == AT(h, V[2]), z3.Or(f == A, f == A + zr(2 * P)), f >= 0, f < zr(2 * P)), 'vec2ang theta in [0,pi], phi in [0,2 pi)')
        s.close(ex, 'vec2ang', outs)

# ------------------------------------------------------------------ native falsifier
def native():
    exe = build.tmp() + '/hpfals'
    if not os.path.exists(exe):
        build.run(['gcc', '-O2', '-w', '-fsanitize=signed-integer-overflow,bounds,integer-divide-by-zero,float-cast-overflow', '-fno-sanitize-recover=all', '-fsanitize-undefined-trap-on-error', '-I' + build.HPX, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'hpfals.c'), SRC, '-o', exe, '-lm'])
    return exe
def native_search(prop, name, seed, depth, timeout=400):
    r = subprocess.run([native(), prop, str(seed), str(depth)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout)
    for l in r.stdout.splitlines():
        if l.startswith('FAIL|'):
            _, clause, inp, got, want = l.split('|'); return dict(contract=name, clause=clause, input=inp, code=got, contract_value=want)
    if not r.stdout.strip().endswith('evaluations'): return dict(contract=name, clause='returns normally', input=r.stdout[-200:], code='exit code %d' % r.returncode, contract_value='normal return')
    return None
class Native(Part):
    weight = 30
    def __init__(s, prop): s.prop = prop; Part.__init__(s, 'compiled library, sampled and exhaustive at low orders', [])
    def run(s, seed, tier):
        t = time.time(); r = subprocess.run([native(), s.prop, str(seed), '3' if tier == 'thorough' else '1'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=2500 if tier == 'thorough' else 400)
        viol = []; n = 0
        for l in r.stdout.splitlines():
            if l.startswith('FAIL|') and len(viol) < 3: _, c, i, g, w = l.split('|'); viol.append(dict(contract=s.name, clause=c, input=i, code=g, contract_value=w, obligation=[], replayed=True))
            m = re.match(r'(\d+) evaluations', l)
            if m: n = int(m.group(1))
        if not r.stdout.strip().endswith('evaluations'): viol.append(dict(contract=s.name, clause='returns normally', input=r.stdout.strip().split('\n')[-1][-300:], code='exit code %d' % r.returncode, contract_value='normal return', obligation=[], replayed=True))
        return dict(obls=[], functions={}, violations=viol, solver={'native': time.time() - t}, evaluations=n, samples=[dict(property=s.prop, evaluations=n)], notes=[])

C01 = [Native('C01'), Kernels(64), Kernels(32), Refuse(), Isqrt(32, 'C01'), Isqrt(64, 'C01')] + [RingOrder(b, k) for b in (64, 32) for k in range(MAXK[b], -1, -1)]
C02 = [Native('C02'), Wrappers(), Modulo(), Kernels(64), Kernels(32), Isqrt(32, 'C02'), Isqrt(64, 'C02')] + [Directions(64, k, True) for k in range(30)] + [Directions(b, k) for b in (32, 64) for k in range(MAXK[b] + 1)] + [Centres(b, k) for b in (64, 32) for k in range(MAXK[b] + 1)]
C03 = [Native('C03'), Count(32), Count(64), Isqrt(32, 'C03'), Isqrt(64, 'C03')]
