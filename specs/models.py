"""Contracts of the propagation models (C08-C13).  The published equations are in specs/sxp.py."""
import math, ctypes, random
from vcg.contract import *
from specs import sxp
from specs.sxp import Rec, PI, TWOPI, RE, XKE, TT

EL = ['epoch', 'xndt2o', 'xndd6o', 'bstar', 'xincl', 'xnodeo', 'eo', 'omegao', 'xmo', 'xno']
DEEP = '''aodp cosio sinio omgdot xmdot xnodot xnodp eosq betao cosio2 sing cosg betao2 xll omgadf xnode em xinc xn t
 d2201 d2211 d3210 d3222 d4410 d4422 d5220 d5232 d5421 d5433 atime del1 del2 del3 e3 ee2 omegaq pe pgh ph pinc pl preep
 savtsn se2 se3 sgh2 sgh3 sgh4 sh2 sh3 si2 si3 sl2 sl3 sl4 sse ssg ssh ssi ssl thgr xfact xgh2 xgh3 xgh4 xh2
 xh3 xi2 xi3 xl2 xl3 xl4 xlamo xli xni xnq zmol zmos resonance_flag synchronous_flag'''.split()
PARTIAL = '#include "norad.h"\n#include "norad_in.h"\n'
_off = {}
def tle_off():
    if 'tle' not in _off: _off['tle'] = build.struct_offsets(PARTIAL, 'tle_t', EL + ['ephemeris_type'], 'tle')
    return _off['tle']
def deep_off():
    if 'deep' not in _off: _off['deep'] = build.struct_offsets(PARTIAL, 'deep_arg_t', DEEP, 'deep')
    return _off['deep']

# ------------------------------------------------------------------ compiled code
HELP = r'''
#include <string.h>
#include <math.h>
#include "norad.h"
#include "norad_in.h"
static void vp_tle(const double *e, int et, tle_t *t){ memset(t, 0x5a, sizeof *t);
 t->epoch=e[0]; t->xndt2o=e[1]; t->xndd6o=e[2]; t->bstar=e[3]; t->xincl=e[4]; t->xnodeo=e[5]; t->eo=e[6]; t->omegao=e[7]; t->xmo=e[8]; t->xno=e[9];
 t->ephemeris_type=(char)et; t->classification='U'; }
typedef void (*vpi)(double*, const tle_t*); typedef int (*vpf)(double, const tle_t*, const double*, double*, double*);
/* flags: 1 element set changed, 2 parameters of a near-earth model changed, 4 beyond the parameters written, 8 the outputs' neighbours written, 16 no-velocity answer differs, 32 repeated call differs */
int vp_run(int model, const double *el, int et, int n, const double *ts, double *out, int *rc){
 static const vpi I[5]={SGP_init,SGP4_init,SGP8_init,SDP4_init,SDP8_init}; static const vpf F[5]={SGP,SGP4,SGP8,SDP4,SDP8};
 static const int np[5]={N_SGP_PARAMS,N_SGP4_PARAMS,N_SGP8_PARAMS,N_SDP4_PARAMS,N_SDP8_PARAMS};
 tle_t t,t0; double par[N_SAT_PARAMS+8], p0[N_SAT_PARAMS+8], o[8], q[8]; int i,k,fl=0,r2;
 vp_tle(el,et,&t); t0=t; for(i=0;i<N_SAT_PARAMS+8;i++) par[i]=-7.5e77;
 I[model](par,&t); if(memcmp(&t,&t0,sizeof t)) fl|=1;
 for(i=np[model];i<N_SAT_PARAMS+8;i++) if(par[i]!=-7.5e77) fl|=4;
 memcpy(p0,par,sizeof par);
 for(k=0;k<n;k++){
  for(i=0;i<8;i++) o[i]=q[i]=-3.25e55;
  rc[k]=F[model](ts[k],&t,par,o+1,o+4);
  memcpy(out+6*k,o+1,48); if(o[0]!=-3.25e55||o[7]!=-3.25e55) fl|=8;
  if(memcmp(&t,&t0,sizeof t)) fl|=1;
  if(model<3&&memcmp(p0,par,sizeof par)) fl|=2;
  r2=F[model](ts[k],&t,par,q+1,(double*)0);
  if(r2!=rc[k]) fl|=16;
  for(i=1;i<4;i++) if(!(fabs(q[i]-o[i])<=1e-6*(1+fabs(o[i]))||(isnan(q[i])&&isnan(o[i])))) fl|=16;
  for(i=4;i<8;i++) if(q[i]!=-3.25e55) fl|=16;
  for(i=0;i<8;i++) q[i]=-3.25e55;
  if(model<3){ r2=F[model](ts[k],&t,par,q+1,q+4); if(r2!=rc[k]) fl|=32; for(i=1;i<7;i++) if(memcmp(q+i,o+i,8)&&!(isnan(q[i])&&isnan(o[i]))) fl|=32; }
  for(i=np[model];i<N_SAT_PARAMS+8;i++) if(par[i]!=-7.5e77) fl|=4; }
 return fl; }
int vp_select(const double *el, int et){ tle_t t; vp_tle(el,et,&t); return select_ephemeris(&t); }
'''
MODELS = ['sgp', 'sgp4', 'sgp8', 'sdp4', 'sdp8']
def run_native(lib, model, el, ts, etype='0'):
    n = len(ts); out = (D * (6 * n))(); rc = (ctypes.c_int * n)()
    fl = dcall(lib, 'vp_run', ctypes.c_int, ctypes.c_int(MODELS.index(model)), (D * 10)(*el), ctypes.c_int(ord(etype)), ctypes.c_int(n), (D * n)(*ts), out, rc)
    return fl, list(rc), [list(out[6 * i:6 * i + 6]) for i in range(n)]

# ------------------------------------------------------------------ samplers
def rnd_angles(r): return dict(xnodeo=u(r, 0., TWOPI, 0.), omegao=u(r, 0., TWOPI, 0., PI / 2), xmo=u(r, 0., TWOPI, 0., PI))
def u(r, lo, hi, *special): return r.choice(special) if special and r.random() < 0.12 else r.uniform(lo, hi)
def rnd_incl(r):
    k = r.random()
    if k < .1: return 0.
    if k < .2: return r.uniform(0, PI / 60)
    if k < .35: return r.uniform(PI / 60, .21)
    if k < .4: return r.uniform(3.0, 3.14)
    return r.uniform(.05, 3.)
def rnd_bstar(r): return r.choice((0., 1e-4, -1e-4, 1e-5, r.uniform(-1e-3, 1e-3), 10. ** r.uniform(-7, -1.5)))
def gen_near(r, ecc=None):
    e = r.choice((0., 1e-5, 9.9e-5, 1.01e-4, 1e-3, r.uniform(0, .02), r.uniform(0, .05), r.uniform(0, .4)))
    hp = r.choice((r.uniform(-300, 60), r.uniform(60, 98), r.uniform(98, 156), r.uniform(98, 156), r.uniform(156, 220), r.uniform(220, 1500), r.uniform(220, 1500), r.uniform(220, 5500)))
    a = (1 + hp / RE) / (1 - e)
    d = dict(epoch=r.uniform(2435000.5, 2469000.5), xndt2o=r.choice((0., r.uniform(-1e-8, 1e-8))), xndd6o=r.choice((0., r.uniform(-1e-12, 1e-12))), bstar=rnd_bstar(r), xincl=rnd_incl(r), eo=e, xno=XKE / a ** 1.5)
    d.update(rnd_angles(r)); return d
def gen_deep(r):
    k = r.random()
    if k < .4:      # 12 hours
        n = r.uniform(0.0081, 0.0094) if r.random() < .3 else r.uniform(0.0083, 0.0092)
        e = r.choice((r.uniform(.45, .5), r.uniform(.5, .65), r.uniform(.65, .7), r.uniform(.7, .715), r.uniform(.715, .76), r.uniform(0., .1), .5, .65, .7, .715))
    elif k < .7:    # 24 hours
        n = TWOPI / 1440. * (r.uniform(.75, 1.25) if r.random() < .4 else r.uniform(.97, 1.03)); e = r.choice((0., r.uniform(0, .01), r.uniform(0, .3), r.uniform(0, .7)))
    else:
        n = 10. ** r.uniform(-3.6, -1.56); amax = (XKE / n) ** TT; e = min(.95, max(0., r.choice((r.uniform(0, .1), r.uniform(0, 1 - 1.02 / amax), r.uniform(0, 1 - 1. / amax)))))
    d = dict(epoch=r.uniform(2435000.5, 2469000.5), xndt2o=0., xndd6o=0., bstar=rnd_bstar(r), xincl=rnd_incl(r), eo=e, xno=n)
    d.update(rnd_angles(r)); return d
def rnd_time(r): return r.choice((0., r.uniform(-30, 30), r.uniform(-720, 720), r.uniform(-3000, 3000), r.uniform(-30000, 30000), r.uniform(-3e5, 3e5) if r.random() < .3 else r.uniform(0, 15000)))

EL_RANGE = [('epoch', 2430000., 2470000.), ('xndt2o', -1., 1.), ('xndd6o', -1., 1.), ('bstar', -10., 10.), ('xincl', 0., PI), ('xnodeo', 0., TWOPI), ('eo', 0., .9999), ('omegao', 0., TWOPI), ('xmo', 0., TWOPI), ('xno', 1e-6, 1.)]
T_RANGE = ('t', -1e7, 1e7)
POS = ['x', 'y', 'z', 'vx', 'vy', 'vz']
def elems(v): return Rec({k: getattr(v, k) for k in EL})

class Model(FC):
    """shared by the models: native runs of the whole model, symbolic memory for an element set"""
    lib_extra = HELP; lib_name = 'models'; deftol = (2e-6, 3e-9, None); nrand = 6000; npts = 60; hang_is_violation = True
    pos = ('xno',)
    def prepare(s): super().prepare(); tle_off(); deep_off()
    def library(s):
        l = build.native(HELP, 'models'); return l
    def mk_tle(s, ex, st, v, etype='0'):
        o = tle_off(); p = ex.alloc(st, 'tle', o[''])
        for k in EL: ex.store(st, Ptr(p.obj, o[k]), getattr(v, k), 8)
        ex.store(st, Ptr(p.obj, o['ephemeris_type']), ord(etype), 1)
        st.wobj(p.obj).ro = True; return p
    def dbl(s, ex, st, p, off): return ex.load(st, Ptr(p.obj, p.off + off), ('double',), ex.p.mods[0])
    def mk_out(s, ex, st):
        st.extra['pos'] = ex.alloc(st, 'pos', 24); st.extra['vel'] = ex.alloc(st, 'vel', 24); return st.extra['pos'], st.extra['vel']
    def out(s, ex, st):
        d = dict(zip(POS, [s.dbl(ex, st, st.extra['pos'], 8 * i) for i in range(3)] + [s.dbl(ex, st, st.extra['vel'], 8 * i) for i in range(3)])); return d
    def ready(s, st, params): st.wobj(params.obj).ro = True

def history(r):
    n = r.choice((1, 1, 2, 3, 4)); t = rnd_time(r); out = [t]
    for _ in range(n - 1):
        k = r.random()
        if k < .35: t = t + r.uniform(-29, 29)
        elif k < .55: t = t + r.choice((30.5, -30.5, 31, -45))
        elif k < .8: t = t + r.uniform(-3000, 3000)
        else: t = rnd_time(r)
        out.append(t)
    return out

class Whole(Model):
    """the whole model on the compiled code: a history of calls after one initialisation"""
    name = 'model'; replayable = True; inputs = EL_RANGE
    def __init__(s, model, near): s.model = model; s.near = near; s.title = model.upper() + ' (compiled code against the published equations)'; s.name = model.upper()
    def gen(s, r):
        d = gen_near(r) if s.near and r.random() < .9 else gen_deep(r)
        d['ts'] = history(r); return d
    def extra_inputs(s): return ('ts',)
    def verify(s, rep, seed=1): pass
    def spec(s, m, v):
        E = elems(v); o = {}
        if s.model in ('sdp4', 'sdp8'): Dp = getattr(sxp, s.model + '_init')(m, E)
        for k, t in enumerate(v.ts):
            q = getattr(sxp, s.model)(m, E, Dp, t) if s.model in ('sdp4', 'sdp8') else getattr(sxp, s.model)(m, E, t)
            o['rc%d' % k] = q.rc
            for c in POS:
                if c in q: o[c + str(k)] = q[c]
        o['flags'] = 0
        return o
    def native(s, lib, v):
        fl, rc, out = run_native(lib, s.model, [getattr(v, k) for k in EL], v.ts)
        o = dict(flags=fl)
        for k in range(len(v.ts)):
            o['rc%d' % k] = rc[k]
            for c, x in zip(POS, out[k]): o[c + str(k)] = x
        return o

ARGS8 = ['xnode', 'a', 'e', 'cosio', 'sinio', 'xincl', 'omega', 'xl']
def capture(ex, st, args, ins):
    """the contract of sxpx_posn_vel used by its callers: whatever it does, it is a function of its arguments"""
    st.extra['pv'] = list(args); return var('posn.rc')

class ByWhole:
    """a counterexample of an internal contract is replayed as a history of calls of the whole model"""
    replayable = True; nrand = 0
    def whole(s): return Whole(s.model, s.model in ('sgp', 'sgp4', 'sgp8'))
    def compare(s, lib, p):
        if not hasattr(s, '_w'): s._w = s.whole()
        q = {k: p[k] for k in EL if k in p}
        if len(q) < len(EL): return None
        q['ts'] = p.get('ts') or [p.get('t', 0.)]
        return s._w.compare(lib, q)
    def extra_inputs(s): return ('ts',)
    def falsify(s, lib, rep, seed, n, points=()):
        w = FC.falsify(s, lib, rep, seed, 0, points)
        if w or not points: return w
        if not hasattr(s, '_w'): s._w = s.whole()
        return s._w.falsify(lib, rep, seed, 20000)

class Sgp4(ByWhole, Model):
    """SGP4_init then SGP4: the arguments handed to the position stage are the published mean elements at time t"""
    name = 'SGP4'; model = 'sgp4'; title = 'SGP4_init; SGP4'; inputs = EL_RANGE + [T_RANGE]; contracts = {'sxpx_posn_vel': capture}; deftol = (1e-9, 1e-9, None)
    gen = staticmethod(lambda r: dict(gen_near(r), t=rnd_time(r)))
    ints = ('posn.rc',)
    def setup(s, ex, st, v):
        s.tle = s.mk_tle(ex, st, v); s.par = ex.alloc(st, 'params', 34 * 8); p, q = s.mk_out(ex, st)
        return [v.t, s.tle, s.par, p, q]
    def execute(s, ex, st, args, v):
        fs = ex.run(st, 'SGP4_init', [args[2], args[1]])
        for f in fs:
            if not f.halt: s.ready(f, args[2])
        return s.sequence(ex, fs, 'SGP4', args)
    def observe(s, ex, st):
        a = st.extra.get('pv')
        if a is None: return {}
        o = dict(zip(ARGS8, a[:8])); o['pos passed'] = a[8]; o['vel passed'] = a[9]; o['rc'] = st.ret; return o
    def mean(s, m, v): return sxp.sgp4_mean(m, elems(v), v.t)
    def spec(s, m, v):
        o = dict(zip(ARGS8, s.mean(m, v))); o['rc'] = var('posn.rc'); return o
    def compare_path(s, rep, ex, f, spec, dom, iv):
        n = super().compare_path(rep, ex, f, spec, dom, iv)
        for c in ('pos', 'vel'):
            got = s.observe(ex, f).get(c + ' passed')
            rep.add('%s/%s goes to the caller' % (s.name, c), 'ok' if got == f.extra[c] else 'undecided', 'trivial')
        return n
class PosnVel(LoopFC, Model):
    """sxpx_posn_vel: orbit classification, Kepler's equation (any number of iterations), short periodics, position and velocity"""
    name = 'sxpx_posn_vel'; opt = False; deftol = (1e-6, 1e-9, None); npts = 80; nrand = 20000; tol = {c: (1e-5, 1e-9, None) for c in POS}
    inputs = [('xnode', -100., 100.), ('a', -20., 200.), ('e', -2., 2.), ('cosio', -1., 1.), ('sinio', -1., 1.), ('xincl', -1., 4.), ('omega', -100., 100.), ('xl', -1e6, 1e6)]
    state_ranges = ((-1e3, 1e3), (0, 10))
    def __init__(s, vel): s.vel = vel; s.title = 'sxpx_posn_vel' + ('' if vel else ' (no velocity asked)')
    @staticmethod
    def gen(r):
        i = rnd_incl(r); k = r.random()
        e = r.choice((1e-6, r.uniform(1e-6, .05), r.uniform(0, .75), r.uniform(.7, .97), r.uniform(-.1, 0), r.uniform(.9, 1.2), .9999))
        hp = r.choice((r.uniform(-.5, 0), r.uniform(0, .3), r.uniform(0, 6), 1e-3))
        a = (1 + hp) / (1 - e) if e < .999 else r.uniform(.1, 10)
        if k < .05: a = -a
        elif k < .1: a = r.uniform(.3, 1.2)
        return dict(xnode=r.uniform(-10, 10), a=a, e=e, cosio=math.cos(i), sinio=math.sin(i), xincl=i, omega=r.uniform(-10, 10), xl=r.choice((r.uniform(-30, 30), r.uniform(-1e4, 1e4))))
    def setup(s, ex, st, v):
        p, q = s.mk_out(ex, st)
        return [v.xnode, v.a, v.e, v.cosio, v.sinio, v.xincl, v.omega, v.xl, p, q if s.vel else NULL]
    def observe(s, ex, st):
        o = s.out(ex, st); o['rc'] = lift(st.ret)
        if not s.vel:
            for c in POS[3:]: del o[c]
            o['velocity untouched'] = 1 if not st.mem[st.extra['vel'].obj].cells else 0
        return o
    def fin(s, o):
        if not s.vel:
            for c in POS[3:]: o.pop(c, None)
            o['velocity untouched'] = 1
        return o
    def pre(s, m, v): return sxp.kepler_elements(m, v.xnode, v.a, v.e, v.cosio, v.sinio, v.omega, v.xl)
    def start(s, m, v):
        axn, ayn, u = s.pre(m, v); code = sxp.orbit_class(m, v.a, v.e, axn * axn + ayn * ayn)
        if code in (sxp.PARABOLIC, sxp.NEGATIVE_A): return 'exit', s.fin(sxp.zero(code))
        return 'cont', (u, 0)
    def step(s, m, v, st):
        E, i = st; axn, ayn, u = s.pre(m, v)
        if not m.lt(i, 10): return 'exit', s.fin(sxp.zero(sxp.NOT_CONVERGED))
        n = sxp.kepler_step(m, axn, ayn, u, v.e, E, m.eq(i, 0))
        if n is not None: return 'cont', (n, i + 1)
        o = sxp.place(m, v.xnode, v.a, v.e, v.cosio, v.sinio, v.xincl, axn, ayn, E)
        o.rc = sxp.orbit_class(m, v.a, v.e, axn * axn + ayn * ayn); return 'exit', s.fin(o)
    def spec(s, m, v):
        r = s.start(m, v)
        while r[0] != 'exit': r = s.step(m, v, r[1])
        return r[1]
    def native(s, lib, v):
        p = (D * 5)(*[-3.25e55] * 5); q = (D * 5)(*[-3.25e55] * 5)
        rc = dcall(lib, 'sxpx_posn_vel', ctypes.c_int, D(v.xnode), D(v.a), D(v.e), D(v.cosio), D(v.sinio), D(v.xincl), D(v.omega), D(v.xl), ctypes.byref(p, 8), ctypes.byref(q, 8) if s.vel else None)
        o = dict(zip(POS, list(p)[1:4] + list(q)[1:4]), rc=rc)
        if p[0] != -3.25e55 or p[4] != -3.25e55 or q[0] != -3.25e55 or q[4] != -3.25e55: o['rc'] = 'writes outside the outputs'
        if not s.vel: o['velocity untouched'] = int(all(x == -3.25e55 for x in q))
        return o

# ------------------------------------------------------------------ loops of SGP, SGP8, SDP8; the deep-space functions
class Near(ByWhole, LoopFC, Model):
    """init and propagation of a near-earth model with Kepler's loop"""
    opt = False; inputs = EL_RANGE + [T_RANGE]; npts = 60; deftol = (1e-9, 1e-9, None); tol = {c: (1e-6, 1e-9, None) for c in POS}
    state_ranges = ((-1e3, 1e3), (-1e3, 1e3), (0, 10))
    gen = staticmethod(lambda r: dict(gen_near(r), t=rnd_time(r)))
    def setup(s, ex, st, v):
        p, q = s.mk_out(ex, st)
        return [v.t, s.mk_tle(ex, st, v), ex.alloc(st, 'params', 34 * 8), p, q]
    def execute(s, ex, st, args, v):
        fs = ex.run(st, s.name + '_init', [args[2], args[1]])
        for f in fs:
            if not f.halt: s.ready(f, args[2])
        return s.sequence(ex, fs, s.name, args)
    def observe(s, ex, st):
        o = s.out(ex, st); o['rc'] = lift(st.ret); return o
class Sgp(Near):
    name = 'SGP'; title = 'SGP_init; SGP'; model = 'sgp'
    def start(s, m, v):
        rc, Q = sxp.sgp_mean(m, elems(v), v.t)
        if Q is None: return 'exit', sxp.zero(rc)
        return 'cont', (Q.u, m.num(1.), 0)
    def step(s, m, v, st):
        rc, Q = sxp.sgp_mean(m, elems(v), v.t)
        k, r = sxp.sgp_loop(m, Q, st)
        if k == 'cont': return k, r
        o = sxp.sgp_place(m, Q, *r); o.rc = rc; return k, o
class Sgp8(Near):
    name = 'SGP8'; title = 'SGP8_init; SGP8'; model = 'sgp8'; state_ranges = ((-1e3, 1e3), (0, 10))
    def start(s, m, v): return 'cont', sxp.p8_start(m, sxp.sgp8_mean(m, elems(v), v.t))
    def step(s, m, v, st):
        Q = sxp.sgp8_mean(m, elems(v), v.t); k, r = sxp.p8_loop(m, Q, st)
        return (k, r) if k == 'cont' else (k, sxp.p8_place(m, Q, r))

DPIN = 'aodp cosio sinio omgdot xmdot xnodot xnodp eosq betao betao2 cosio2 sing cosg'.split()
SCRATCH = 't xll omgadf xnode em xinc xn cosio sinio'.split()
CACHE = 'atime xli xni savtsn pe pinc pl pgh ph'.split()
FLAGS = ('resonance_flag', 'synchronous_flag')
def dget(ex, st, p, f): return ex.load(st, Ptr(p.obj, p.off + deep_off()[f]), ('i', 32) if f in FLAGS else ('double',), ex.p.mods[0])
def dput(ex, st, p, f, x): ex.store(st, Ptr(p.obj, p.off + deep_off()[f]), x, 4 if f in FLAGS else 8)
for _f in FLAGS: INTV.add('dp.' + _f)
DPOUT = [f for f in DEEP if f not in DPIN and f not in SCRATCH]
def dpinit_contract(ex, st, args, ins):
    """the contract of Deep_dpinit used by its callers: it may set every deep-space constant"""
    tle, p = args
    st.extra['dpin'] = {f: dget(ex, st, p, f) for f in DPIN}; st.extra['deep'] = p
    for f in DPOUT: dput(ex, st, p, f, var('dp.' + f))
def deep_uf(name, ins_, outs):
    def c(ex, st, args, ins):
        p = args[1]; x = [dget(ex, st, p, f) for f in ins_]
        if any(y is UNDEF for y in x): raise Violation('%s reads an undefined field' % name)
        for f in outs: dput(ex, st, p, f, fn('%s.%s' % (name, f), *x))
    return c
DPSEC_IN = ['t', 'xll', 'omgadf', 'xnode', 'xn', 'omgdot']; DPSEC_OUT = ['xll', 'omgadf', 'xnode', 'em', 'xinc', 'xn', 'atime', 'xli', 'xni']
DPPER_IN = ['t', 'xll', 'omgadf', 'xnode', 'em', 'xinc']; DPPER_OUT = ['xll', 'omgadf', 'xnode', 'em', 'xinc', 'savtsn', 'pe', 'pinc', 'pl', 'pgh', 'ph']
def spec_uf(D, name, ins_, outs):
    x = [lift(D[f]) for f in ins_]
    D.update({f: fn('%s.%s' % (name, f), *x) for f in outs})
DEEP_CONTRACTS = dict(Deep_dpinit=dpinit_contract, Deep_dpsec=deep_uf('dpsec', DPSEC_IN, DPSEC_OUT), Deep_dpper=deep_uf('dpper', DPPER_IN, DPPER_OUT), sxpx_posn_vel=capture)

class DeepModel(ByWhole, Model):
    inputs = EL_RANGE + [T_RANGE]; contracts = DEEP_CONTRACTS; deftol = (1e-9, 1e-9, None); npts = 60
    gen = staticmethod(lambda r: dict(gen_deep(r), t=rnd_time(r)))
    def setup(s, ex, st, v):
        p, q = s.mk_out(ex, st)
        return [v.t, s.mk_tle(ex, st, v), ex.alloc(st, 'params', 1000), p, q]
    def execute(s, ex, st, args, v):
        fs = ex.run(st, s.name + '_init', [args[2], args[1]])
        for f in fs:
            if f.halt: continue
            if 'deep' not in f.extra: raise Unsupported('Deep_dpinit is not called')
            f.extra['after'] = {k: dget(ex, f, f.extra['deep'], k) for k in DPOUT}
            for k in SCRATCH: dput(ex, f, f.extra['deep'], k, var('old.' + k))      # whatever an earlier call left
        return s.sequence(ex, fs, s.name, args)
class Sdp4(DeepModel):
    name = 'SDP4'; title = 'SDP4_init; SDP4'; model = 'sdp4'; ints = ('posn.rc',)
    def observe(s, ex, st):
        o = {'deep-space initialisation gets ' + k: x for k, x in st.extra['dpin'].items()}
        o.update({'initialisation keeps ' + k: x for k, x in st.extra['after'].items()})
        a = st.extra.get('pv')
        if a is None: o['rc'] = lift(st.ret); return o
        o.update(zip(ARGS8, a[:8])); o['rc'] = st.ret; return o
    def spec(s, m, v):
        E = elems(v); D = sxp.brouwer(m, E); C = sxp.drag(m, E, D); D.sing, D.cosg = m.sin(E.omegao), m.cos(E.omegao); D.C = C
        o = {'deep-space initialisation gets ' + k: D[k] for k in DPIN}
        o.update({'initialisation keeps ' + k: var('dp.' + k) for k in DPOUT})
        t = v.t
        D.omgadf = E.omegao + D.omgdot * t; D.xnode = E.xnodeo + D.xnodot * t + C.xnodcf * (t * t)
        D.xn = D.xnodp; D.xll = E.xmo + D.xmdot * t; D.t = t
        spec_uf(D, 'dpsec', DPSEC_IN, DPSEC_OUT)
        k = 1 - C.c1 * t
        if m.lt(D.xn, 0.): o['rc'] = sxp.NEGATIVE_XN; return o
        a = m.pow(sxp.XKE / D.xn, TT) * k * k; D.em = D.em - E.bstar * C.c4 * t; D.xll = D.xll + D.xnodp * C.t2cof * (t * t)
        spec_uf(D, 'dpper', DPPER_IN, DPPER_OUT)
        o.update(zip(ARGS8, (D.xnode, a, D.em, m.cos(D.xinc), m.sin(D.xinc), D.xinc, D.omgadf, D.xll + D.omgadf + D.xnode)))
        o['rc'] = var('posn.rc'); return o
class Sdp8(DeepModel, LoopFC):
    name = 'SDP8'; title = 'SDP8_init; SDP8'; model = 'sdp8'; opt = False; state_ranges = ((-1e3, 1e3), (0, 10)); tol = {c: (1e-6, 1e-9, None) for c in POS}
    verify = LoopFC.verify
    def observe(s, ex, st):
        o = {'deep-space initialisation gets ' + k: x for k, x in st.extra['dpin'].items()}
        o.update({'initialisation keeps ' + k: x for k, x in st.extra['after'].items()})
        o.update(s.out(ex, st)); o['rc'] = lift(st.ret); return o
    def execute(s, ex, st, args, v):
        fs = ex.run(st, s.name + '_init', [args[2], args[1]])
        for f in fs:
            if f.halt: continue
            if 'deep' not in f.extra: raise Unsupported('Deep_dpinit is not called')
            f.extra['after'] = {k: dget(ex, f, f.extra['deep'], k) for k in DPOUT}
            for k in SCRATCH:
                if k not in ('cosio', 'sinio'): dput(ex, f, f.extra['deep'], k, var('old.' + k))
        return s.sequence(ex, fs, s.name, args)
    def mean(s, m, v):
        E = elems(v); D = sxp.brouwer(m, E); K = sxp.p8_rates(m, E, D); D.sinio = m.sin(E.xincl); X = sxp.p8_drag(m, E, D, K)
        K.xndt = X.xndt; K.edot = -TT * X.xndtn * (1. - E.eo); D.K = K
        o = {'deep-space initialisation gets ' + k: D[k] for k in DPIN}
        o.update({'initialisation keeps ' + k: var('dp.' + k) for k in DPOUT})
        z1, z7 = sxp.sdp8_head(m, E, D, v.t)
        spec_uf(D, 'dpsec', DPSEC_IN, DPSEC_OUT)
        D.xn = D.xn + K.xndt * v.t; D.em = D.em + K.edot * v.t; D.xll = D.xll + z1 + z7 * K.xmdt1
        spec_uf(D, 'dpper', DPPER_IN, DPPER_OUT)
        return Rec(xmam=sxp.fmod2p(m, D.xll), em=D.em, xn=D.xn, omgasm=D.omgadf, xnodes=D.xnode, sini=D.sinio, cosi=D.cosio, th2=D.cosio2, tthmun=K.tthmun, unm5th=K.unm5th, unmth2=K.unmth2,
                   sini2=K.sini2, cosi2=K.cosi2, sin_half=m.sin(D.xinc * .5)), o
    def start(s, m, v): return 'cont', sxp.p8_start(m, s.mean(m, v)[0])
    def step(s, m, v, st):
        Q, o = s.mean(m, v); k, r = sxp.p8_loop(m, Q, st)
        if k == 'cont': return k, r
        o.update(sxp.p8_place(m, Q, r)); return k, o

class Deep(ByWhole, Model):
    """a deep-space function on a deep_arg_t whose fields are arbitrary"""
    model = 'sdp4'; fields = (); outs = (); deftol = (1e-9, 1e-9, None); npts = 120; fixed = {}
    @property
    def inputs(s): return EL_RANGE + [T_RANGE] + [('d_' + f, 0, 1) if f in FLAGS else ('d_' + f, -1., 1.) if f in ('cosio', 'sinio', 'sing', 'cosg') else ('d_' + f, -1e30, 1e30) for f in s.fields if f != 't']
    def deep(s, v):
        D = Rec({f: getattr(v, 'd_' + f) for f in s.fields if f != 't'}); D.t = v.t; D.update(s.fixed); return D
    def setup(s, ex, st, v):
        s.tl = s.mk_tle(ex, st, v); p = ex.alloc(st, 'deep_arg', deep_off()[''])
        for f in s.fields: dput(ex, st, p, f, s.fixed.get(f, v.t if f == 't' else getattr(v, 'd_' + f)))
        st.extra['d'] = p; return [s.tl, p]
    def observe(s, ex, st):
        p = st.extra['d']; o = st.mem[p.obj].cells; off = deep_off()
        return {f: o[off[f]][1] for f in DEEP if off[f] in o and (f in s.outs or f not in s.fields)}
    def gen(s, r):
        q = gen_deep(r); E = Rec(q); t = rnd_time(r); q['t'] = t; q['ts'] = []
        D = sxp.sdp4_init(NumM(), E)
        for _ in range(r.choice((0, 0, 1, 2))):
            x = t + r.choice((r.uniform(-30, 30), r.uniform(-3000, 3000))); q['ts'].append(x)
            sxp.sdp4_mean(NumM(), E, D, x)
        q['ts'].append(t)
        s.position(E, D, t)
        for f in s.fields:
            if f != 't': q['d_' + f] = D.get(f, 0.)
        return q
    def position(s, E, D, t):
        """the state in which the function is called"""
        C = D.C; D.omgadf = E.omegao + D.omgdot * t; D.xnode = E.xnodeo + D.xnodot * t + C.xnodcf * (t * t); D.xn = D.xnodp; D.xll = E.xmo + D.xmdot * t; D.t = t
class DpInit(Deep):
    name = 'Deep_dpinit'; fields = DPIN; outs = [f for f in DEEP if f not in DPIN and f not in ('t', 'xll', 'omgadf', 'xnode', 'em', 'xinc', 'xn', 'pe', 'pgh', 'ph', 'pinc', 'pl')]; opt = True
    tol = {'thgr': (1e-7, 1e-9, TWOPI), 'xlamo': (1e-7, 1e-9, TWOPI), 'zmos': (1e-8, 0, TWOPI), 'zmol': (1e-8, 0, TWOPI)}
    def position(s, E, D, t): pass
    def spec(s, m, v):
        D = s.deep(v); o = sxp.dpinit(m, elems(v), D); o.savtsn = 1e20
        if o.resonance_flag: o.xli, o.xni, o.atime = o.xlamo, o.xnq, 0
        return o
class DpPer(Deep):
    name = 'Deep_dpper'; opt = True
    fields = 'savtsn t zmos zmol se2 se3 si2 si3 sl2 sl3 sl4 sgh2 sgh3 sgh4 sh2 sh3 ee2 e3 xi2 xi3 xl2 xl3 xl4 xgh2 xgh3 xgh4 xh2 xh3 pe pinc pl pgh ph xinc em xll omgadf xnode'.split()
    outs = 'savtsn pe pinc pl pgh ph xinc em xll omgadf xnode'.split()
    def position(s, E, D, t):
        Deep.position(s, E, D, t); sxp.dpsec(NumM(), E, D)
    def spec(s, m, v):
        D = s.deep(v); sxp.dpper(m, elems(v), D); return {f: D[f] for f in s.outs}
DPSEC_FIELDS = 't xll omgadf xnode xn em xinc ssl ssg ssh sse ssi atime xli xni xlamo xnq xfact thgr omegaq omgdot del1 del2 del3 d2201 d2211 d3210 d3222 d4410 d4422 d5220 d5232 d5421 d5433 resonance_flag synchronous_flag'.split()
class DpSec(Deep, LoopFC):
    """the integration of the resonance terms, over any number of steps"""
    name = 'Deep_dpsec'; opt = False; fields = DPSEC_FIELDS; outs = 'xll omgadf xnode xn em xinc atime xli xni'.split(); mode = 3
    verify = LoopFC.verify; state_ranges = ((-1e7, 1e7), (-1e9, 1e9), (-1e3, 1e3), (0, 1))
    def __init__(s, res, syn): s.fixed = dict(resonance_flag=res, synchronous_flag=syn); s.needs_loop = bool(res); s.title = 'Deep_dpsec (%s)' % ('not resonant' if not res else 'synchronous' if syn else '12-hour resonance')
    def gen(s, r):
        for _ in range(400):
            q = Deep.gen(s, r)
            if (q['d_resonance_flag'], q['d_synchronous_flag']) == (s.fixed['resonance_flag'], s.fixed['synchronous_flag']): return q
        return q
    def result(s, D): return {f: D[f] for f in s.outs}
    def start(s, m, v):
        D = s.deep(v); sxp.dpsec_secular(m, elems(v), D)
        if not m.ne0(D.resonance_flag): return 'exit', s.result(D)
        return 'cont', tuple(sxp.dpsec_start(m, D)) + (0,)
    def step(s, m, v, st):
        D = s.deep(v); sxp.dpsec_secular(m, elems(v), D)
        if m.ne0(st[3]):
            D.atime, D.xli, D.xni = st[:3]; sxp.dpsec_end(m, D, D.xli, D.xni); return 'exit', s.result(D)
        n, last = sxp.dpsec_step(m, D, *st[:3]); return 'cont', tuple(n) + (int(last),)

class Phases:
    """lemma: the constants written in the resonance terms are the cosine and sine of the published phase angles"""
    name = 'phase constants'
    def label(s): return s.name
    def run(s, seed, tier):
        from mpmath import mp, mpf, cos, sin
        mp.dps = 30; obls = []
        for t in (sxp.FASX, sxp.G):
            for k, (x, c, sn) in t.items():
                ok = abs(cos(mpf(repr(x))) - mpf(repr(c))) < mpf(10) ** -7 and abs(sin(mpf(repr(x))) - mpf(repr(sn))) < mpf(10) ** -7
                obls.append(('phase %s' % k, 'ok' if ok else 'failed', 'constants', ''))
        return dict(obls=obls)

# ------------------------------------------------------------------ state vectors (type H)
D2R = PI / 180.
def lunar_solar(m, jd):
    """low-precision Moon and Sun (Meeus, Astronomical Algorithms, chapters 25 and 47): ecliptic x, y, z and distance in metres"""
    t = (jd - 2451545.) / 36525.
    def lin_(a, b): return a * PI / 180. + (b * PI / 180.) * t
    L, M_, Ls, Ms, F, D_ = lin_(218.3164477, 481267.88123421), lin_(134.9633964, 477198.8675055), lin_(280.46646, 36000.76983), lin_(357.5291092, 35999.0502909), lin_(93.2720950, 483202.0175233), lin_(297.8501921, 445267.1114034)
    def dg(a): return a * PI / 180.
    lon, lat, r = L, 0, 385000560.
    for a, x in ((6.288774, M_), (1.274027, 2. * D_ - M_), (0.658314, 2. * D_), (0.213618, 2. * M_), (-0.185116, Ms), (-0.114332, 2. * F)): lon = lon + dg(a) * m.sin(x)
    for a, x in ((5.128122, F), (0.280602, M_ + F), (0.277693, M_ - F), (0.173237, 2. * D_ - F)): lat = lat + dg(a) * m.sin(x)
    for a, x in ((-20905355., M_), (-3699111., 2. * D_ - M_), (-2955968., 2. * D_), (-569925., 2. * M_)): r = r + a * m.cos(x)
    ls = Ls + dg(1.914602) * m.sin(Ms); rs = 1.495978707e+11 * (1. - 0.016708634 * m.cos(Ms))
    return [r * m.cos(lat) * m.cos(lon), r * m.cos(lat) * m.sin(lon), r * m.sin(lat), r, rs * m.cos(ls), rs * m.sin(ls), 0., rs]
GM = dict(earth=3.9860044e+14, sun=1.3271243994e+20, moon=4.902798e+12)
def gravity(m, pos, bodies):
    """acceleration of a satellite relative to the Earth, m/s^2"""
    def l3(v): d = m.sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); return d * d * d
    r3 = l3(pos); a = [-GM['earth'] / r3 * x for x in pos]
    for gm, b in ((GM['moon'], bodies[:4]), (GM['sun'], bodies[4:])):
        d = [b[i] - pos[i] for i in range(3)]; d3 = l3(d); b3 = b[3] * b[3] * b[3]
        a = [a[i] + gm * (d[i] / d3 - b[i] / b3) for i in range(3)]
    return a
SOB, COB = 0.397777155931913701597179975942380896684, 0.917482062069181825744000384639406458043       # obliquity at J2000
def to_ecliptic(v): return [v[0], v[1] * COB + v[2] * SOB, v[2] * COB - v[1] * SOB]
def to_equator(v): return [v[0], v[1] * COB - v[2] * SOB, v[2] * COB + v[1] * SOB]
def rk4(m, acc, jd, x, dt):
    """one fourth-order Runge-Kutta step of dt days; x in metres and metres per second"""
    h = dt * 86400.
    def f(t, y): return y[3:] + acc(t, y[:3])
    k1 = f(jd, x); k2 = f(jd + dt / 2., [a + h * .5 * b for a, b in zip(x, k1)]); k3 = f(jd + dt / 2., [a + h * .5 * b for a, b in zip(x, k2)]); k4 = f(jd + dt, [a + h * b for a, b in zip(x, k3)])
    return [a + h / 6. * (p + 2. * (q + r) + s) for a, p, q, r, s in zip(x, k1, k2, k3, k4)]
HS = ['xincl', 'xnodeo', 'eo', 'omegao', 'xmo', 'xno']
def h_start(E, t):
    x = [E[k] for k in HS]; return to_ecliptic(x[:3]) + to_ecliptic(x[3:]) + [E.epoch, t / 1440.]
def h_step(m, acc, st):
    x, jd, left = list(st[:6]), st[6], st[7]
    if not m.ne0(left):
        p, w = to_equator(x[:3]), to_equator(x[3:])
        return 'exit', dict(zip(POS, [a / 1000. for a in p] + [a * 60. / 1000. for a in w]), rc=0)
    dt = m.num(1.) if m.gt(left, 1.) else m.num(-1.) if m.lt(left, -1.) else left
    return 'cont', tuple(rk4(m, acc, jd, x, dt)) + (jd + dt, left - dt)
def gen_h(r):
    """an orbit or a flyby, in metres and metres per second"""
    import math as q
    a = 10. ** r.uniform(6.85, 9.2) if r.random() < .8 else 10. ** r.uniform(8, 10.5); v = q.sqrt(GM['earth'] / a) * r.uniform(.6, 1.6)
    def vec(n):
        z = r.uniform(-1, 1); p = r.uniform(0, TWOPI); s = q.sqrt(1 - z * z); return [n * s * q.cos(p), n * s * q.sin(p), n * z]
    d = dict(epoch=r.uniform(2435000.5, 2469000.5), xndt2o=0., xndd6o=0., bstar=0.); d.update(zip(HS, vec(a) + vec(v))); return d
def h_time(r, d):
    """minutes; short steps for a low orbit, so that rounding stays small"""
    big = d['xincl'] ** 2 + d['xnodeo'] ** 2 + d['eo'] ** 2 > 1e16
    return r.choice((0., 1440., -1440., 2880., r.uniform(-1440, 1440), r.uniform(-30, 30), r.uniform(-14400, 14400) if big else r.uniform(-300, 300)))
H_RANGE = [('epoch', 2430000., 2470000.), ('xndt2o', -1., 1.), ('xndd6o', -1., 1.), ('bstar', -10., 10.)] + [(k, -1e12, 1e12) for k in HS]
BODY = ['moon x', 'moon y', 'moon z', 'moon r', 'sun x', 'sun y', 'sun z', 'sun r']
class WholeH(Whole):
    """state vectors on the compiled code"""
    inputs = H_RANGE; nrand = 4000; deftol = (1e-4, 1e-8, None)
    def __init__(s): s.model = 'sdp4'; s.near = False; s.title = 'SDP4, state vector (compiled code against the integration of the gravity model)'; s.name = 'SDP4 (H)'
    def gen(s, r):
        d = gen_h(r); d['ts'] = [h_time(r, d) for _ in range(r.choice((1, 1, 2, 3)))]; return d
    def spec(s, m, v):
        E = elems(v); o = {}
        def acc(t, p): return gravity(m, p, lunar_solar(m, t))
        for k, t in enumerate(v.ts):
            st = h_start(E, t)
            while True:
                a, st = h_step(m, acc, st)
                if a == 'exit': break
            o['rc%d' % k] = st['rc']
            for c in POS: o[c + str(k)] = st[c]
        o['flags'] = 0; return o
    def native(s, lib, v):
        fl, rc, out = run_native(lib, 'sdp4', [getattr(v, k) for k in EL], v.ts, 'H')
        o = dict(flags=fl)
        for k in range(len(v.ts)):
            o['rc%d' % k] = rc[k]
            for c, x in zip(POS, out[k]): o[c + str(k)] = x
        return o
class ByWholeH(ByWhole):
    def whole(s): return WholeH()
    @staticmethod
    def gen(r): d = gen_h(r); d['t'] = h_time(r, d); return d
class LunarSolar(ByWholeH, Model):
    name = 'lunar_solar_position'; inputs = [('jd', 2430000., 2470000.)]; deftol = (1e-2, 1e-11, None); opt = True
    @staticmethod
    def gen(r): return dict(jd=r.uniform(2435000.5, 2469000.5))
    def setup(s, ex, st, v):
        st.extra['m'], st.extra['s'] = ex.alloc(st, 'moon', 32), ex.alloc(st, 'sun', 32); return [v.jd, st.extra['m'], st.extra['s']]
    def observe(s, ex, st): return dict(zip(BODY, [s.dbl(ex, st, st.extra['m'], 8 * i) for i in range(4)] + [s.dbl(ex, st, st.extra['s'], 8 * i) for i in range(4)]))
    def spec(s, m, v): return dict(zip(BODY, lunar_solar(m, v.jd)))
def body_uf(jd): return [fn('body%d' % i, jd) for i in range(8)]
def lunar_solar_contract(ex, st, args, ins):
    """the contract of lunar_solar_position (and of its cached form) used by callers: a function of the date alone"""
    for i, x in enumerate(body_uf(args[0])): p = args[1 + i // 4]; ex.store(st, Ptr(p.obj, p.off + 8 * (i % 4)), x, 8)
    return None
class Cached(LunarSolar):
    """whatever dates were asked before, the answer is that of the date asked now"""
    name = 'cached_lunar_solar_position'; contracts = {'lunar_solar_position': lunar_solar_contract}; opt = False
    inputs = [('jd1', 2430000., 2470000.), ('jd2', 2430000., 2470000.), ('jd3', 2430000., 2470000.)]; orders = ([1, 1], [1, 2, 1], [1, 2, 2, 1], [1, 2, 3, 1, 2], [1, 2, 3, 3, 1])
    @staticmethod
    def gen(r): return {k: r.uniform(2435000.5, 2469000.5) for k in ('jd1', 'jd2', 'jd3')}
    def __init__(s, order): s.order = order; s.title = 'cached_lunar_solar_position (dates %s)' % order
    def assume(s, v): return [(v.jd1 - v.jd2, (-1, 1)), (v.jd1 - v.jd3, (-1, 1)), (v.jd2 - v.jd3, (-1, 1))]
    def setup(s, ex, st, v):
        st.extra['m'], st.extra['s'] = ex.alloc(st, 'moon', 32), ex.alloc(st, 'sun', 32); s.jds = [getattr(v, 'jd%d' % k) for k in s.order]; return [s.jds[0], st.extra['m'], st.extra['s']]
    def execute(s, ex, st, args, v):
        fs = ex.run(st, s.name, args)
        for k in s.jds[1:]:
            for f in fs:
                if not f.halt:
                    for o in ('m', 's'):
                        for i in range(4): ex.store(f, Ptr(f.extra[o].obj, 8 * i), var('stale'), 8)
            fs = s.sequence(ex, fs, s.name, [k] + args[1:])
        return fs
    def spec(s, m, v): return dict(zip(BODY, body_uf(getattr(v, 'jd%d' % s.order[-1]))))
class CalcAccel(ByWholeH, Model):
    """the bodies' distances stand for themselves (their agreement with the coordinates is part of lunar_solar_position)"""
    name = 'calc_accel'; contracts = {'cached_lunar_solar_position': lunar_solar_contract, 'lunar_solar_position': lunar_solar_contract}; opt = False
    inputs = [('jd', 2430000., 2470000.)] + [(c, -1e12, 1e12) for c in 'xyz']
    @staticmethod
    def gen(r): d = gen_h(r); return dict(jd=d['epoch'], x=d['xincl'], y=d['xnodeo'], z=d['eo'])
    def setup(s, ex, st, v):
        p = ex.alloc(st, 'pos', 24); st.extra['a'] = ex.alloc(st, 'acc', 24)
        for i, c in enumerate('xyz'): ex.store(st, Ptr(p.obj, 8 * i), getattr(v, c), 8)
        st.wobj(p.obj).ro = True; return [v.jd, p, st.extra['a']]
    def observe(s, ex, st): return {'accel ' + c: s.dbl(ex, st, st.extra['a'], 8 * i) for i, c in enumerate('xyz')}
    def spec(s, m, v): return {'accel ' + c: x for c, x in zip('xyz', gravity(m, [v.x, v.y, v.z], body_uf(v.jd)))}
def accel_uf(t, p): return [fn('accel%d' % i, t, *p) for i in range(3)]
def accel_contract(ex, st, args, ins):
    """the contract of calc_accel used by the integrator: a function of date and position"""
    jd, p, a = args
    pos = [ex.load(st, Ptr(p.obj, p.off + 8 * i), ('double',), ex.p.mods[0]) for i in range(3)]
    for i, x in enumerate(accel_uf(jd, pos)): ex.store(st, Ptr(a.obj, a.off + 8 * i), x, 8)
    return 0
class HighEph(ByWholeH, LoopFC, Model):
    name = 'SDP4'; title = 'SDP4_init; SDP4 (state vector)'; opt = False; contracts = {'calc_accel': accel_contract}; inputs = H_RANGE + [T_RANGE]; npts = 60; deftol = (1e-9, 1e-9, None)
    state_ranges = ((-1e12, 1e12),) * 6 + ((2400000., 2500000.), (-1e4, 1e4))
    def __init__(s, vel=True): s.vel = vel; s.title += '' if vel else ', no velocity asked'
    def setup(s, ex, st, v):
        p, q = s.mk_out(ex, st)
        return [v.t, s.mk_tle(ex, st, v, 'H'), ex.alloc(st, 'params', 1000), p, q if s.vel else NULL]
    def execute(s, ex, st, args, v):
        fs = ex.run(st, 'SDP4_init', [args[2], args[1]])
        for f in fs:
            if not f.halt: s.ready(f, args[2])
        return s.sequence(ex, fs, 'SDP4', args)
    def observe(s, ex, st):
        o = s.out(ex, st) if s.vel else {c: s.dbl(ex, st, st.extra['pos'], 8 * i) for i, c in enumerate(POS[:3])}
        o['rc'] = lift(st.ret)
        if not s.vel: o['velocity untouched'] = 1 if not st.mem[st.extra['vel'].obj].cells else 0
        return o
    def start(s, m, v): return 'cont', tuple(h_start(elems(v), v.t))
    def step(s, m, v, st):
        k, o = h_step(m, accel_uf if isinstance(m, SymM) else lambda t, p: gravity(m, p, lunar_solar(m, t)), st)
        if k == 'exit' and not s.vel:
            for c in POS[3:]: del o[c]
            o['velocity untouched'] = 1
        return k, o

# ------------------------------------------------------------------ choice of the model
class Select(Model):
    """the element type, then validity, then the period from the recovered mean motion"""
    name = 'select_ephemeris'; nrand = 60000; deftol = (0., 0., None); pos = (); ints = ('et',)
    inputs = [('xno', -1., 1.), ('eo', -2., 3.), ('xincl', 0., PI), ('et', 0, 127)]
    @staticmethod
    def gen(r):
        e = r.choice((0., r.uniform(0, .999), r.uniform(0, .1), r.uniform(-.2, 1.3), -1e-9, 1.0000001)); i = rnd_incl(r)
        n = r.choice((0., -r.random(), 10. ** r.uniform(-4, -.9), TWOPI / 225. * r.uniform(.97, 1.03), TWOPI / 225., TWOPI / 225. * (1 + r.uniform(-1e-3, 1e-3)), TWOPI / 225. * (1 + r.uniform(-1e-4, 1e-4))))
        if r.random() < .4 and 0 <= e < 1:      # a period of exactly 225 minutes, as nearly as can be
            w = TWOPI / 225.; n = w
            for _ in range(60): n = n * w / sxp.brouwer(NumM(), Rec(xno=n, eo=e, xincl=i)).xnodp
            n *= 1 + r.choice((1e-9, -1e-9, 1e-6, -1e-6))
        return dict(xno=n, eo=e, xincl=i, et=ord(r.choice('0000000012345H 6\0h')))
    def setup(s, ex, st, v):
        o = tle_off(); p = ex.alloc(st, 'tle', o['']); g = vars(v)
        for k in EL: ex.store(st, Ptr(p.obj, o[k]), g.get(k, var('some ' + k)), 8)
        ex.store(st, Ptr(p.obj, o['ephemeris_type']), v.et, 1); st.wobj(p.obj).ro = True; return [p]
    def assume(s, v): return [(v.eo - 1, (-1, 1))]
    def observe(s, ex, st): return dict(model=st.ret)
    def spec(s, m, v):
        if m.eq(v.et, ord('H')): return dict(model=1)
        if m.le(v.xno, 0) or m.gt(v.eo, 1) or m.lt(v.eo, 0): return dict(model=-1)
        if m.eq(v.et, ord('2')) or m.eq(v.et, ord('4')): return dict(model=0)
        if m.eq(v.et, ord('3')) or m.eq(v.et, ord('5')): return dict(model=1)
        D = sxp.brouwer(m, Rec(xno=v.xno, eo=v.eo, xincl=v.xincl))
        return dict(model=1 if m.ge(TWOPI / D.xnodp, 225.) else 0)
    def native(s, lib, v):
        el = dict(epoch=2451545., xndt2o=0., xndd6o=0., bstar=0., xnodeo=1., omegao=1., xmo=1., xno=v.xno, eo=v.eo, xincl=v.xincl)
        return dict(model=dcall(lib, 'vp_select', ctypes.c_int, (D * 10)(*[el[k] for k in EL]), ctypes.c_int(v.et)))

class Codes(Whole):
    """return codes of decayed, hyperbolic and degenerate orbits on the compiled code"""
    def __init__(s, model): super().__init__(model, model in ('sgp', 'sgp4', 'sgp8')); s.title = model.upper() + ' return codes (compiled code)'
    NEG = (dict(xincl=2.182119678476287, eo=0.9999343442146537, xno=0.00427588554100095), dict(xincl=1.9083727024843442, eo=0.9993861723278117, xno=0.0056722359268903105), dict(xincl=1.9706952247472533, eo=0.9996413250547734, xno=0.005010417126056989), dict(xincl=1.121079751520531, eo=0.9992765939612408, xno=0.006540281090017789))
    def gen(s, r):
        k = r.random()
        if s.near:
            d = gen_near(r)
            if k < .4: d['bstar'] = 10. ** r.uniform(-4, 0) * r.choice((1, 1, -1))
            elif k < .6: d['xno'] = r.uniform(.05, .12); d['eo'] = r.uniform(0, .6)
            elif k < .8: d['eo'] = r.uniform(.9, .9999999)
            d['ts'] = [r.choice((0., r.uniform(-1e4, 1e4), 10. ** r.uniform(2, 6)))]; return d
        d = gen_deep(r); q = (0.,)
        if k < .25: d.update(r.choice(s.NEG)); d['xincl'] += r.uniform(-.01, .01)
        elif k < .45: d['eo'] = 1 - 10. ** r.uniform(-6, -1)
        elif k < .65: d['xno'] = r.uniform(.02, .12)
        elif k < .8: d['bstar'] = r.choice((-1, 1)) * 10. ** r.uniform(-3, 1)
        d['ts'] = [r.choice((0., r.uniform(-700, 700), r.uniform(-2000, 2000))) if k < .45 else r.choice((0., r.uniform(-1e4, 1e4), 10. ** r.uniform(2, 5.5)))]; return d
C08 = [Select()]
C09 = [Sgp4(), PosnVel(True), PosnVel(False), Whole('sgp4', True)]
DEEPF = [DpInit(), DpPer(), DpSec(0, 0), DpSec(1, 0), DpSec(1, 1)]
C10 = [Sdp4(), PosnVel(True)] + DEEPF + [Phases(), Whole('sdp4', False)]
C13 = [Sgp(), Sgp8(), Sdp8(), Whole('sgp', True), Whole('sgp8', True), Whole('sdp8', False)]
C12 = [PosnVel(True), PosnVel(False), Sdp4(), HighEph(False), Codes('sgp4'), Codes('sdp4')]
C11 = [HighEph(), HighEph(False), CalcAccel(), LunarSolar()] + [Cached(o) for o in Cached.orders] + [WholeH()]
