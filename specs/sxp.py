"""The Spacetrack models as functions (Hoots & Roehrich, Spacetrack Report 3, 1980; Hoots, Report 6; with the corrections that
the sources document).  Every function works over a context m: terms for the proof, machine numbers for the replay.  Constants
are the published ones (WGS-72).  E: mean elements at epoch.  D: a dict of deep-space quantities."""
import math
PI = 3.141592653589793; TWOPI = 2 * PI
TT = 2. / 3.
XJ2 = 1.082616e-3; XJ3 = -2.53881e-6; XJ4 = -1.65597e-6
CK2 = .5 * XJ2; CK4 = -.375 * XJ4; A3OVK2 = 2.53881e-6 / CK2
RE = 6378.135; XKE = 0.0743669161331734132; QOMS2T = 1.880279159015270643865e-9; S_CONST = 1. + 78. / RE
MIN_E = 1e-4; ECC_EPS = 1e-6
OK, PARABOLIC, NEGATIVE_A, WITHIN, PERIGEE, NEGATIVE_XN, NOT_CONVERGED = 0, -1, -2, -3, -4, -5, -6

class Rec(dict):
    __getattr__ = dict.__getitem__
    __setattr__ = dict.__setitem__

def fmod2p(m, x):
    r = m.fmod(x, TWOPI)
    return r + TWOPI if m.lt(r, 0.) else r

def brouwer(m, E):
    """mean motion and semi-major axis recovered from the tabulated (Kozai) mean motion"""
    a1 = m.pow(XKE / E.xno, TT); D = Rec()
    D.cosio = m.cos(E.xincl); D.cosio2 = D.cosio * D.cosio; D.eosq = E.eo * E.eo; D.betao2 = 1 - D.eosq; D.betao = m.sqrt(D.betao2)
    k = 1.5 * CK2 * (3. * D.cosio2 - 1.) / (D.betao * D.betao2)
    d1 = k / (a1 * a1)
    ao = a1 * (1. - d1 * (1. / 3. + d1 * (1. + 134. / 81. * d1)))
    d0 = k / (ao * ao)
    D.xnodp = E.xno / (1 + d0); D.aodp = ao / (1 - d0)
    return D

def drag(m, E, D):
    """atmospheric terms and secular rates common to SGP4 and SDP4 (C: coefficients)"""
    C = Rec()
    th2 = D.cosio2; x3thm1 = 3. * th2 - 1.
    s4 = m.num(S_CONST); q4 = m.num(QOMS2T)
    perigee = (D.aodp * (1 - E.eo) - 1.) * RE
    if m.lt(perigee, 156.):
        h = m.num(20.) if m.le(perigee, 98.) else perigee - 78.
        x = (120. - h) * 1. / RE
        q4 = x * x * (x * x); s4 = h / RE + 1.
    pinv = 1. / (D.aodp * D.betao2); pinvsq = pinv * pinv
    C.s4 = s4; C.tsi = tsi = 1. / (D.aodp - s4)
    C.eta = eta = D.aodp * E.eo * tsi; etasq = eta * eta; eeta = E.eo * eta
    psisq = m.fabs(1 - etasq)
    C.coef = q4 * (tsi * tsi) * (tsi * tsi); C.coef1 = C.coef / m.pow(psisq, 3.5)
    C.c2 = C.coef1 * D.xnodp * (D.aodp * (1 + 1.5 * etasq + eeta * (4 + etasq)) + 0.75 * CK2 * tsi / psisq * x3thm1 * (8 + 3 * etasq * (8 + etasq)))
    C.c1 = E.bstar * C.c2
    D.sinio = m.sin(E.xincl)
    C.c4 = 2 * D.xnodp * C.coef1 * D.aodp * D.betao2 * (eta * (2 + 0.5 * etasq) + E.eo * (0.5 + 2 * etasq)
           - 2 * CK2 * tsi / (D.aodp * psisq) * (-3 * x3thm1 * (1 - 2 * eeta + etasq * (1.5 - 0.5 * eeta))
           + 0.75 * (1. - th2) * (2 * etasq - eeta * (1 + etasq)) * m.cos(2 * E.omegao)))
    th4 = th2 * th2
    t1 = 3 * CK2 * pinvsq * D.xnodp; t2 = t1 * CK2 * pinvsq; t3 = 1.25 * CK4 * pinvsq * pinvsq * D.xnodp
    D.xmdot = D.xnodp + t1 * D.betao * x3thm1 / 2. + t2 * D.betao * (13 - 78 * th2 + 137 * th4) / 16.
    D.omgdot = -t1 * (1. - 5 * th2) / 2. + t2 * (7 - 114 * th2 + 395 * th4) / 16. + t3 * (3 - 36 * th2 + 49 * th4)
    xhdot1 = -t1 * D.cosio
    D.xnodot = xhdot1 + (t2 * (4 - 19 * th2) / 2. + 2 * t3 * (3 - 7 * th2)) * D.cosio
    C.xnodcf = 3.5 * D.betao2 * xhdot1 * C.c1; C.t2cof = 1.5 * C.c1
    return C

# ------------------------------------------------------------------ position and velocity from osculating mean elements
def orbit_class(m, a, ecc, elsq):
    """return code decided before Kepler's equation"""
    if m.gt(elsq, 1. - 1e-6): return PARABOLIC
    if m.lt(a, 0.): return NEGATIVE_A
    p, q = a * (1. - ecc), a * (1. + ecc)
    pin = m.lt(p, 1.); qin = m.lt(q, 1.)
    if pin and qin: return WITHIN
    if pin or qin: return PERIGEE
    return OK

def kepler_elements(m, xnode, a, ecc, cosio, sinio, omega, xl):
    """long-period periodics: (axn, ayn, capu)"""
    axn = ecc * m.cos(omega)
    k = 1 / (a * (1. - ecc * ecc))
    xlcof = .125 * A3OVK2 * sinio * (3 + 5 * cosio) / (1. + cosio)
    aycof = 0.25 * A3OVK2 * sinio
    ayn = ecc * m.sin(omega) + k * aycof
    u = m.fmod(xl + k * xlcof * axn - xnode, TWOPI)
    if m.gt(u, PI): u = u - TWOPI
    elif m.lt(u, -PI): u = u + TWOPI
    return axn, ayn, u

def kepler_step(m, axn, ayn, capu, ecc, E, first):
    """None when E solves the equation, else the next iterate"""
    s, c = m.sin(E), m.cos(E)
    ecosE = axn * c + ayn * s; esinE = axn * s - ayn * c
    f = capu - E + esinE
    if m.lt(m.fabs(f), 1e-12): return None
    fdot = 1. - ecosE; d = f / fdot; second = True
    if first:
        lim = 1.25 * m.fabs(ecc)
        if m.gt(d, lim): d = lim; second = False
        elif m.lt(d, -lim): d = -lim; second = False
    if second: d = f / (fdot + 0.5 * esinE * d)
    return E + d

def place(m, xnode, a, ecc, cosio, sinio, xincl, axn, ayn, E):
    """position (km) and velocity (km/min) once Kepler's equation is solved"""
    s, c = m.sin(E), m.cos(E)
    ecosE = axn * c + ayn * s; esinE = axn * s - ayn * c; elsq = axn * axn + ayn * ayn
    th2 = cosio * cosio; x3thm1 = 3.0 * th2 - 1.0; x1mth2 = 1.0 - th2; x7thm1 = 7.0 * th2 - 1.0
    pl = a * (1 - elsq); r = a * (1 - ecosE); ar = a / r; betal = m.sqrt(1 - elsq); k = esinE / (1 + betal)
    cosu = ar * (c - axn + ayn * k); sinu = ar * (s - ayn - axn * k); u = m.atan2(sinu, cosu)
    s2u = 2 * sinu * cosu; c2u = 2 * cosu * cosu - 1
    t1 = CK2 / pl; t2 = t1 / pl
    rk = r * (1 - 1.5 * t2 * betal * x3thm1) + 0.5 * t1 * x1mth2 * c2u
    uk = u - 0.25 * t2 * x7thm1 * s2u
    nk = xnode + 1.5 * t2 * cosio * s2u; ik = xincl + 1.5 * t2 * cosio * sinio * c2u
    rdot = XKE * m.sqrt(a) * esinE / r - XKE / (a * m.sqrt(a)) * t1 * x1mth2 * s2u
    rfdot = XKE * m.sqrt(pl) / r + XKE / (a * m.sqrt(a)) * t1 * (x1mth2 * c2u + 1.5 * x3thm1)
    return vectors(m, rk, uk, nk, ik, rdot, rfdot)

def vectors(m, rk, uk, nk, ik, rdot, rfdot):
    su, cu, sn, cn, si, ci = m.sin(uk), m.cos(uk), m.sin(nk), m.cos(nk), m.sin(ik), m.cos(ik)
    mx, my = -sn * ci, cn * ci
    U = (mx * su + cn * cu, my * su + sn * cu, si * su); V = (mx * cu - cn * su, my * cu - sn * su, si * cu)
    return Rec(x=rk * U[0] * RE, y=rk * U[1] * RE, z=rk * U[2] * RE,
               vx=(rdot * U[0] + rfdot * V[0]) * RE, vy=(rdot * U[1] + rfdot * V[1]) * RE, vz=(rdot * U[2] + rfdot * V[2]) * RE)

def zero(code): return Rec(rc=code, x=0., y=0., z=0., vx=0., vy=0., vz=0.)

def posn_vel(m, xnode, a, ecc, cosio, sinio, xincl, omega, xl):
    axn, ayn, capu = kepler_elements(m, xnode, a, ecc, cosio, sinio, omega, xl)
    code = orbit_class(m, a, ecc, axn * axn + ayn * ayn)
    if code in (PARABOLIC, NEGATIVE_A): return zero(code)
    E = capu
    for i in range(10):
        n = kepler_step(m, axn, ayn, capu, ecc, E, i == 0)
        if n is None:
            o = place(m, xnode, a, ecc, cosio, sinio, xincl, axn, ayn, E); o.rc = code; return o
        E = n
    return zero(NOT_CONVERGED)

# ------------------------------------------------------------------ SGP4
def sgp4_mean(m, E, t):
    """arguments of the position: xnode, a, e, cosio, sinio, xincl, omega, xl"""
    D = brouwer(m, E); C = drag(m, E, D)
    eta = D.aodp * E.eo * C.tsi; eeta = E.eo * eta; tsi = C.tsi; c1 = C.c1; tsq = t * t
    simple = m.lt(D.aodp * (1 - E.eo) / 1., 220. / RE + 1.)
    xmdf = E.xmo + D.xmdot * t; omgadf = E.omegao + D.omgdot * t
    omega, xmp = omgadf, xmdf
    xnode = E.xnodeo + D.xnodot * t + C.xnodcf * tsq
    tempa = 1 - c1 * t; tempe = E.bstar * C.c4 * t; templ = C.t2cof * tsq
    if not simple:
        c1sq = c1 * c1
        delmo = (1. + eta * m.cos(E.xmo)); delmo = delmo * (delmo * delmo)
        d2 = 4 * D.aodp * tsi * c1sq; k = d2 * tsi * c1 / 3
        d3 = (17 * D.aodp + C.s4) * k; d4 = 0.5 * k * D.aodp * tsi * (221 * D.aodp + 31 * C.s4) * c1
        t3 = d2 + 2 * c1sq; t4 = 0.25 * (3 * d3 + c1 * (12 * d2 + 10 * c1sq))
        t5 = 0.2 * (3 * d4 + 12 * c1 * d3 + 6 * d2 * d2 + 15 * c1sq * (2 * d2 + c1sq))
        if m.lt(E.eo, MIN_E): omgcof = xmcof = 0.
        else:
            c3 = C.coef * tsi * A3OVK2 * D.xnodp * 1. * D.sinio / E.eo
            xmcof = -TT * C.coef * E.bstar * 1. / eeta; omgcof = E.bstar * c3 * m.cos(E.omegao)
        etasq = eta * eta
        c5 = 2 * C.coef1 * D.aodp * D.betao2 * (1 + 2.75 * (etasq + eeta) + eeta * etasq)
        delm = 1. + eta * m.cos(xmdf)
        delm = xmcof * (delm * delm * delm - delmo)
        shift = omgcof * t + delm
        xmp = xmdf + shift; omega = omgadf - shift
        tcube = tsq * t; tfour = t * tcube
        tempa = tempa - d2 * tsq - d3 * tcube - d4 * tfour
        tempe = tempe + E.bstar * c5 * (m.sin(xmp) - m.sin(E.xmo))
        templ = templ + t3 * tcube + tfour * (t4 + t * t5)
    a = D.aodp * tempa * tempa; e = E.eo - tempe
    if m.lt(e, ECC_EPS): e = m.num(ECC_EPS)
    xl = xmp + omega + xnode + D.xnodp * templ
    if m.lt(tempa, 0.): a = -a
    return xnode, a, e, D.cosio, D.sinio, E.xincl, omega, xl

def sgp4(m, E, t): return posn_vel(m, *sgp4_mean(m, E, t))

# ------------------------------------------------------------------ deep space
ZNS, ZNS_DAY, ZNL_DAY, ZNL, THDT = 1.19459e-5, 0.017201977, 0.228027132, 1.5835218e-4, 4.37526908801129966e-3
ZES, ZEL = 0.01675, 0.05490
def thetag(m, jd):
    ut = m.fmod(jd + .5, 1.)
    t = (jd - ut - 2451545.0) / 36525.
    g = 24110.54841 + t * (8640184.812866 + t * (0.093104 - t * 6.2e-6))
    g = m.fmod(g / 86400. + 1.00273790934 * ut, 1.)
    return TWOPI * (g + 1. if m.lt(g, 0.) else g)

def third_body(m, E, D, cc, zn, ze, zcosg, zsing, zcosi, zsini, zcosh, zsinh, low):
    """secular rates and periodic coefficients due to one perturbing body"""
    R = Rec(); cc, zn, ze, zcosg, zsing, zcosi, zsini = map(m.num, (cc, zn, ze, zcosg, zsing, zcosi, zsini))
    a1 = zcosg * zcosh + zsing * zcosi * zsinh; a3 = -zsing * zcosh + zcosg * zcosi * zsinh
    a7 = -zcosg * zsinh + zsing * zcosi * zcosh; a8 = zsing * zsini; a9 = zsing * zsinh + zcosg * zcosi * zcosh; a10 = zcosg * zsini
    a2 = D.cosio * a7 + D.sinio * a8; a4 = D.cosio * a9 + D.sinio * a10; a5 = -D.sinio * a7 + D.cosio * a8; a6 = -D.sinio * a9 + D.cosio * a10
    x1 = a1 * D.cosg + a2 * D.sing; x2 = a3 * D.cosg + a4 * D.sing; x3 = -a1 * D.sing + a2 * D.cosg; x4 = -a3 * D.sing + a4 * D.cosg
    x5, x6, x7, x8 = a5 * D.sing, a6 * D.sing, a5 * D.cosg, a6 * D.cosg
    e2 = D.eosq
    z31 = 12 * x1 * x1 - 3 * x3 * x3; z32 = 24 * x1 * x2 - 6 * x3 * x4; z33 = 12 * x2 * x2 - 3 * x4 * x4
    z1 = 3 * (a1 * a1 + a2 * a2) + z31 * e2; z2 = 6 * (a1 * a3 + a2 * a4) + z32 * e2; z3 = 3 * (a3 * a3 + a4 * a4) + z33 * e2
    z11 = -6 * a1 * a5 + e2 * (-24 * x1 * x7 - 6 * x3 * x5)
    z12 = -6 * (a1 * a6 + a3 * a5) + e2 * (-24 * (x2 * x7 + x1 * x8) - 6 * (x3 * x6 + x4 * x5))
    z13 = -6 * a3 * a6 + e2 * (-24 * x2 * x8 - 6 * x4 * x6)
    z21 = 6 * a2 * a5 + e2 * (24 * x1 * x5 - 6 * x3 * x7)
    z22 = 6 * (a4 * a5 + a2 * a6) + e2 * (24 * (x2 * x5 + x1 * x6) - 6 * (x4 * x7 + x3 * x8))
    z23 = 6 * a4 * a6 + e2 * (24 * x2 * x6 - 6 * x4 * x8)
    z1, z2, z3 = z1 + z1 + D.betao2 * z31, z2 + z2 + D.betao2 * z32, z3 + z3 + D.betao2 * z33
    s3 = cc / D.xnq; s2 = -0.5 * s3 / D.betao; s4 = s3 * D.betao; s1 = -15 * E.eo * s4
    s5 = x1 * x3 + x2 * x4; s6 = x2 * x3 + x1 * x4; s7 = x2 * x4 - x1 * x3
    R.se = s1 * zn * s5; R.si = s2 * zn * (z11 + z13); R.sl = -zn * s3 * (z1 + z3 - 14 - 6 * e2); R.sgh = s4 * zn * (z31 + z33 - 6)
    R.sh = 0. if low else -zn * s2 * (z21 + z23)
    R.e2 = 2 * s1 * s6; R.e3 = 2 * s1 * s7; R.i2 = 2 * s2 * z12; R.i3 = 2 * s2 * (z13 - z11)
    R.l2 = -2 * s3 * z2; R.l3 = -2 * s3 * (z3 - z1); R.l4 = -2 * s3 * (-21 - 9 * e2) * ze
    R.gh2 = 2 * s4 * z32; R.gh3 = 2 * s4 * (z33 - z31); R.gh4 = -18 * s4 * ze
    R.h2 = -2 * s2 * z22; R.h3 = -2 * s2 * (z23 - z21)
    return R

def cubic(x, a, b, c, d): return a + x * (b + x * (c + x * d))
def dpinit(m, E, D):
    """D: the quantities of brouwer/drag plus sing, cosg; returns the deep-space constants"""
    o = Rec(); d = E.epoch - 2415020.
    sinq, cosq = m.sin(E.xnodeo), m.cos(E.xnodeo)
    o.thgr = thetag(m, E.epoch); o.xnq = D.xnodp; o.omegaq = E.omegao; o.preep = d
    D = Rec(D); D.xnq = D.xnodp
    node = 4.5236020 - 9.2422029e-4 * d; sn, cn = m.sin(node), m.cos(node)
    gam = 5.8351514 + 0.0019443680 * d
    ci = 0.91375164 - 0.03568096 * cn; si = m.sqrt(1. - ci * ci)
    sh_ = 0.089683511 * sn / si; ch_ = m.sqrt(1. - sh_ * sh_)
    o.zmol = fmod2p(m, ZNL_DAY * d - 1.1151842); o.zmos = fmod2p(m, 6.2565837 + ZNS_DAY * d)
    zx = m.atan2(0.39785416 * sn / si, ch_ * cn + 0.91744867 * sh_ * sn) + gam - node
    low = m.lt(E.xincl, PI / 60.)
    S = third_body(m, E, D, 2.9864797e-6, ZNS, ZES, 0.1945905, -0.98088458, 0.91744867, 0.39785416, cosq, sinq, low)
    L = third_body(m, E, D, 4.7968065e-7, ZNL, ZEL, m.cos(zx), m.sin(zx), ci, si, ch_ * cosq + sh_ * sinq, sinq * ch_ - cosq * sh_, low)
    for k, f in (('e2', 'se2'), ('e3', 'se3'), ('i2', 'si2'), ('i3', 'si3'), ('l2', 'sl2'), ('l3', 'sl3'), ('l4', 'sl4'), ('gh2', 'sgh2'), ('gh3', 'sgh3'), ('gh4', 'sgh4'), ('h2', 'sh2'), ('h3', 'sh3')): o[f] = S[k]
    for k, f in (('e2', 'ee2'), ('e3', 'e3'), ('i2', 'xi2'), ('i3', 'xi3'), ('l2', 'xl2'), ('l3', 'xl3'), ('l4', 'xl4'), ('gh2', 'xgh2'), ('gh3', 'xgh3'), ('gh4', 'xgh4'), ('h2', 'xh2'), ('h3', 'xh3')): o[f] = L[k]
    o.sse = S.se + L.se; o.ssi = S.si + L.si; o.ssl = S.sl + L.sl
    if m.eq(D.sinio, 0): o.ssh = m.num(0.); o.ssg = S.sgh + L.sgh
    else:
        o.ssh = S.sh / D.sinio + L.sh / D.sinio
        o.ssg = S.sgh - D.cosio * (S.sh / D.sinio) + L.sgh - L.sh * D.cosio / D.sinio
    n = D.xnq; a_ = 1 / D.aodp; c, c2, s = D.cosio, D.cosio2, D.sinio
    if m.ge(n, 0.00826) and m.le(n, 0.00924) and m.ge(E.eo, .5):
        e, q = E.eo, D.eosq
        s2 = s * s
        g201 = -0.306 - (e - 0.64) * 0.440
        f220 = 0.75 * (1 + 2 * c + c2); f221 = 1.5 * s2
        f321 = 1.875 * s * (1 - 2 * c - 3 * c2); f322 = -1.875 * s * (1 + 2 * c - 3 * c2)
        f441 = 35 * s2 * f220; f442 = 39.3750 * s2 * s2
        f522 = 9.84375 * s * (s2 * (1 - 2 * c - 5 * c2) + 0.33333333 * (-2 + 4 * c + 6 * c2))
        f523 = s * (4.92187512 * s2 * (-2 - 4 * c + 10 * c2) + 6.56250012 * (1 + 2 * c - 3 * c2))
        f542 = 29.53125 * s * (2 - 8 * c + c2 * (-12 + 8 * c + 10 * c2))
        f543 = 29.53125 * s * (-2 - 8 * c + c2 * (12 + 8 * c - 10 * c2))
        if m.le(e, 0.65):
            g211 = 3.616 - 13.247 * e + 16.290 * q
            g310 = cubic(e, -19.302, 117.390, -228.419, 156.591); g322 = cubic(e, -18.9068, 109.7927, -214.6334, 146.5816)
            g410 = cubic(e, -41.122, 242.694, -471.094, 313.953); g422 = cubic(e, -146.407, 841.880, -1629.014, 1083.435)
            g520 = cubic(e, -532.114, 3017.977, -5740.032, 3708.276)
        else:
            g211 = cubic(e, -72.099, 331.819, -508.738, 266.724); g310 = cubic(e, -346.844, 1582.851, -2415.925, 1246.113)
            g322 = cubic(e, -342.585, 1554.908, -2366.899, 1215.972); g410 = cubic(e, -1052.797, 4758.686, -7193.992, 3651.957)
            g422 = cubic(e, -3581.69, 16178.11, -24462.77, 12422.52)
            g520 = cubic(e, 1464.74, -4664.75, 3763.64, 0.) if m.le(e, 0.715) else cubic(e, -5149.66, 29936.92, -54087.36, 31324.56)
        if m.lt(e, 0.7):
            g533 = cubic(e, -919.2277, 4988.61, -9064.77, 5542.21); g521 = cubic(e, -822.71072, 4568.6173, -8491.4146, 5337.524)
            g532 = cubic(e, -853.666, 4690.25, -8624.77, 5341.4)
        else:
            g533 = cubic(e, -37995.78, 161616.52, -229838.2, 109377.94); g521 = cubic(e, -51752.104, 218913.95, -309468.16, 146349.42)
            g532 = cubic(e, -40023.88, 170470.89, -242699.48, 115605.82)
        k2 = 3 * n * n * a_ * a_; k3 = k2 * a_; k4 = k3 * a_; k5 = k4 * a_
        r22, r32, r44, r52, r54 = 1.7891679e-6, 3.7393792e-7, 7.3636953e-9, 1.1428639e-7, 2.1765803e-9
        o.d2201 = k2 * r22 * f220 * g201; o.d2211 = k2 * r22 * f221 * g211
        o.d3210 = k3 * r32 * f321 * g310; o.d3222 = k3 * r32 * f322 * g322
        o.d4410 = 2 * k4 * r44 * f441 * g410; o.d4422 = 2 * k4 * r44 * f442 * g422
        o.d5220 = k5 * r52 * f522 * g520; o.d5232 = k5 * r52 * f523 * g532
        o.d5421 = 2 * k5 * r54 * f542 * g521; o.d5433 = 2 * k5 * r54 * f543 * g533
        o.xlamo = E.xmo + E.xnodeo + E.xnodeo - o.thgr - o.thgr
        o.xfact = D.xmdot + D.xnodot + D.xnodot - THDT - THDT + o.ssl + o.ssh + o.ssh - n
        o.resonance_flag, o.synchronous_flag = 1, 0
    elif m.lt(n, 1.2 * TWOPI / 1440.) and m.gt(n, 0.8 * TWOPI / 1440.):
        q = D.eosq; c1 = 1. + c
        g200 = 1 + q * (-2.5 + 0.8125 * q); g300 = 1 + q * (-6 + 6.60937 * q); g310 = 1 + 2 * q
        f311 = 0.9375 * s * s * (1 + 3 * c) - 0.75 * c1; f220 = 0.75 * c1 * c1; f330 = 2.5 * f220 * c1
        k = 3 * n * n * a_ * a_
        o.del1 = k * (f311 * g310 * 2.1460748e-6 * a_); o.del2 = 2 * k * f220 * g200 * 1.7891679e-6; o.del3 = 3 * k * f330 * g300 * 2.2123015e-7 * a_
        o.xlamo = E.xmo + E.xnodeo + E.omegao - o.thgr
        o.xfact = D.xmdot + D.omgdot + D.xnodot - THDT + o.ssl + o.ssg + o.ssh - n
        o.resonance_flag = o.synchronous_flag = 1
    else: o.resonance_flag = o.synchronous_flag = 0
    return o

# cos/sin of the published phase angles of the resonance terms
FASX = {'2': (0.1313091, 0.99139134268488593, 0.13093206501640101), '2*4': (2 * 2.8843198, 0.87051638752972937, -0.49213943048915526), '3*6': (3 * 0.3744809, 0.43258117585763334, 0.90159499016666422)}
G = {'22': (5.7686396, 0.87051638752972937, -0.49213943048915526), '32': (0.95240898, 0.57972190187001149, 0.81481440616389245), '44': (1.8014998, -0.22866241528815548, 0.97350577801807991),
     '52': (1.0508330, 0.49684831179884198, 0.86783740128127729), '54': (4.4108898, -0.29695209575316894, -0.95489237761529999)}
def ph(m, x, g):
    """(sin, cos) of x minus the phase g"""
    s, c = m.sin(x), m.cos(x); return s * g[1] - c * g[2], c * g[1] + s * g[2]
def derivs(m, D, xli, atime):
    """time derivative of the mean motion and its derivative with respect to the resonance longitude"""
    if m.ne0(D.synchronous_flag):
        p = [ph(m, xli, FASX['2']), ph(m, 2 * xli, FASX['2*4']), ph(m, 3 * xli, FASX['3*6'])]
        return (D.del1 * p[0][0] + D.del2 * p[1][0] + D.del3 * p[2][0], D.del1 * p[0][1] + 2. * D.del2 * p[1][1] + 3. * D.del3 * p[2][1])
    w = D.omegaq + D.omgdot * atime
    T = [(D.d2201, 2 * w + xli, '22', 1), (D.d2211, xli, '22', 1), (D.d3210, w + xli, '32', 1), (D.d3222, -w + xli, '32', 1), (D.d5220, w + xli, '52', 1), (D.d5232, -w + xli, '52', 1),
         (D.d4410, 2 * w + 2 * xli, '44', 2), (D.d4422, 2 * xli, '44', 2), (D.d5421, w + 2 * xli, '54', 2), (D.d5433, -w + 2 * xli, '54', 2)]
    a = b = 0
    for d, x, g, k in T:
        s, c = ph(m, x, G[g]); a = a + d * s; b = b + k * (d * c)
    return a, b

STEP = 720.
def dpsec_secular(m, E, D):
    """lunar-solar secular terms (D is updated)"""
    D.xll = D.xll + D.ssl * D.t; D.omgadf = D.omgadf + D.ssg * D.t; D.xnode = D.xnode + D.ssh * D.t
    D.em = E.eo + D.sse * D.t; D.xinc = E.xincl + D.ssi * D.t
def dpsec_start(m, D):
    """integration starts from epoch if that is nearer than the stored state"""
    if m.lt(m.fabs(D.t), m.fabs(D.t - D.atime)): return m.num(0.), D.xlamo, D.xnq
    return D.atime, D.xli, D.xni
def dpsec_step(m, D, atime, xli, xni):
    """one step: (new state, whether t is reached)"""
    a, b = derivs(m, D, xli, atime)
    d = D.t - atime; last = False
    if m.gt(d, STEP): d = m.num(STEP)
    elif m.lt(d, -STEP): d = m.num(-STEP)
    else: last = True
    w = xni + D.xfact
    return (atime + d, xli + d * w + d * d / 2. * a, xni + d * a + d * d / 2. * (b * w)), last
def dpsec_end(m, D, xli, xni):
    D.xn = xni; k = -D.xnode + D.thgr + D.t * THDT
    D.xll = xli + k + (-D.omgadf if m.ne0(D.synchronous_flag) else k)
def dpsec(m, E, D):
    dpsec_secular(m, E, D)
    if not m.ne0(D.resonance_flag): return
    st = dpsec_start(m, D); last = False
    while not last: st, last = dpsec_step(m, D, *st)
    D.atime, D.xli, D.xni = st
    dpsec_end(m, D, D.xli, D.xni)

def periodics(m, D, t):
    """lunar-solar long-period terms at time t: pe, pinc, pl, pgh, ph"""
    out = [0, 0, 0, 0, 0]
    for z0, zn, ze, k in ((D.zmos, ZNS, ZES, ('se2', 'se3', 'si2', 'si3', 'sl2', 'sl3', 'sl4', 'sgh2', 'sgh3', 'sgh4', 'sh2', 'sh3')),
                          (D.zmol, ZNL, ZEL, ('ee2', 'e3', 'xi2', 'xi3', 'xl2', 'xl3', 'xl4', 'xgh2', 'xgh3', 'xgh4', 'xh2', 'xh3'))):
        zm = z0 + zn * t; zf = zm + 2 * ze * m.sin(zm); s = m.sin(zf)
        f2 = 0.5 * s * s - 0.25; f3 = -0.5 * s * m.cos(zf)
        v = [D[n] for n in k]
        for i, x in enumerate((v[0] * f2 + v[1] * f3, v[2] * f2 + v[3] * f3, v[4] * f2 + v[5] * f3 + v[6] * s, v[7] * f2 + v[8] * f3 + v[9] * s, v[10] * f2 + v[11] * f3)): out[i] = out[i] + x
    return out
def dpper(m, E, D):
    if m.ge(m.fabs(D.savtsn - D.t), 30.):
        D.savtsn = D.t
        D.pe, D.pinc, D.pl, D.pgh, D.ph = periodics(m, D, D.t)
    D.xinc = D.xinc + D.pinc
    s, c = m.sin(D.xinc), m.cos(D.xinc)
    D.em = D.em + D.pe; D.xll = D.xll + D.pl; D.omgadf = D.omgadf + D.pgh
    if m.ge(E.xincl, 0.2):
        D.omgadf = D.omgadf - c * (D.ph / s); D.xnode = D.xnode + D.ph / s
    else:           # Lyddane
        sn, cn = m.sin(D.xnode), m.cos(D.xnode)
        al = D.ph * cn + (D.pinc * c + s) * sn; be = -D.ph * sn + (D.pinc * c + s) * cn
        dn = m.atan2(al, be) - D.xnode
        if m.lt(dn, -PI): dn = dn + TWOPI
        elif m.gt(dn, PI): dn = dn - TWOPI
        D.omgadf = D.omgadf + (-D.xnode * s * D.pinc - c * dn); D.xnode = D.xnode + dn

def sdp4_init(m, E):
    D = brouwer(m, E); C = drag(m, E, D)
    D.sing, D.cosg = m.sin(E.omegao), m.cos(E.omegao)
    D.update(dpinit(m, E, D)); D.C = C
    D.savtsn = 1e20; D.atime = 0.
    if D.resonance_flag: D.xli, D.xni = D.xlamo, D.xnq
    return D
def sdp4_mean(m, E, D, t):
    """code, or the arguments of the position; D carries the state from call to call"""
    C = D.C
    D.omgadf = E.omegao + D.omgdot * t; D.xnode = E.xnodeo + D.xnodot * t + C.xnodcf * (t * t)
    D.xn = D.xnodp; D.xll = E.xmo + D.xmdot * t; D.t = t
    dpsec(m, E, D)
    return sdp4_tail(m, E, D, t)
def sdp4_tail(m, E, D, t):
    C = D.C
    k = 1 - C.c1 * t
    if m.lt(D.xn, 0.): return NEGATIVE_XN
    a = m.pow(XKE / D.xn, TT) * k * k
    D.em = D.em - E.bstar * C.c4 * t
    D.xll = D.xll + D.xnodp * C.t2cof * (t * t)
    dpper(m, E, D)
    xl = D.xll + D.omgadf + D.xnode
    return D.xnode, a, D.em, m.cos(D.xinc), m.sin(D.xinc), D.xinc, D.omgadf, xl
def sdp4(m, E, D, t):
    r = sdp4_mean(m, E, D, t)
    return Rec(rc=r) if r == NEGATIVE_XN else posn_vel(m, *r)

# ------------------------------------------------------------------ SGP
def sgp_mean(m, E, t):
    """(rc, quantities) before Kepler's equation"""
    c1, c2, c3 = CK2 * 1.5, CK2 / 4., CK2 / 2.; c4 = m.num(XJ3) / (CK2 * 4.)
    c, s = m.cos(E.xincl), m.sin(E.xincl)
    a1 = m.pow(XKE / E.xno, TT)
    d1 = c1 / a1 / a1 * (c * 3. * c - 1.) / m.pow(1. - E.eo * E.eo, 1.5)
    ao = a1 * (1. - d1 * .33333333333333331 - d1 * d1 - d1 * 1.654320987654321 * d1 * d1)
    po = ao * (1. - E.eo * E.eo); qo = ao * (1. - E.eo)
    n = E.xno / (po * po)
    omgdt = c1 * n * (c * 5. * c - 1.); xnodot = c1 * c * -2. * n
    c5 = c4 * .5 * s * (c * 5. + 3.) / (c + 1.); c6 = c4 * s
    x = E.xno + (E.xndt2o * 2. + E.xndd6o * 3. * t) * t
    if m.lt(x, 0.): return NEGATIVE_A, None
    a = ao * m.pow(E.xno / x, TT); e = 1e-6
    rc = OK
    p, q = m.lt(a * (1. - e), 1.), m.lt(a * (1. + e), 1.)
    if p and q: rc = WITHIN
    elif p or q: rc = PERIGEE
    e = 1. - qo / a if m.gt(a, qo) else m.num(1e-6)
    p = a * (1. - e * e)
    Q = Rec(a=a, xnodes=E.xnodeo + xnodot * t)
    om = E.omegao + omgdt * t
    xls = fmod2p(m, E.xmo + E.omegao + E.xnodeo + (E.xno + omgdt + xnodot + (E.xndt2o + E.xndd6o * t) * t) * t)
    Q.axn = e * m.cos(om); Q.ayn = e * m.sin(om) - c6 / p
    xl = fmod2p(m, xls - c5 / p * Q.axn)
    Q.u = fmod2p(m, xl - Q.xnodes)
    Q.d1o = c3 * s * s; Q.d2o = c2 * (c * 7. * c - 1.); Q.d3o = c1 * c; Q.d4o = c1 * c * s; Q.xincl = E.xincl
    return rc, Q
def sgp_kepler(m, Q, E):
    """correction of one Newton step, at most 1"""
    s, c = m.sin(E), m.cos(E)
    d = (Q.u - Q.ayn * c + Q.axn * s - E) / (1. - c * Q.axn - s * Q.ayn)
    x = m.fabs(d)
    return x / d if m.gt(x, 1.) else d
def sgp_place(m, Q, s, c):
    ec = Q.axn * c + Q.ayn * s; es = Q.axn * s - Q.ayn * c; el2 = Q.axn * Q.axn + Q.ayn * Q.ayn
    pl = Q.a * (1. - el2); pl2 = pl * pl; r = Q.a * (1. - ec)
    rdot = XKE * m.sqrt(Q.a) / r * es; rv = XKE * m.sqrt(pl) / r
    k = es / (m.sqrt(1. - el2) + 1.)
    su = Q.a / r * (s - Q.ayn - Q.axn * k); cu = Q.a / r * (c - Q.axn + Q.ayn * k); u = m.atan2(su, cu)
    s2, c2 = (cu + cu) * su, 1. - 2. * su * su
    return vectors(m, r + Q.d1o / pl * c2, u - Q.d2o / pl2 * s2, Q.xnodes + Q.d3o * s2 / pl2, Q.xincl + Q.d4o / pl2 * c2, rdot, rv)
def sgp_loop(m, Q, st):
    """st: (eccentric anomaly, last correction, step number) -> ('cont', next) or ('exit', place)"""
    E, d, i = st
    s, c = m.sin(E), m.cos(E)
    if m.lt(m.fabs(d), 1e-6): return 'exit', (s, c)
    d = sgp_kepler(m, Q, E)
    if m.lt(i, 10): return 'cont', (E + d, d, i + 1)
    return 'exit', (s, c)
def sgp(m, E, t):
    rc, Q = sgp_mean(m, E, t)
    if Q is None: return zero(rc)
    st = (Q.u, 1., 0)
    while True:
        k, st = sgp_loop(m, Q, st)
        if k == 'exit': o = sgp_place(m, Q, *st); o.rc = rc; return o

# ------------------------------------------------------------------ SGP8 and SDP8
RHO = .15696615
def p8_rates(m, E, D):
    """secular gravity rates"""
    K = Rec()
    D.sing, D.cosg = m.sin(E.omegao), m.cos(E.omegao)
    th2 = D.cosio2; th4 = th2 * th2
    h = E.xincl * .5; K.sini2, K.cosi2 = m.sin(h), m.cos(h)
    K.tthmun = th2 * 3. - 1.; K.unm5th = 1. - th2 * 5.; K.unmth2 = 1. - th2
    po = D.aodp * D.betao2; pom2 = 1. / (po * po)
    p1 = 3. * CK2 * pom2 * D.xnodp; p2 = p1 * CK2 * pom2; p4 = CK4 * 1.25 * pom2 * pom2 * D.xnodp
    K.xmdt1 = .5 * p1 * D.betao * K.tthmun; K.xgdt1 = -.5 * p1 * K.unm5th; K.xhdt1 = -p1 * D.cosio
    D.xmdot = D.xnodp + K.xmdt1 + p2 * .0625 * D.betao * (13. - th2 * 78. + th4 * 137.)
    D.omgdot = K.xgdt1 + p2 * .0625 * (7. - th2 * 114. + th4 * 395.) + p4 * (3. - th2 * 36. + th4 * 49.)
    D.xnodot = K.xhdt1 + (p2 * .5 * (4. - th2 * 19.) + p4 * 2. * (3. - th2 * 7.)) * D.cosio
    return K
def p8_drag(m, E, D, K):
    """first derivative of the mean motion and what the second derivatives need"""
    X = Rec(); b = E.bstar * 2. / RHO; e2 = D.eosq
    X.po = D.aodp * D.betao2; X.tsi = tsi = 1. / (X.po - S_CONST); X.eta = eta = E.eo * S_CONST * tsi; X.eta2 = n2 = eta * eta
    X.psim2 = m.fabs(1. / (1. - n2)); X.alpha2 = e2 + 1.; X.eeta = E.eo * eta; X.cos2g = D.cosg * D.cosg * 2. - 1.
    X.d5 = tsi * X.psim2; X.d1 = X.d5 / X.po; X.d2 = n2 * (n2 * 4.5 + 36.) + 12.; X.d3 = n2 * (n2 * 2.5 + 15.); X.d4 = eta * (n2 * 3.75 + 5.)
    X.b1 = CK2 * K.tthmun; X.b2 = -CK2 * K.unmth2; X.b3 = A3OVK2 * D.sinio
    t2 = tsi * tsi
    X.c0 = b * .5 * RHO * QOMS2T * D.xnodp * D.aodp * (t2 * t2) * m.pow(X.psim2, 3.5) / m.sqrt(X.alpha2)
    X.c1 = D.xnodp * 1.5 * (X.alpha2 * X.alpha2) * X.c0
    X.c4 = X.d1 * X.d3 * X.b2; X.c5 = X.d5 * X.d4 * X.b3
    X.xndt = X.c1 * (n2 * (e2 * 34. + 3.) + 2. + X.eeta * 5. * (n2 + 4.) + e2 * 8.5 + X.d1 * X.d2 * X.b1 + X.c4 * X.cos2g + X.c5 * D.sing)
    X.xndtn = X.xndt / D.xnodp
    return X
def p8_place(m, Q, E):
    """Q: xmam, em, xn, omgasm, xnodes, sini, cosi, th2 and the inclination functions; (s, c, zc5) of the eccentric anomaly"""
    s, c, zc5 = E; em = Q.em
    am = m.pow(XKE / Q.xn, TT); b2 = 1. - em * em; so, co = m.sin(Q.omgasm), m.cos(Q.omgasm)
    axn, ayn = em * co, em * so; pm = am * b2; g1 = 1. / pm; g2 = CK2 * .5 * g1; g3 = g2 * g1; beta = m.sqrt(b2)
    g4 = A3OVK2 * .25 * Q.sini; g5 = A3OVK2 * .25 * g1
    snf = beta * s * zc5; csf = (c - em) * zc5; fm = m.atan2(snf, csf)
    if m.lt(fm, 0.): fm = fm + PI + PI
    snfg = snf * co + csf * so; csfg = csf * co - snf * so
    s2 = snfg * 2. * csfg; c2 = csfg * csfg * 2. - 1.
    ecosf = em * csf; g10 = fm - Q.xmam + em * snf
    rm = pm / (ecosf + 1.); aovr = am / rm; g13 = Q.xn * aovr; g14 = -g13 * aovr
    dr = g2 * (Q.unmth2 * c2 - Q.tthmun * 3.) - g4 * snfg
    diwc = g3 * 3. * Q.sini * c2 - g5 * ayn; di = diwc * Q.cosi
    du = Q.sini2 * (g3 * ((1. - Q.th2 * 7.) * .5 * s2 - Q.unm5th * 3. * g10) - g5 * Q.sini * csfg * (ecosf + 2.)) - g5 * .5 * Q.th2 * axn / Q.cosi2
    lam = fm + Q.omgasm + Q.xnodes + g3 * ((Q.cosi * 6. + 1. - Q.th2 * 7.) * .5 * s2 - (Q.unm5th + Q.cosi * 2.) * 3. * g10) + g5 * Q.sini * (Q.cosi * axn / (Q.cosi + 1.) - (ecosf + 2.) * csfg)
    y4 = Q.sin_half * snfg + csfg * du + snfg * .5 * Q.cosi2 * di
    y5 = Q.sin_half * csfg - snfg * du + csfg * .5 * Q.cosi2 * di
    rr = rm + dr
    rdot = Q.xn * am * em * snf / beta + g14 * (g2 * 2. * Q.unmth2 * s2 + g4 * csfg)
    rv = Q.xn * (am * am) * beta / rm + g14 * dr + am * g13 * Q.sini * diwc
    sl, cl = m.sin(lam), m.cos(lam)
    k = (y5 * sl - y4 * cl) * 2.; ux, vx = y4 * k + cl, y5 * k - sl
    k = (y5 * cl + y4 * sl) * 2.; uy, vy = -y4 * k + sl, -y5 * k + cl
    k = m.sqrt(1. - y4 * y4 - y5 * y5) * 2.; uz, vz = y4 * k, y5 * k
    return Rec(rc=0, x=rr * ux * RE, y=rr * uy * RE, z=rr * uz * RE, vx=(rdot * ux + rv * vx) * RE, vy=(rdot * uy + rv * vy) * RE, vz=(rdot * uz + rv * vz) * RE)
def p8_start(m, Q): return Q.xmam + Q.em * m.sin(Q.xmam) * (Q.em * m.cos(Q.xmam) + 1.), 0
def p8_loop(m, Q, st):
    z, i = st
    s, c = m.sin(z), m.cos(z); k = 1. / (1. - Q.em * c)
    cape = (Q.xmam + Q.em * s - z) * k + z
    if m.le(m.fabs(cape - z), 1e-6): return 'exit', (s, c, k)
    if m.lt(i, 10): return 'cont', (cape, i + 1)
    return 'exit', (s, c, k)
def p8_solve(m, Q):
    st = p8_start(m, Q)
    while True:
        k, st = p8_loop(m, Q, st)
        if k == 'exit': return p8_place(m, Q, st)

def sgp8_mean(m, E, t):
    D = brouwer(m, E); K = p8_rates(m, E, D); D.sinio = m.sin(E.xincl); X = p8_drag(m, E, D, K)
    xnodp, xndt, xndtn, e2, eta, n2, eo = D.xnodp, X.xndt, X.xndtn, D.eosq, X.eta, X.eta2, E.eo
    tsi, b1, b2, b3, d1, d2, d3, d4, d5, c0, c1, c4, c5, cos2g, psim2, alpha2, eeta = (X[k] for k in 'tsi b1 b2 b3 d1 d2 d3 d4 d5 c0 c1 c4 c5 cos2g psim2 alpha2 eeta'.split())
    xmam = fmod2p(m, E.xmo + D.xmdot * t); omgasm = E.omegao + D.omgdot * t; xnodes = E.xnodeo + D.xnodot * t
    if m.gt(m.fabs(xndtn * 1440.), .00216):
        d6 = eta * (n2 * 22.5 + 30.); d7 = eta * (n2 * 12.5 + 5.); d8 = n2 * (n2 + 6.75) + 1.
        d9 = eta * (e2 * 68. + 6.) + eo * (n2 * 15. + 20.); d10 = eta * 5. * (n2 + 4.) + eo * (n2 * 68. + 17.)
        d11 = eta * (n2 * 18. + 72.); d12 = eta * (n2 * 10. + 30.); d13 = n2 * 11.25 + 5.; d20 = TT * .5 * xndtn
        c8 = d1 * d7 * b2; c9 = d5 * d8 * b3; sin2g = D.sing * 2. * D.cosg
        edot = -c0 * (eta * (n2 + 4. + e2 * (n2 * 7. + 15.5)) + eo * (n2 * 15. + 5.) + d1 * d6 * b1 + c8 * cos2g + c9 * D.sing)
        tsdtts = D.aodp * 2. * tsi * (d20 * D.betao2 + eo * edot); aldtal = eo * edot / alpha2
        etdt = (edot + eo * tsdtts) * tsi * S_CONST; psdtps = -eta * etdt * psim2
        c0dtc0 = d20 + tsdtts * 4. - aldtal - psdtps * 7.; c1dtc1 = xndtn + aldtal * 4. + c0dtc0
        d14 = tsdtts - psdtps * 2.; d15 = (d20 + eo * edot / D.betao2) * 2.
        d1dt = d1 * (d14 + d15); d2dt = etdt * d11; d3dt = etdt * d12; d4dt = etdt * d13; d5dt = d5 * d14
        c4dt = b2 * (d1dt * d3 + d1 * d3dt); c5dt = b3 * (d5dt * d4 + d5 * d4dt)
        d16 = d9 * etdt + d10 * edot + b1 * (d1dt * d2 + d1 * d2dt) + c4dt * cos2g + c5dt * D.sing + K.xgdt1 * (c5 * D.cosg - c4 * 2. * sin2g)
        xnddt = c1dtc1 * xndt + c1 * d16
        eddot = c0dtc0 * edot - c0 * ((n2 * 3. + 4. + eeta * 30. + e2 * (n2 * 21. + 15.5)) * etdt + (n2 * 15. + 5. + eeta * (n2 * 14. + 31.)) * edot
                + b1 * (d1dt * d6 + d1 * etdt * (n2 * 67.5 + 30.)) + b2 * (d1dt * d7 + d1 * etdt * (n2 * 37.5 + 5.)) * cos2g
                + b3 * (d5dt * d8 + d5 * etdt * eta * (n2 * 4. + 13.5)) * D.sing + K.xgdt1 * (c9 * D.cosg - c8 * 2. * sin2g))
        d25 = edot * edot; d17 = xnddt / xnodp - xndtn * xndtn
        tsddts = tsdtts * 2. * (tsdtts - d20) + D.aodp * tsi * (TT * D.betao2 * d17 - d20 * 4. * eo * edot + (d25 + eo * eddot) * 2.)
        etddt = (eddot + edot * 2. * tsdtts) * tsi * S_CONST + tsddts * eta
        d18 = tsddts - tsdtts * tsdtts; d19 = -(psdtps * psdtps) / n2 - eta * etddt * psim2 - psdtps * psdtps; d23 = etdt * etdt
        d1ddt = d1dt * (d14 + d15) + d1 * (d18 - d19 * 2. + TT * d17 + (alpha2 * d25 / D.betao2 + eo * eddot) * 2. / D.betao2)
        xntrdt = (xndt * (TT * 2. * d17 + (d25 + eo * eddot) * 3. / alpha2 - aldtal * aldtal * 6. + d18 * 4. - d19 * 7.) + c1dtc1 * xnddt
                  + c1 * (c1dtc1 * d16 + d9 * etddt + d10 * eddot + d23 * (eeta * 30. + 6. + e2 * 68.) + etdt * edot * (n2 * 30. + 40. + eeta * 272.) + d25 * (n2 * 68. + 17.)
                  + b1 * (d1ddt * d2 + d1dt * 2. * d2dt + d1 * (etddt * d11 + d23 * (n2 * 54. + 72.)))
                  + b2 * (d1ddt * d3 + d1dt * 2. * d3dt + d1 * (etddt * d12 + d23 * (n2 * 30. + 30.))) * cos2g
                  + b3 * ((d5dt * d14 + d5 * (d18 - d19 * 2.)) * d4 + d4dt * 2. * d5dt + d5 * (etddt * d13 + eta * 22.5 * d23)) * D.sing
                  + K.xgdt1 * ((d20 * 7. + eo * 4. * edot / D.betao2) * (c5 * D.cosg - c4 * 2. * sin2g)
                               + (c5dt * 2. * D.cosg - c4dt * 4. * sin2g - K.xgdt1 * (c5 * D.sing + c4 * 4. * cos2g)))))
        q = xnddt * 1e9; w = q * q - xndt * 1e18 * xntrdt
        pp = (w + q * q) / w; gamma = -xntrdt / (xnddt * (pp - 2.)); xnd = xndt / (pp * gamma)
        qq = 1. - eddot / (edot * gamma); ed = edot / (qq * gamma); ovgpp = 1. / (gamma * (pp + 1.))
        w = 1. - gamma * t; w1 = m.pow(w, pp)
        xn = xnodp + xnd * (1. - w1); em = eo + ed * (1. - m.pow(w, qq)); z1 = xnd * (t + ovgpp * (w * w1 - 1.))
    else:
        edot = -TT * xndtn * (1. - eo)
        xn = xnodp + xndt * t; em = eo + edot * t; z1 = xndt * .5 * t * t
    z7 = TT * 3.5 * z1 / xnodp
    xmam = fmod2p(m, xmam + z1 + z7 * K.xmdt1); omgasm = omgasm + z7 * K.xgdt1; xnodes = xnodes + z7 * K.xhdt1
    return Rec(xmam=xmam, em=em, xn=xn, omgasm=omgasm, xnodes=xnodes, sini=D.sinio, cosi=D.cosio, th2=D.cosio2, tthmun=K.tthmun, unm5th=K.unm5th, unmth2=K.unmth2,
               sini2=K.sini2, cosi2=K.cosi2, sin_half=K.sini2)
def sgp8(m, E, t): return p8_solve(m, sgp8_mean(m, E, t))

def sdp8_init(m, E):
    D = brouwer(m, E); K = p8_rates(m, E, D); D.sinio = m.sin(E.xincl); X = p8_drag(m, E, D, K)
    K.xndt = X.xndt; K.edot = -TT * X.xndtn * (1. - E.eo)
    D.update(dpinit(m, E, D)); D.K = K
    D.savtsn = 1e20; D.atime = 0.
    if D.resonance_flag: D.xli, D.xni = D.xlamo, D.xnq
    return D
def sdp8_head(m, E, D, t):
    K = D.K
    z1 = K.xndt * .5 * t * t; z7 = TT * 3.5 * z1 / D.xnodp
    D.omgadf = E.omegao + D.omgdot * t + z7 * K.xgdt1; D.xnode = E.xnodeo + D.xnodot * t + z7 * K.xhdt1
    D.xn = D.xnodp; D.xll = E.xmo + D.xmdot * t; D.t = t
    return z1, z7
def sdp8_tail(m, E, D, t, z1, z7):
    K = D.K
    D.xn = D.xn + K.xndt * t; D.em = D.em + K.edot * t
    D.xll = D.xll + z1 + z7 * K.xmdt1
    dpper(m, E, D)
    return Rec(xmam=fmod2p(m, D.xll), em=D.em, xn=D.xn, omgasm=D.omgadf, xnodes=D.xnode, sini=D.sinio, cosi=D.cosio, th2=D.cosio2, tthmun=K.tthmun, unm5th=K.unm5th, unmth2=K.unmth2,
               sini2=K.sini2, cosi2=K.cosi2, sin_half=m.sin(D.xinc * .5))
def sdp8(m, E, D, t):
    z = sdp8_head(m, E, D, t); dpsec(m, E, D)
    return p8_solve(m, sdp8_tail(m, E, D, t, *z))
