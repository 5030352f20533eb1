/* Native falsifier of C01-C03: the public functions of the compiled HEALPix library against an independent statement
   of the pixelisation, exhaustively at low orders, at region boundaries and at random above. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <math.h>
#include <stdint.h>
#include "chealpix.h"
typedef int64_t I; typedef long double LD;
#define PI 3.141592653589793238462643383279502884197L
static long nev, nfail; static char cur[300];
static uint64_t rs;
static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static double u01(void) { return (rnd() >> 11) * 0x1p-53; }
static void crash(int s) { char b[400]; int n = snprintf(b, sizeof b, "FAIL|returns normally without overflow|%s|signal %d|normal return\n", cur, s); fflush(stdout); write(1, b, n); _exit(3); }
static void fail(const char *cl, const char *in, const char *got, const char *want) { printf("FAIL|%s|%s|%s|%s\n", cl, in, got, want); if (++nfail > 20) { printf("%ld evaluations\n", nev); exit(0); } }
static void failI(const char *cl, I got, I want) { char a[40], b[40]; sprintf(a, "%lld", (long long)got); sprintf(b, "%lld", (long long)want); fail(cl, cur, a, b); }
static const int JR[] = {2,2,2,2,3,3,3,3,4,4,4,4}, JP[] = {1,3,5,7,0,2,4,6,1,3,5,7};
static I inter(int k, I x, I y, int f) { I v = (I)f << 2 * k; for (int i = 0; i < k; i++) v |= ((x >> i & 1) << 2 * i) | ((y >> i & 1) << (2 * i + 1)); return v; }
static void deinter(int k, I p, I *x, I *y, int *f) { *f = p >> 2 * k; *x = *y = 0; for (int i = 0; i < k; i++) { *x |= (p >> 2 * i & 1) << i; *y |= (p >> (2 * i + 1) & 1) << i; } }
static I ringno(int k, I x, I y, int f, I *nrp, I *jrp, int *ksp, I *jpp) {
  I n = (I)1 << k, jr = JR[f] * n - x - y - 1, nr, b; int ks = 0;
  if (jr < n) { nr = jr; b = 2 * nr * (nr - 1); } else if (jr > 3 * n) { nr = 4 * n - jr; b = 12 * n * n - 2 * (nr + 1) * nr; }
  else { nr = n; b = 2 * n * (n - 1) + (jr - n) * 4 * n; ks = (jr - n) & 1; }
  I jp = (JP[f] * nr + x - y + 1 + ks) / 2; if (jp > 4 * n) jp -= 4 * n; if (jp < 1) jp += 4 * n;
  if (nrp) { *nrp = nr; *jrp = jr; *ksp = ks; *jpp = jp; }
  return b + jp - 1; }
static I n2r(int k, I p) { I x, y; int f; deinter(k, p, &x, &y, &f); return ringno(k, x, y, f, 0, 0, 0, 0); }

static void pix01(int k, I p) {
  I n = (I)1 << k, np = 12 * n * n, x, y; int f; deinter(k, p, &x, &y, &f);
  I want = ringno(k, x, y, f, 0, 0, 0, 0); int64_t r = -9, q = -9;
  sprintf(cur, "nest2ring64 nside=%lld pixel=%lld", (long long)n, (long long)p); nest2ring64(n, p, &r);
  if (r < 0 || r >= np) failI("ring number in range", r, want); else if (r != want) failI("nest2ring64 follows the ring scheme", r, want);
  sprintf(cur, "ring2nest64 nside=%lld pixel=%lld", (long long)n, (long long)want); ring2nest64(n, want, &q); if (q != p) failI("ring2nest64 inverts nest2ring64", q, p);
  nev += 2;
  if (k <= 13) { long a = -9, b = -9;
    sprintf(cur, "nest2ring nside=%lld pixel=%lld", (long long)n, (long long)p); nest2ring(n, p, &a); if (a != want) failI("nest2ring agrees", a, want);
    sprintf(cur, "ring2nest nside=%lld pixel=%lld", (long long)n, (long long)want); ring2nest(n, want, &b); if (b != p) failI("ring2nest inverts nest2ring", b, p); nev += 2; } }
static I r2n(int k, I r) { int64_t q; ring2nest64((I)1 << k, r, &q); return q; }
static void each(int k, void (*fn)(int, I), int full, int depth) {
  I n = (I)1 << k, np = 12 * n * n;
  if (k <= full) { for (I p = 0; p < np; p++) fn(k, p); return; }
  for (int i = 0; i < 4000 * depth; i++) fn(k, (I)(rnd() % (uint64_t)np));
  for (int f = 0; f < 12; f++) for (int a = 0; a < 6; a++) for (int b = 0; b < 6; b++) { I e[] = {0, 1, n / 2 - 1, n / 2, n - 2, n - 1}; fn(k, inter(k, e[a], e[b], f)); }
  for (int f = 0; f < 12; f++) for (int i = 0; i < 60 * depth; i++) { I a = rnd() % n; fn(k, inter(k, a, 0, f)); fn(k, inter(k, 0, a, f)); fn(k, inter(k, a, n - 1, f)); fn(k, inter(k, n - 1, a, f)); fn(k, inter(k, a, a, f)); fn(k, inter(k, a, n - 1 - a, f)); }
  I cap = 2 * n * (n - 1), B[] = {0, cap, np - cap, np, cap + 4 * n, np / 2};
  for (int b = 0; b < 6; b++) for (I d = -20; d <= 20; d++) { I r = B[b] + d; if (r >= 0 && r < np) { I p = r2n(k, r); if (p >= 0 && p < np) fn(k, p); } }
  for (int i = 0; i < 300 * depth; i++) { I m = 1 + rnd() % n; if (m > n) m = n; for (I d = -1; d <= 1; d++) { I r = 2 * m * (m - 1) + d, s = np - 2 * m * (m + 1) + d; if (r >= 0 && r < np) fn(k, r2n(k, r)); if (s >= 0 && s < np) fn(k, r2n(k, s)); } } }
static void c01(int depth) {
  for (int k = 0; k <= 29; k++) each(k, pix01, depth > 1 ? 10 : 8, depth);
  for (I n = 3; n < 2000; n++) if (n & (n - 1)) { int64_t a = 5, b = 5; long c = 5, d = 5; sprintf(cur, "nside=%lld", (long long)n); nest2ring64(n, n, &a); ring2nest64(n, n, &b); nest2ring(n, n, &c); ring2nest(n, n, &d); nev += 4;
    if (a != -1 || b != -1 || c != -1 || d != -1) failI("other nside refused", a != -1 ? a : b != -1 ? b : c != -1 ? c : d, -1); } }

/* -------- C02 -------- */
static I where_(int k, LD z, LD om, LD phi) { /* ring number of the pixel that contains (z, phi), in long double */
  I n = (I)1 << k; LD za = fabsl(z), tt = fmodl(phi, 2 * PI) / (PI / 2); if (tt < 0) tt += 4; if (tt >= 4) tt = 0;
  I x, y; int f;
  if (om * 3 >= 1) { LD a = n * (0.5L + tt), b = n * z * 0.75L; I jp = (I)floorl(a - b), jm = (I)floorl(a + b); I p = jp / n, m = jm / n;
    f = p == m ? (p | 4) : p < m ? p : m + 8; x = jm & (n - 1); y = n - (jp & (n - 1)) - 1; }
  else { int q = (int)tt; if (q > 3) q = 3; LD t = tt - q, w = n * sqrtl(3 * om); I jp = (I)(t * w), jm = (I)((1 - t) * w); if (jp >= n) jp = n - 1; if (jm >= n) jm = n - 1;
    if (z >= 0) { f = q; x = n - jm - 1; y = n - jp - 1; } else { f = q + 8; x = jp; y = jm; } }
  return ringno(k, x, y, f, 0, 0, 0, 0); }
/* 1-|cos(theta)| without cancellation */
static LD omz(LD th) { LD s = sinl(th), c = fabsl(cosl(th)); return s * s / (1 + c); }
static I at(int k, LD th, LD phi) { return where_(k, cosl(th), omz(th), phi); }
static void centre_of(int k, I r, LD *th, LD *phi) { I n = (I)1 << k, p, x, y, nr, jr, jp; int f, ks; int64_t q;
  /* ring -> centre without the library */
  I cap = 2 * n * (n - 1), np = 12 * n * n; LD o;
  if (r < cap) { nr = (1 + (I)sqrtl(1 + 2.0L * r)) / 2; while (2 * nr * (nr - 1) > r) nr--; while (2 * nr * (nr + 1) <= r) nr++; *phi = (r - 2 * nr * (nr - 1) + 0.5L) * (PI / 2) / nr; *th = 2 * asinl(nr / (LD)n / sqrtl(6)); }
  else if (r >= np - cap) { I s = np - 1 - r; nr = (1 + (I)sqrtl(1 + 2.0L * s)) / 2; while (2 * nr * (nr - 1) > s) nr--; while (2 * nr * (nr + 1) <= s) nr++; *phi = (4 * nr - (s - 2 * nr * (nr - 1)) - 0.5L) * (PI / 2) / nr; *th = PI - 2 * asinl(nr / (LD)n / sqrtl(6)); }
  else { I i = (r - cap) / (4 * n), j = (r - cap) % (4 * n); *th = acosl((n - i) * 2.0L / (3.0L * n)); *phi = (j + (i & 1 ? 0.0L : 0.5L)) * (PI / 2) / n; } }
static int touching(int k, I a, I b) { LD t1, p1, t2, p2; centre_of(k, a, &t1, &p1); centre_of(k, b, &t2, &p2); LD s = sinl((t1 - t2) / 2), h = sinl((p1 - p2) / 2), d = 2 * sqrtl(s * s + sinl(t1) * sinl(t2) * h * h);
  return d <= 3.1L * sqrtl(PI / 3) / ((I)1 << k); }
/* is ring pixel r the pixel of a direction within rounding error of (theta, phi), or a touching one where that error reaches an edge? */
static int near(int k, I r, LD th, LD phi, LD zerr, LD perr) {
  LD z = cosl(th), o = omz(th), w2 = 3 * o; if (w2 > 1) w2 = 1; if (w2 < 1e-300L) w2 = 1e-300L;
  zerr *= 4; perr *= 4; if (perr < 2.4L * zerr / w2) perr = 2.4L * zerr / w2; if (zerr < perr * w2 / 2.4L) zerr = perr * w2 / 2.4L;   /* the box has the proportions of the pixels */
  static const LD D[] = {0, 1, -1, 0.5L, -0.5L, 0.25L, -0.25L, 0.75L, -0.75L, 0.1L, -0.1L};
  uint64_t keep = rs; rs = 88172645463325252ull; I home = at(k, th, phi); int edge = 0;
  for (int i = 0; i < 4121; i++) { LD s = i & 1 ? 1 : 0.1L, a = i < 121 ? D[i % 11] : s * (2 * u01() - 1), b = i < 121 ? D[i / 11] : s * (2 * u01() - 1);
    LD oo = o + a * zerr, zz; if (oo < 0) oo = 0; zz = z < 0 ? oo - 1 : 1 - oo; I w = where_(k, zz, oo, phi + b * perr); if (w == r) { rs = keep; return 1; } if (w != home) edge = 1; }
  rs = keep; return edge && touching(k, r, home); }
static void dircheck(const char *what, int k, I got, LD th, LD phi, LD zerr, LD perr) {
  I n = (I)1 << k; nev++;
  if (got < 0 || got >= 12 * n * n) { failI("pixel number in range", got, at(k, th, phi)); return; }
  if (got == at(k, th, phi)) return;
  if (!near(k, got, th, phi, zerr, perr)) { char c[100]; sprintf(c, "%s: pixel contains the direction (ring number)", what); failI(c, got, at(k, th, phi)); } }
static void dir(int k, double th, double phi, double len) {
  I n = (I)1 << k, q; long l; double ze = 4e-16, pe = 2e-15 * 1 ; LD pr = fmodl((LD)phi, 2 * PI);
  /* the library reduces by the double 2 pi: the error grows with the number of turns */
  pe += fabs(phi) / 6.2 * 2.5e-16 + 1e-300;
  LD sth = sinl(th); LD ze64 = 4e-16 * (fabsl(cosl(th)) > 0.99L ? sth * sth + 1e-300L : 1) ; 
  char in[200]; sprintf(in, "nside=%lld theta=%.17g phi=%.17g", (long long)n, th, phi);
#define T(name, call, val, z_) sprintf(cur, "%s %s", name, in); call; dircheck(name, k, val, th, phi, z_, pe);
  T("ang2pix_ring64", ang2pix_ring64(n, th, phi, &q), q, ze64)
  T("ang2pix_nest64", ang2pix_nest64(n, th, phi, &q), (q < 0 || q >= 12 * n * n) ? q : n2r(k, q), ze64)
  if (k <= 13) { T("ang2pix_ring", ang2pix_ring(n, th, phi, &l), l, ze) T("ang2pix_nest", ang2pix_nest(n, th, phi, &l), (l < 0 || l >= 12 * n * n) ? l : n2r(k, l), ze) }
  if (fabs(phi) < 100) { double v[3]; ang2vec(th, phi, v); LD h = hypotl(v[0], v[1]), t2 = atan2l(h, v[2]), p2 = atan2l(v[1], v[0]);
    if (fabsl(cosl(t2) - cosl(th)) > 1e-15L || (h > 1e-9L && fabsl(sinl(p2 - phi)) > 1e-14L)) fail("ang2vec is the direction", in, "other direction", "same direction");
    for (int i = 0; i < 3; i++) v[i] *= len; double t3, p3; sprintf(cur, "vec2ang %.17g %.17g %.17g", v[0], v[1], v[2]); vec2ang(v, &t3, &p3);
    LD h2 = hypotl(v[0], v[1]), tl = atan2l(h2, v[2]), pl = atan2l(v[1], v[0]); if (pl < 0) pl += 2 * PI;
    if (!(t3 >= 0 && t3 <= M_PI && p3 >= 0 && p3 <= 2 * M_PI) || fabsl(t3 - tl) > 1e-15L * (1 + tl) || (h2 > 0 && fabsl(sinl((p3 - pl) / 2)) > 1e-15L)) { char g[100], w[100]; sprintf(g, "%.17g %.17g", t3, p3); sprintf(w, "%.17Lg %.17Lg", tl, pl); fail("vec2ang is the direction", cur, g, w); }
    pe = 2e-15; sprintf(in, "nside=%lld vec=%.17g,%.17g,%.17g", (long long)n, v[0], v[1], v[2]);
#define TV(name, call, val, z_) sprintf(cur, "%s %s", name, in); call; dircheck(name, k, val, tl, pl, z_, pe);
    sth = sinl(tl); ze64 = 6e-16 * (fabsl(cosl(tl)) > 0.99L ? sth * sth + 1e-300L : 1); ze = 6e-16;
    TV("vec2pix_ring64", vec2pix_ring64(n, v, &q), q, ze64)
    TV("vec2pix_nest64", vec2pix_nest64(n, v, &q), (q < 0 || q >= 12 * n * n) ? q : n2r(k, q), ze64)
    if (k <= 13) { TV("vec2pix_ring", vec2pix_ring(n, v, &l), l, ze) TV("vec2pix_nest", vec2pix_nest(n, v, &l), (l < 0 || l >= 12 * n * n) ? l : n2r(k, l), ze) } } }
static void centre1(const char *name, int k, I num, int nest, double th, double phi, LD z, LD p) {
  char a[120], b[120]; I n = (I)1 << k; sprintf(a, "theta=%.17g phi=%.17g", th, phi); LD t = fabsl(z) > 0.9L ? (z > 0 ? asinl(sqrtl((1 - z) * (1 + z))) : PI - asinl(sqrtl((1 - z) * (1 + z)))) : acosl(z);
  sprintf(b, "theta=%.17Lg phi=%.17Lg", t, p); nev++;
  if (!(th >= 0 && th <= M_PI && phi >= 0 && phi < 2 * M_PI)) fail("centre in range", cur, a, b);
  LD tol = 1e-15L; LD s = sinl(t); 
  if (fabsl(cosl(th) - z) > 1e-15L || fabsl((LD)phi - p) > 3e-15L) fail("centre of the pixel", cur, a, b); }
static void pix02(int k, I pn) {
  I n = (I)1 << k, x, y, nr, jr, jp, q; int f, ks; deinter(k, pn, &x, &y, &f); I pr = ringno(k, x, y, f, &nr, &jr, &ks, &jp);
  LD z = jr < n ? 1 - (LD)nr * nr / (3.0L * n * n) : jr > 3 * n ? (LD)nr * nr / (3.0L * n * n) - 1 : (2 * n - jr) * 2.0L / (3.0L * n), ph = (jp - (ks + 1) * 0.5L) * (PI / 2) / nr;
  double th, p, v[3]; long l; char in[100];
#define CB(cond, cl, got, want) nev++; if (!(cond)) failI(cl, got, want);
#define C(SFX, T, scheme, num) { T b = -9; sprintf(cur, "pix2ang_" #scheme #SFX " nside=%lld pixel=%lld", (long long)n, (long long)num); pix2ang_##scheme##SFX(n, num, &th, &p); centre1(#scheme, k, num, 0, th, p, z, ph); \
    ang2pix_##scheme##SFX(n, th, p, &b); CB(b == num, "centre maps back to its pixel (angles)", b, num) \
    sprintf(cur, "pix2vec_" #scheme #SFX " nside=%lld pixel=%lld", (long long)n, (long long)num); pix2vec_##scheme##SFX(n, num, v); LD L = sqrtl((LD)v[0]*v[0]+(LD)v[1]*v[1]+(LD)v[2]*v[2]), hh = hypotl(v[0], v[1]); \
    if (fabsl(L - 1) > 2e-15L) fail("unit vector", cur, "length differs from 1", "1"); if (fabsl(v[2] - z) > 1e-15L || fabsl(sinl(atan2l(v[1], v[0]) - ph)) > 1e-14L || (fabsl(cosl(ph)) > 1e-3L && v[0] * cosl(ph) < 0)) fail("vector of the centre", cur, "other direction", "centre"); \
    b = -9; vec2pix_##scheme##SFX(n, v, &b); CB(b == num, "centre maps back to its pixel (vector)", b, num) }
  C(64, int64_t, ring, pr) C(64, int64_t, nest, pn)
  if (k <= 13) { C(, long, ring, pr) C(, long, nest, pn) } }
static double nudge(double x, int i) { for (; i > 0; i--) x = nextafter(x, 1e300); for (; i < 0; i++) x = nextafter(x, -1e300); return x; }
static void c02(int depth) {
  for (int k = 0; k <= 29; k++) each(k, pix02, depth > 1 ? 7 : 5, depth == 1 ? 1 : 6);
  double zs[] = {0, 2./3, -2./3, 1, -1, 1./3, -1./3, 0.99, -0.99, 0.5, -0.5};
  double lens[] = {1, 1e-150, 1e150, 3.7, 1e-20, 12345.678};
  for (int k = 0; k <= 29; k++) { I n = (I)1 << k;
    for (int i = 0; i < 1500 * depth; i++) dir(k, acos(2 * u01() - 1), (u01() - 0.25) * 8, lens[rnd() % 6]);
    for (int i = 0; i < 100 * depth; i++) dir(k, u01() * 1e-3 * pow(10, -(int)(rnd() % 16)), u01() * 6.3, 1);
    for (int i = 0; i < 100 * depth; i++) { double t = M_PI - u01() * 1e-3 * pow(10, -(int)(rnd() % 12)); dir(k, t, u01() * 6.3, 1); }
    for (int i = 0; i < 100 * depth; i++) dir(k, u01() * M_PI, (u01() - 0.5) * pow(10, rnd() % 8), 1);
    for (int a = 0; a < 11; a++) for (int d = -3; d <= 3; d++) { double th = nudge(acos(zs[a]), d); if (th < 0) th = 0; if (th > M_PI) th = M_PI;
      for (int e = -9; e <= 17; e++) for (int g = -2; g <= 2; g++) dir(k, th, nudge(e * M_PI / 4, g), 1);
      for (int i = 0; i < 6 * depth; i++) { I j = rnd() % (4 * n + 1); for (int g = -2; g <= 2; g++) dir(k, th, nudge(j * (M_PI / 2) / n, g), 1); dir(k, th, u01() * 6.2831853, 1); } }
    for (int i = 0; i < 150 * depth; i++) { /* ring boundaries, corners of pixels */
      I m = 1 + rnd() % (uint64_t)n; double z = rnd() & 1 ? 1 - (double)m * m / (3. * n * n) : (2. * n - (double)(n + rnd() % (2 * n + 1))) * 2 / (3. * n); if (rnd() & 1) z = -z; I j = rnd() % (4 * m);
      for (int g = -1; g <= 1; g++) dir(k, nudge(acos(z), g), j * (M_PI / 2) / m, 1); dir(k, acos(z), (j + 0.5) * (M_PI / 2) / m, 1); } }
  double vs[][3] = {{1,0,0},{-1,0,0},{0,1,0},{0,-1,0},{0,0,1},{0,0,-1},{1,1,0},{-1,-0.0,0},{1,-0.0,0},{-0.0,0,1},{0,-0.0,-1},{-1,-1e-17,0},{1,-1e-17,0.3},{1,-1e-300,0}};
  for (int k = 0; k <= 29; k++) for (int i = 0; i < 14; i++) for (int j = 0; j < 6; j++) { double v[3]; I n = (I)1 << k, q; long l; for (int a = 0; a < 3; a++) v[a] = vs[i][a] * lens[j];
      LD tl = atan2l(hypotl(v[0], v[1]), v[2]), pl = atan2l(v[1], v[0]); sprintf(cur, "vec2pix nside=%lld vec=%.17g,%.17g,%.17g", (long long)n, v[0], v[1], v[2]);
      vec2pix_ring64(n, v, &q); dircheck("vec2pix_ring64", k, q, tl, pl, 6e-16L, 2e-15L); vec2pix_nest64(n, v, &q); dircheck("vec2pix_nest64", k, q < 0 || q >= 12*n*n ? q : n2r(k, q), tl, pl, 6e-16L, 2e-15L);
      if (k <= 13) { vec2pix_ring(n, v, &l); dircheck("vec2pix_ring", k, l, tl, pl, 6e-16L, 2e-15L); vec2pix_nest(n, v, &l); dircheck("vec2pix_nest", k, l < 0 || l >= 12*n*n ? l : n2r(k, l), tl, pl, 6e-16L, 2e-15L); } } }

/* -------- C03 -------- */
static void count(I np, I want) {
  if (np < 0) return; nev++; sprintf(cur, "npix2nside64 npix=%lld", (long long)np); long r = npix2nside64(np); if (r != want) failI("npix2nside64", r, want);
  if (np < (1LL << 31)) { nev++; sprintf(cur, "npix2nside npix=%lld", (long long)np); r = npix2nside(np); if (r != want) failI("npix2nside", r, want); } }
static void c03(int depth) {
  for (I n = 1; n <= (1 << 29); n = n < 20000 ? n + 1 : n + 1 + rnd() % (depth > 1 ? 100 : 1000)) { I np = 12 * n * n; sprintf(cur, "nside2npix64 %lld", (long long)n); int64_t r = nside2npix64(n); nev++; if (r != np) failI("nside2npix64", r, np);
    if (n <= 8192) { sprintf(cur, "nside2npix %lld", (long long)n); long l = nside2npix(n); nev++; if (l != np) failI("nside2npix", l, np); }
    count(np, n); for (int d = 1; d <= 13; d++) { count(np - d, (n == 1 && d == 12) ? 0 : -1); count(np + d, -1); } }
  for (int k = 0; k <= 29; k++) { I n = (I)1 << k; for (I m = n - 3; m <= n + 3; m++) if (m >= 1 && m <= 1 << 29) { count(12 * m * m, m); count(12 * m * m + 1, -1); if (m > 1) count(12 * m * m - 1, -1); } }
  count(0, 0);
  for (long i = 0; i < 300000L * depth; i++) { I v = rnd() % (12ULL << 58); I m = (I)sqrtl(v / 12.0L); I w = -1; for (I t = m - 1; t <= m + 1; t++) if (t >= 0 && 12 * t * t == v) w = t; count(v, w); } }
int main(int c, char **v) { int depth = atoi(v[3]); rs = 0x9E3779B97F4A7C15ull * (atoi(v[2]) + 1); for (int i = 0; i < 20; i++) rnd();
  signal(SIGILL, crash); signal(SIGTRAP, crash); signal(SIGSEGV, crash); signal(SIGFPE, crash); signal(SIGABRT, crash);
  if (!strcmp(v[1], "C01")) c01(depth); else if (!strcmp(v[1], "C02")) c02(depth); else c03(depth);
  printf("%ld evaluations\n", nev); return 0; }
