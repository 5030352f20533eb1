"""IAU 1980 nutation series: multiples of (l, l', F, D, Omega), sine coefficient of the longitude and its rate,
cosine coefficient of the obliquity and its rate (0.0001 arcsec, per Julian century).
Value check (Standards of Fundamental Astronomy, nut80, MJD 53736): see check_table."""
NUT80 = [
    (0, 0, 0, 0, 1, -171996, -174.2, 92025, 8.9), (0, 0, 2, -2, 2, -13187, -1.6, 5736, -3.1), (0, 0, 2, 0, 2, -2274, -0.2, 977, -0.5),
    (0, 0, 0, 0, 2, 2062, 0.2, -895, 0.5), (0, 1, 0, 0, 0, 1426, -3.4, 54, -0.1), (1, 0, 0, 0, 0, 712, 0.1, -7, 0),
    (0, 1, 2, -2, 2, -517, 1.2, 224, -0.6), (0, 0, 2, 0, 1, -386, -0.4, 200, 0), (1, 0, 2, 0, 2, -301, 0, 129, -0.1),
    (0, 1, -2, 2, -2, -217, 0.5, -95, 0.3), (1, 0, 0, -2, 0, -158, 0, -1, 0), (0, 0, 2, -2, 1, 129, 0.1, -70, 0),
    (1, 0, -2, 0, -2, -123, 0, -53, 0), (0, 0, 0, 2, 0, 63, 0, -2, 0), (1, 0, 0, 0, 1, 63, 0.1, -33, 0),
    (1, 0, -2, -2, -2, 59, 0, 26, 0), (1, 0, 0, 0, -1, 58, 0.1, 32, 0), (1, 0, 2, 0, 1, -51, 0, 27, 0),
    (2, 0, 0, -2, 0, 48, 0, 1, 0), (2, 0, -2, 0, -1, -46, 0, -24, 0), (0, 0, 2, 2, 2, -38, 0, 16, 0),
    (2, 0, 2, 0, 2, -31, 0, 13, 0), (2, 0, 0, 0, 0, 29, 0, -1, 0), (1, 0, 2, -2, 2, 29, 0, -12, 0),
    (0, 0, 2, 0, 0, 26, 0, -1, 0), (0, 0, 2, -2, 0, -22, 0, 0, 0), (1, 0, -2, 0, -1, -21, 0, -10, 0),
    (0, 2, 0, 0, 0, 17, -0.1, 0, 0), (0, 2, 2, -2, 2, -16, 0.1, 7, 0), (1, 0, 0, -2, -1, -16, 0, -8, 0),
    (0, 1, 0, 0, 1, -15, 0, 9, 0), (1, 0, 0, -2, 1, -13, 0, 7, 0), (0, 1, 0, 0, -1, 12, 0, 6, 0),
    (2, 0, -2, 0, 0, 11, 0, 0, 0), (1, 0, -2, -2, -1, 10, 0, 5, 0), (1, 0, 2, 2, 2, -8, 0, 3, 0),
    (1, 1, 0, -2, 0, -7, 0, 0, 0), (0, 1, 2, 0, 2, 7, 0, -3, 0), (0, 1, -2, 0, -2, 7, 0, 3, 0),
    (0, 0, 2, 2, 1, -7, 0, 3, 0), (2, 0, 0, -2, -1, 6, 0, 3, 0), (1, 0, 0, 2, 0, 6, 0, 0, 0),
    (2, 0, 2, -2, 2, 6, 0, -3, 0), (0, 0, 0, 2, 1, -6, 0, 3, 0), (1, 0, 2, -2, 1, 6, 0, -3, 0),
    (0, 1, -2, 2, -1, 5, 0, 3, 0), (0, 0, 0, 2, -1, 5, 0, 3, 0), (1, -1, 0, 0, 0, 5, 0, 0, 0),
    (2, 0, 2, 0, 1, -5, 0, 3, 0), (2, 0, 0, -2, 1, 4, 0, -2, 0), (0, 1, 2, -2, 1, 4, 0, -2, 0),
    (1, 0, 0, -1, 0, -4, 0, 0, 0), (0, 1, 0, -2, 0, -4, 0, 0, 0), (1, 0, -2, 0, 0, 4, 0, 0, 0),
    (0, 0, 0, 1, 0, -4, 0, 0, 0), (2, 0, -2, 0, -2, 3, 0, 1, 0), (1, -1, 0, -1, 0, -3, 0, 0, 0),
    (1, 1, 0, 0, 0, -3, 0, 0, 0), (1, 0, 2, 0, 0, 3, 0, 0, 0), (1, -1, 2, 0, 2, -3, 0, 1, 0),
    (1, 1, -2, -2, -2, 3, 0, 1, 0), (3, 0, 2, 0, 2, -3, 0, 1, 0), (0, 1, -2, -2, -2, 3, 0, 1, 0),
    (0, 2, -2, 2, -1, 2, 0, 1, 0), (2, 0, 0, 0, -1, 2, 0, 1, 0), (1, 1, 2, 0, 2, 2, 0, -1, 0),
    (1, 0, -2, 2, -1, 2, 0, 1, 0), (2, 0, 0, 0, 1, 2, 0, -1, 0), (1, 0, 0, 0, 2, -2, 0, 1, 0),
    (3, 0, 0, 0, 0, 2, 0, 0, 0), (0, 0, 2, 1, 2, 2, 0, -1, 0), (1, 0, -2, -4, -2, 2, 0, 1, 0),
    (2, 0, -2, 0, 1, 1, 0, 0, 0), (2, 1, 0, -2, 0, 1, 0, 0, 0), (0, 0, 2, -2, -1, -1, 0, 0, 0),
    (0, 1, -2, 2, 0, -1, 0, 0, 0), (0, 1, 0, 0, 2, 1, 0, 0, 0), (1, 0, 0, -1, -1, -1, 0, 0, 0),
    (0, 1, 2, -2, 0, -1, 0, 0, 0), (1, 0, 0, 0, -2, -1, 0, -1, 0), (1, 0, 0, -4, 0, -1, 0, 0, 0),
    (2, 0, -2, -2, -2, -1, 0, -1, 0), (2, 0, 0, -4, 0, -1, 0, 0, 0), (1, 1, 2, -2, 2, 1, 0, -1, 0),
    (1, 0, 2, 2, 1, -1, 0, 1, 0), (2, 0, -2, -4, -2, 1, 0, 1, 0), (1, 0, -4, 0, -2, -1, 0, 0, 0),
    (1, -1, 0, -2, 0, 1, 0, 0, 0), (2, 0, 2, -2, 1, 1, 0, -1, 0), (2, 0, 2, 2, 2, -1, 0, 0, 0),
    (1, 0, 0, 2, 1, -1, 0, 0, 0), (0, 0, 4, -2, 2, 1, 0, 0, 0), (3, 0, 2, -2, 2, 1, 0, 0, 0),
    (1, 0, 2, -2, 0, -1, 0, 0, 0), (0, 1, 2, 0, 1, 1, 0, 0, 0), (1, 1, 0, -2, -1, -1, 0, 0, 0),
    (0, 0, 2, 0, -1, 1, 0, 0, 0), (0, 0, 2, -1, 2, -1, 0, 0, 0), (0, 1, 0, 2, 0, -1, 0, 0, 0),
    (1, 0, -2, -2, 0, -1, 0, 0, 0), (0, 1, -2, 0, -1, 1, 0, 0, 0), (1, 1, 0, -2, 1, -1, 0, 0, 0),
    (1, 0, -2, 2, 0, -1, 0, 0, 0), (2, 0, 0, 2, 0, 1, 0, 0, 0), (0, 0, 2, 4, 2, -1, 0, 0, 0),
    (0, 1, 0, 1, 0, 1, 0, 0, 0),
]

def check_table():
    """the table against the published SOFA test value, with the arguments in their published arcsecond form"""
    import math
    AS = math.pi / 648000; t = (2400000.5 - 2451545 + 53736.0) / 36525
    def A(c0, c1, c2, c3, rev): return (c0 + (c1 + (c2 + c3 * t) * t) * t) * AS + (rev * t % 1.0) * 2 * math.pi
    a = (A(485866.733, 715922.633, 31.310, 0.064, 1325), A(1287099.804, 1292581.224, -0.577, -0.012, 99), A(335778.877, 295263.137, -13.257, 0.011, 1342),
         A(1072261.307, 1105601.328, -6.891, 0.019, 1236), A(450160.280, -482890.539, 7.455, 0.008, -5))
    dp = de = 0
    for r in NUT80:
        x = sum(p * q for p, q in zip(r[:5], a)); dp += (r[5] + r[6] * t) * math.sin(x); de += (r[7] + r[8] * t) * math.cos(x)
    return abs(dp * 1e-4 * AS + 0.9643658353226563965e-5) < 1e-15 and abs(de * 1e-4 * AS - 0.4060051006879713322e-4) < 1e-15
