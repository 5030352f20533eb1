From 6118c9a4b323933600729f6394d3692395036f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:53 +0000
Subject: [PATCH 01/50] fix: parse_elements read past the line when an angle
 field is not followed by a blank

---
 src/get_el.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/get_el.c b/src/get_el.c
index 7b92ea7..bd569d9 100644
--- a/src/get_el.c
+++ b/src/get_el.c
@@ -21,11 +21,12 @@ converted to radians,  all in one step.    */
 
 static int get_angle( const char *buff)
 {
+   const char *end = buff + 8;    /* never look beyond the field's columns */
    int rval = 0;
 
-   while( *buff == ' ')
+   while( buff < end && *buff == ' ')
       buff++;
-   while( *buff != ' ')
+   while( buff < end && *buff != ' ')
       {
       if( *buff != '.')
          rval = rval * 10 + (int)( *buff - '0');
-- 
2.43.0


From f3696ed055ceb05810bcc0121eb282006151a5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:53 +0000
Subject: [PATCH 02/50] fix: parse_elements looped ~2^32 times on a non-digit
 exponent of the drag terms

---
 src/get_el.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/get_el.c b/src/get_el.c
index bd569d9..86166d4 100644
--- a/src/get_el.c
+++ b/src/get_el.c
@@ -55,7 +55,7 @@ static double sci( const char *string)
       if( ival)
          {
          rval = (double)ival * 1.e-5;
-         if( string[7] != '0')
+         if( string[7] > '0' && string[7] <= '9')
             {
             int exponent = string[7] - '0';
 
-- 
2.43.0


From 36bbacb29b2ed7cea1464c671db847c38fb3998d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:53 +0000
Subject: [PATCH 03/50] fix: tle_checksum read past a 68-character line and
 accepted lines without a check digit

---
 src/get_el.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/get_el.c b/src/get_el.c
index 86166d4..ddfa4de 100644
--- a/src/get_el.c
+++ b/src/get_el.c
@@ -95,6 +95,8 @@ int DLL_FUNC tle_checksum( const char *buff)
          return( -2);
       buff++;
       }
+   if( *buff < '0' || *buff > '9')           /* no check digit */
+      return( -2);
    rval -= *buff++ - '0';
    if( *buff > ' ')                 /* line unterminated */
       rval = -3;
-- 
2.43.0


From 8d0ba66b58c308448d5f07d1ce4218217f92f24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:23 +0000
Subject: [PATCH 04/50] fix: parse_elements aborted on a malformed state vector
 and hid a checksum error of type H records

---
 src/get_el.c | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/get_el.c b/src/get_el.c
index ddfa4de..9ac83ef 100644
--- a/src/get_el.c
+++ b/src/get_el.c
@@ -144,25 +144,24 @@ vx, vy, vz are in 10^-4 m/s,  range +/- 94% c.  The state vectors
 are in the geocentric ecliptic plane of date.  See 'sdp4.cpp' for
 a discussion of how they're actually used.  */
 
-static double get_high_value( const char *iptr)
+static int get_high_value( const char *iptr, double *value)
 {
    int64_t rval = 0;
+   int i, digit;
 
-   assert( *iptr == '+' || *iptr == '-');
-   if( *iptr == '+' || *iptr == '-')
+   if( *iptr != '+' && *iptr != '-')
+      return( -1);               /* not a state vector component */
+   for( i = 1; i < 9; i++)
       {
-      int i, digit;
-
-      for( i = 1; i < 9; i++)
-         {
-         digit = mutant_dehex( iptr[i]);
-         assert( digit >= 0);
-         rval = rval * (int64_t)36 + (int64_t)digit;
-         }
-      if( *iptr == '-')
-         rval = -rval;
+      digit = mutant_dehex( iptr[i]);
+      if( digit < 0)
+         return( -1);
+      rval = rval * (int64_t)36 + (int64_t)digit;
       }
-   return( (double)rval);
+   if( *iptr == '-')
+      rval = -rval;
+   *value = (double)rval;
+   return( 0);
 }
 
 /* Traditionally,  NORAD numbers were stored as five digits.  In 2020, new
@@ -334,10 +333,12 @@ int DLL_FUNC parse_elements( const char *line1, const char *line2, tle_t *sat)
 
          for( i = 0; i < 3; i++)
             {
-            state_vect[i]     = get_high_value( line1 + 33 + i * 10);
-            state_vect[i + 3] = get_high_value( line2 + 33 + i * 10) * 1e-4;
+            if( get_high_value( line1 + 33 + i * 10, state_vect + i)
+                  || get_high_value( line2 + 33 + i * 10, state_vect + i + 3))
+               return( -5);      /* malformed state vector */
+            state_vect[i + 3] *= 1e-4;
             }
-         return( 0);
+         return( checksum_problem);
          }
 
       sat->xmo = (double)get_angle( line2 + 43) * (PI / 180e+4);
-- 
2.43.0


From dd4417babcf826b304e84e20a5a4af2cc51be4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:23 +0000
Subject: [PATCH 05/50] fix: select_ephemeris did not recognise state-vector
 records (type H)

---
 src/basics.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basics.c b/src/basics.c
index ebd3b88..319729b 100644
--- a/src/basics.c
+++ b/src/basics.c
@@ -37,7 +37,7 @@ double FMod2p( const double x)
 #define EPHEM_TYPE_SDP4       '3'
 #define EPHEM_TYPE_SGP8       '4'
 #define EPHEM_TYPE_SDP8       '5'
-#define EPHEM_TYPE_HIGH       'h'
+#define EPHEM_TYPE_HIGH       'H'
 
 /*------------------------------------------------------------------*/
 
-- 
2.43.0


From 2bbb93960f80b45d92f0bccb7b5ea7206b6bc8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:24 +0000
Subject: [PATCH 06/50] fix: the orbit-within-earth warning was always
 overwritten by perigee-within-earth

---
 src/common.c | 2 +-
 src/sgp.c    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common.c b/src/common.c
index a6586b6..7baa15a 100644
--- a/src/common.c
+++ b/src/common.c
@@ -184,7 +184,7 @@ int sxpx_posn_vel( const double xnode, const double a, const double ecc,
       return( rval);
    if( a * (1. - ecc) < 1. && a * (1. + ecc) < 1.)   /* entirely within earth */
       rval = SXPX_WARN_ORBIT_WITHIN_EARTH;     /* remember, e can be negative */
-   if( a * (1. - ecc) < 1. || a * (1. + ecc) < 1.)   /* perigee within earth */
+   else if( a * (1. - ecc) < 1. || a * (1. + ecc) < 1.)   /* perigee within earth */
       rval = SXPX_WARN_PERIGEE_WITHIN_EARTH;
   /* Solve Kepler's' Equation */
    for( i = 0; i < MAX_KEPLER_ITER; i++)
diff --git a/src/sgp.c b/src/sgp.c
index 5f83f2d..194580a 100644
--- a/src/sgp.c
+++ b/src/sgp.c
@@ -96,7 +96,7 @@ int DLL_FUNC SGP( const double tsince, const tle_t *tle, const double *params,
    a = ao * pow( tle->xno / a, two_thirds);
    if( a * (1. - e) < 1. && a * (1. + e) < 1.)   /* entirely within earth */
       rval = SXPX_WARN_ORBIT_WITHIN_EARTH;     /* remember, e can be negative */
-   if( a * (1. - e) < 1. || a * (1. + e) < 1.)   /* perigee within earth */
+   else if( a * (1. - e) < 1. || a * (1. + e) < 1.)   /* perigee within earth */
       rval = SXPX_WARN_PERIGEE_WITHIN_EARTH;
    if (a > qo) e = 1.-qo/a;
    p = a*(1.-e*e);
-- 
2.43.0


From 7b5c22f205990f05cca8fcf00719317b08584567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:24 +0000
Subject: [PATCH 07/50] fix: mjd2date wrote past its buffer for years that need
 more than four characters

---
 src/mjd2date.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mjd2date.c b/src/mjd2date.c
index 8105fd2..9b0b004 100644
--- a/src/mjd2date.c
+++ b/src/mjd2date.c
@@ -61,6 +61,7 @@ char *mjd2date(double mjd)
   l = k / 11L;
   im = (int) (k + 2L - 12L * l);
   iy = (int) (100L * (n - 49L) + i + l);
+  if (iy < 0 || iy > 9999) return 0;  /* would not fit the string */
   h = (int) (f*24);
   f -= h/24.;
   mm = (int) (f*1440);
@@ -115,6 +116,7 @@ char *mjd2datef(double mjd)
   l = k / 11L;
   im = (int) (k + 2L - 12L * l);
   iy = (int) (100L * (n - 49L) + i + l);
+  if (iy < 0 || iy > 9999) return 0;  /* would not fit the string */
   h = (int) (f*24);
   f -= h/24.;
   mm = (int) (f*1440);
-- 
2.43.0


From b75c9d29c27604cac8cfd870bfe84e0204329e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:24 +0000
Subject: [PATCH 08/50] fix: lmst_hr returned a negative GMST for dates before
 2000

---
 src/lmst_hr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lmst_hr.c b/src/lmst_hr.c
index 789b91e..1ddb2eb 100644
--- a/src/lmst_hr.c
+++ b/src/lmst_hr.c
@@ -43,6 +43,8 @@ double lmst_hr(const double jd, double longit, double *gmst)
   *gmst *= 24.;
   while (*gmst > 24.)
 	*gmst -= 24.;
+  if (*gmst < 0.)  /* dates before 2000 */
+	*gmst += 24.;
 
   sid_int = sid_g;
   sid_g = (sid_g - (double)sid_int) * 24.;
-- 
2.43.0


From fd829858d00262286f4bde727d7e9b7b1b8388ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:24 +0000
Subject: [PATCH 09/50] fix: ut2gmst lost up to 0.2 s to single-precision
 constants

---
 src/zenith_site_ra.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/zenith_site_ra.c b/src/zenith_site_ra.c
index b95c5c8..5cc4527 100644
--- a/src/zenith_site_ra.c
+++ b/src/zenith_site_ra.c
@@ -34,13 +34,13 @@ void ut2gmst(double ut1, double *gmst)
   T0 = (jd0 - JD2000)/36525.0;
 
 /* Greenwich Mean Sidereal Time at 0h UT of date */
-  *gmst = (((-2.0e-6*T0 - 3.e-7)*T0 + 9.27701e-2)*T0 + 8640184.7942063F)*T0
-          + 24110.54841F;
+  *gmst = (((-2.0e-6*T0 - 3.e-7)*T0 + 9.27701e-2)*T0 + 8640184.7942063)*T0
+          + 24110.54841;
 #ifdef DEBUG
 printf("GMST0: %lf\n", *gmst);
 #endif
   msday = (((-(4. * 2.0e-6)*T0 - (3. * 3.e-7))*T0 + (2. * 9.27701e-2))*T0
-          + 8640184.7942063F)/(SEC_IN_DAY*36525.) + 1.0;
+          + 8640184.7942063)/(SEC_IN_DAY*36525.) + 1.0;
 
 /* GMST at this UT (in hours) */
   *gmst += msday*secs;
-- 
2.43.0


From 6e90325d5ca478174908bee1ce68fcbd2ea74e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:55 +0000
Subject: [PATCH 10/50] fix: mjd2date took NaN for a valid date

---
 src/mjd2date.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mjd2date.c b/src/mjd2date.c
index 9b0b004..2a2e9fb 100644
--- a/src/mjd2date.c
+++ b/src/mjd2date.c
@@ -30,7 +30,7 @@ char *mjd2date(double mjd)
 
 /* Verify date is acceptable. */
   dj = DJ1 + mjd;
-  if (dj < DJMIN || dj > DJMAX) return 0;
+  if (!(dj >= DJMIN && dj <= DJMAX)) return 0;
 
 /* Copy the date, big then small, and re-align to midnight. */
   if (DJ1 >= mjd) {
@@ -85,7 +85,7 @@ char *mjd2datef(double mjd)
 
 /* Verify date is acceptable. */
   dj = DJ1 + mjd;
-  if (dj < DJMIN || dj > DJMAX) return 0;
+  if (!(dj >= DJMIN && dj <= DJMAX)) return 0;
 
 /* Copy the date, big then small, and re-align to midnight. */
   if (DJ1 >= mjd) {
-- 
2.43.0


From bbfc104ca33ffc3aba7e67848e0b1cd3b7936012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:55 +0000
Subject: [PATCH 11/50] fix: dechalat2alt put objects culminating south of the
 zenith due north

---
 src/dechalat2alt.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dechalat2alt.c b/src/dechalat2alt.c
index c2cde5a..87e506c 100644
--- a/src/dechalat2alt.c
+++ b/src/dechalat2alt.c
@@ -22,13 +22,13 @@ void dechalat2alt(double dec, double ha, double lat, double *alt, double *az, do
 
 /* Manage peculiar cases and calculate Azimuth */
   if ( ha == 0. ) {
-	*az = 0.;
+	cosaz = (dec < lat ? -1. : 1.);  /* culminating South or North of the zenith */
+	*az = (dec < lat ? 180. : 0.);
 	cosha = 1.;
-	cosaz = 1.;
 	sinha = 0.;
 	sinaz = 0.;
 	sinp  = 0.;
-	cosp = -1;
+	cosp = -1. * cosaz;
 	sinlat = sin(lat);
   } else {
 	ha = ha * 15 * DEG2RAD;
-- 
2.43.0


From 3bbd2600ab1fea1c1d8286a8e97a99201fb8e714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:55 +0000
Subject: [PATCH 12/50] fix: dechalat2alt returned altitude 90 at any hour
 angle when declination equals latitude

---
 src/dechalat2alt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dechalat2alt.c b/src/dechalat2alt.c
index 87e506c..7afac58 100644
--- a/src/dechalat2alt.c
+++ b/src/dechalat2alt.c
@@ -74,7 +74,7 @@ void dechalat2alt(double dec, double ha, double lat, double *alt, double *az, do
    }
 
 /* Altitude */
-  if ( fabs(dec - lat) < 1e-6 )
+  if ( sinha == 0. && cosha > 0. && fabs(dec - lat) < 1e-6 )
 	*alt = 90.;
   else
 	*alt = RAD2DEG * asin(cosdec*cosha*coslat + sindec*sinlat);
-- 
2.43.0


From 439a06696b5cdacd8b53632ed09b80a2503f4549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:55 +0000
Subject: [PATCH 13/50] fix: dechalat2alt returned the hour angle in radians as
 azimuth next to a pole

---
 src/dechalat2alt.c | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/dechalat2alt.c b/src/dechalat2alt.c
index 7afac58..bb94d1d 100644
--- a/src/dechalat2alt.c
+++ b/src/dechalat2alt.c
@@ -40,12 +40,7 @@ void dechalat2alt(double dec, double ha, double lat, double *alt, double *az, do
 	    sinlat = -1.;
 	  else
 	    sinlat = 1.;
-          *az = ha;
-	  sinaz = sinha;
-	  cosaz = cosha;
-	  sinp  = 0.;
-	  cosp  = -1. * cosha*cosha - sinha*sinha;
-	} else {
+	} else
 	  sinlat = sin(lat);
 
           *az = atan2(-1. * cosdec*sinha, sindec*coslat - cosdec*cosha*sinlat);  /* due east, due north comp. */
@@ -60,7 +55,6 @@ void dechalat2alt(double dec, double ha, double lat, double *alt, double *az, do
 	    sinp = -1. * sinaz * coslat / cosdec;
 	    cosp = -1. * cosaz * cosha - sinaz * sinha * sinlat;
 	  }
-	}
   }
 
 /* Parallactic angle */
-- 
2.43.0


From 4de559f267e3fa3263498882dc4324b8c4459dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:55 +0000
Subject: [PATCH 14/50] fix: dechalat2alt returned NaN when rounding took the
 sine of the altitude past 1

---
 src/dechalat2alt.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/dechalat2alt.c b/src/dechalat2alt.c
index bb94d1d..c82b7b3 100644
--- a/src/dechalat2alt.c
+++ b/src/dechalat2alt.c
@@ -70,6 +70,13 @@ void dechalat2alt(double dec, double ha, double lat, double *alt, double *az, do
 /* Altitude */
   if ( sinha == 0. && cosha > 0. && fabs(dec - lat) < 1e-6 )
 	*alt = 90.;
-  else
-	*alt = RAD2DEG * asin(cosdec*cosha*coslat + sindec*sinlat);
+  else {
+	double sinalt = cosdec*cosha*coslat + sindec*sinlat;
+
+	if ( sinalt > 1. )  /* rounding */
+	  sinalt = 1.;
+	else if ( sinalt < -1. )
+	  sinalt = -1.;
+	*alt = RAD2DEG * asin(sinalt);
+  }
 }
-- 
2.43.0


From 7e095d90836a99a6afc8e01de7b12ccbe1d0912b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:22 +0000
Subject: [PATCH 15/50] fix: epoch_of_date_to_j2000 left RA outside one turn
 next to the celestial poles

---
 src/observe.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/observe.c b/src/observe.c
index d41d23b..9dcd2b8 100644
--- a/src/observe.c
+++ b/src/observe.c
@@ -119,10 +119,8 @@ void DLL_FUNC epoch_of_date_to_j2000( const double jd, double *ra, double *dec)
   *ra -= t_centuries * ra_rate * 100.;
   *dec -= t_centuries * dec_rate * 100.;
 
-/* LN add: RA in 0 - 2pi range */
-  //*ra = fmod(*ra + PI*10., TWOPI);
+/* LN add: RA in 0 - 2pi range (next to a pole the shift can exceed a turn) */
+  *ra = fmod(*ra, TWOPI);
   if ( *ra < 0. ) 
 	*ra += TWOPI;
-  else if ( *ra >= TWOPI )
-	*ra -= TWOPI;
 }
-- 
2.43.0


From 7c40d823b34ecefb5600616b38a20bc8cb000b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:22 +0000
Subject: [PATCH 16/50] fix: epoch_of_date_to_j2000 returned declinations
 beyond the pole, which made sat_skymap abort in HEALPix

---
 src/observe.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/observe.c b/src/observe.c
index 9dcd2b8..b3a7f9b 100644
--- a/src/observe.c
+++ b/src/observe.c
@@ -119,6 +119,15 @@ void DLL_FUNC epoch_of_date_to_j2000( const double jd, double *ra, double *dec)
   *ra -= t_centuries * ra_rate * 100.;
   *dec -= t_centuries * dec_rate * 100.;
 
+/* Crossed a pole? */
+  if ( *dec > PI/2. ) {
+	*dec = PI - *dec;
+	*ra += PI;
+  } else if ( *dec < -PI/2. ) {
+	*dec = -PI - *dec;
+	*ra += PI;
+  }
+
 /* LN add: RA in 0 - 2pi range (next to a pole the shift can exceed a turn) */
   *ra = fmod(*ra, TWOPI);
   if ( *ra < 0. ) 
-- 
2.43.0


From 02d893c9bb81cebef7520d9971cb8b02368377aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:22 +0000
Subject: [PATCH 17/50] fix: sat_geoLocation returned a wrong altitude on the
 polar axis

---
 src/sat_skymap.c     | 3 ++-
 src/sat_visibility.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 038ea04..1c46e34 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -336,7 +336,8 @@ void sat_geoLocation(double gmst, double *pos,  Geoloc *geo) {
 	geo->lat = atan2(pos[2] + ERAD * c * e2 * sinphi, r);
   } while (fabs(geo->lat - phi) >= 1e-10);
 
-  geo->alt = r/cos(geo->lat) - ERAD * c;  /* kilometers */
+  sinphi = sin(geo->lat);
+  geo->alt = r * cos(geo->lat) + pos[2] * sinphi - ERAD * sqrt(1. - e2 * sinphi * sinphi);  /* kilometers */
 
   geo->lat *= RAD2DEG;  /* degrees */
    if (geo->lat > 90.)
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index d9d0e06..f8f71c0 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -475,7 +475,8 @@ void sat_geoLocation(double *pos) {
 	geo.lat = atan2(pos[2] + ERAD * c * e2 * sinphi, r);
   } while (fabs(geo.lat - phi) >= 1e-10);
 
-  geo.alt = r/cos(geo.lat) - ERAD * c;  /* kilometers */
+  sinphi = sin(geo.lat);
+  geo.alt = r * cos(geo.lat) + pos[2] * sinphi - ERAD * sqrt(1. - e2 * sinphi * sinphi);  /* kilometers */
 
   geo.lat *= RAD2DEG;  /* degrees */
    if (geo.lat > 90.)
-- 
2.43.0


From 0d93566696c87e4f308c6bac7ebd9cc95c51b6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:06 +0000
Subject: [PATCH 18/50] fix: trimend wrote before the buffer for an empty
 string

---
 src/sat_skymap.c     | 6 +++---
 src/sat_visibility.c | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 1c46e34..5054496 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -146,9 +146,9 @@ char *trimend(char *str)
 {
   char *end;
 
-  end = str + strlen(str) - 1;
-  while(end > str && isspace((unsigned char)*end)) end--;
-  end[1] = '\0';
+  end = str + strlen(str);
+  while(end > str && isspace((unsigned char)end[-1])) end--;
+  *end = '\0';
 
   return str;
 }
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index f8f71c0..ea1c6e3 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -297,9 +297,9 @@ char *trimend(char *str)
 {
   char *end;
 
-  end = str + strlen(str) - 1;
-  while(end > str && isspace((unsigned char)*end)) end--;
-  end[1] = '\0';
+  end = str + strlen(str);
+  while(end > str && isspace((unsigned char)end[-1])) end--;
+  *end = '\0';
 
   return str;
 }
-- 
2.43.0


From d4226a2b0465e4674d0fa1dd33e7b221e6809484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:06 +0000
Subject: [PATCH 19/50] fix: satellite names of 23 or more characters were not
 terminated

---
 src/sat_skymap.c     | 6 ++++--
 src/sat_visibility.c | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 5054496..23c7f3c 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -348,7 +348,7 @@ void sat_geoLocation(double gmst, double *pos,  Geoloc *geo) {
 int main(int argc, char **argv)
 {
   char errmsg[128] = {""}, tle_path[128] = {"."}, line1[100], line2[100],
-	sat_name[25], tle_path_file[200], opt, *endptr;
+	sat_name[24], tle_path_file[200], opt, *endptr;
   double jd, rho_sin_phi, rho_cos_phi, observer_loc[3], observer_loc2[3],
 	 target_ra, target_dec, target_lon = 0, target_lat = 0;
   int i, par_pos, status = 0, n_sats_found = 0, n_sats = 0, n_sunlit_sats = 0,
@@ -708,6 +708,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
     }
 
     strncpy(sat_name, line1, 23);
+    sat_name[23] = '\0';
     trimend(sat_name);
 
     while ( fgets(line2, sizeof(line2), ifile) ) {
@@ -735,7 +736,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 		if ( !memcmp(intl_desig, p.intl_desig, len_intl_desig) )
 		  single_sat_found = true;
 	} else if ( p.satname_filter ) {
-		if ( memcmp(sat_name, p.satname, len_satname) )
+		if ( strncmp(sat_name, p.satname, len_satname) )
 		continue;
 	}
  
@@ -917,6 +918,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
       strcpy(line1, line2);
       if ( line2[0] != '1' && line2[0] != '2' ) {
 	  strncpy(sat_name, line2, 23);
+	  sat_name[23] = '\0';
 	  trimend(sat_name);
       }
     }  // end while fgets(line2 ...
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index ea1c6e3..cd9008d 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -542,7 +542,7 @@ void get_sat_PA_and_speed(double t_since) {
 int main(int argc, char **argv)
 {
   char errmsg[128] = {""}, tle_path[128] = {"."}, line1[100], line2[100],
-	sat_name[25], tle_path_file[200], opt, *endptr;
+	sat_name[24], tle_path_file[200], opt, *endptr;
   double jd[2], rho_sin_phi, rho_cos_phi,
 	 target_ra_rad, target_dec_rad;
   int i, par_pos, status = 0, n_sats_found = 0,
@@ -759,6 +759,7 @@ int main(int argc, char **argv)
     }
 
     strncpy(sat_name, line1, 23);
+    sat_name[23] = '\0';
     trimend(sat_name);
 
     while ( fgets(line2, sizeof(line2), ifile) ) {
@@ -791,6 +792,7 @@ int main(int argc, char **argv)
       strcpy(line1, line2);
       if ( line2[0] != '1' && line2[0] != '2' ) {
 	strncpy(sat_name, line2, 23);
+	sat_name[23] = '\0';
 	trimend(sat_name);
       }
     }  // end while fgets(line2 ...
-- 
2.43.0


From 37f65f0600ea53585cc3da1694b40bb7b05d1e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:06 +0000
Subject: [PATCH 20/50] fix: an option without its value crashed and joined
 switches looped forever in the tools

---
 src/sat_skymap.c     | 16 +++++++++-------
 src/sat_visibility.c | 12 +++++++++---
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 23c7f3c..661a853 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -397,14 +397,22 @@ int main(int argc, char **argv)
   p.alt_max = 1e32;
 
 
+  const char *opt_with_value = "adDijlnprsSt";  /* the other options are switches */
+
 /* Note: no check on validity of input parameters! Could also use getarg. */
 
   for ( i = 1; i < argc; i++ )
     if ( argv[i][0] == '-' ) {
 		opt = argv[i][1];
 		par_pos = 2;
-		if ( argv[i][2] == 0 ) {  /* blank after option */
+		if ( opt && strchr(opt_with_value, opt) && argv[i][2] == 0 ) {  /* blank after option */
 //if ( argv[i+1][0] != '-' )  /* No, because of possible negative numbers after the param */
+		  if ( i + 1 == argc ) {
+		    open_json();
+		    sprintf(errmsg, "Missing value for command-line option '-%c'", opt);
+		    close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		    exit(-2);
+		  }
 		  ++i;
 		  par_pos = 0;
 		}
@@ -417,27 +425,21 @@ int main(int argc, char **argv)
  	  case 'E':
 		p.geoloc_reference = true;
 		p.geoloc_requested = true;
-		i--;
 		break;
  	  case 'G':
 		p.geoloc_requested = true;
-		i--;
 		break;
  	  case 'H':
 		p.haversine = true;
-		i--;
 		break;
  	  case 'I':
 		p.info_only = true;
-		i--;
 		break;
  	  case 'T':
 		p.use_deftledir = true;
-		i--;
 		break;
  	  case 'V':
 		p.sunlit_only = true;
-		i--;
 		break;
 
 	  /* Parameters */
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index cd9008d..9cf5ded 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -572,14 +572,22 @@ int main(int argc, char **argv)
   p.alt_max = 1e32;
 
 
+  const char *opt_with_value = "adDijlrst";  /* the other options are switches */
+
 /* Note: no check on validity of input parameters! Could also use getarg. */
 
   for ( i = 1; i < argc; i++ )
     if ( argv[i][0] == '-' ) {
 		opt = argv[i][1];
 		par_pos = 2;
-		if ( argv[i][2] == 0 ) {  /* blank after option */
+		if ( opt && strchr(opt_with_value, opt) && argv[i][2] == 0 ) {  /* blank after option */
 //if ( argv[i+1][0] != '-' )  /* No, because of possible negative numbers after the param */
+		  if ( i + 1 == argc ) {
+		    open_json();
+		    sprintf(errmsg, "Missing value for command-line option '-%c'", opt);
+		    close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found);
+		    exit(-2);
+		  }
 		  ++i;
 		  par_pos = 0;
 		}
@@ -591,11 +599,9 @@ int main(int argc, char **argv)
 		exit(0);
  	  case 'N':
 		p.skip_daytime = true;
-		i--;
 		break;
  	  case 'T':
 		p.use_deftledir = true;
-		i--;
 		break;
 
 	  /* Parameters */
-- 
2.43.0


From 6f41e8f888bfb40c94f234275ac731e610611aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 21/50] fix: long command-line values overflowed the fixed-size
 buffers of the tools

---
 src/sat_skymap.c         | 46 ++++++++++++++++++++--------------------
 src/sat_skymap_def.h     |  4 ++--
 src/sat_visibility.c     | 36 +++++++++++++++----------------
 src/sat_visibility_def.h |  4 ++--
 4 files changed, 45 insertions(+), 45 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 661a853..222db95 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -347,7 +347,7 @@ void sat_geoLocation(double gmst, double *pos,  Geoloc *geo) {
 
 int main(int argc, char **argv)
 {
-  char errmsg[128] = {""}, tle_path[128] = {"."}, line1[100], line2[100],
+  char errmsg[256] = {""}, tle_path[128] = {"."}, line1[100], line2[100],
 	sat_name[24], tle_path_file[200], opt, *endptr;
   double jd, rho_sin_phi, rho_cos_phi, observer_loc[3], observer_loc2[3],
 	 target_ra, target_dec, target_lon = 0, target_lat = 0;
@@ -360,7 +360,7 @@ int main(int argc, char **argv)
 
   if ( argc < 2 ) {
 	open_json();
-	sprintf(errmsg, "Example usage:\n %s default.tle -l-29.25627,-70.73805,2400 -p90.5,-30.3 -j58861.5 -r20", progname);
+	snprintf(errmsg, sizeof(errmsg), "Example usage:\n %s default.tle -l-29.25627,-70.73805,2400 -p90.5,-30.3 -j58861.5 -r20", progname);
  	close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(0);
   }
@@ -409,7 +409,7 @@ int main(int argc, char **argv)
 //if ( argv[i+1][0] != '-' )  /* No, because of possible negative numbers after the param */
 		  if ( i + 1 == argc ) {
 		    open_json();
-		    sprintf(errmsg, "Missing value for command-line option '-%c'", opt);
+		    snprintf(errmsg, sizeof(errmsg), "Missing value for command-line option '-%c'", opt);
 		    close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		    exit(-2);
 		  }
@@ -454,15 +454,15 @@ int main(int argc, char **argv)
 		p.geoloc_requested = true;
 		break;
           case 'd':
-		strcpy(p.date, argv[i] + par_pos);
+		snprintf(p.date, sizeof(p.date), "%s", argv[i] + par_pos);
 		date2mjd_nf(argv[i] + par_pos, &p.mjd);
 		break;
  	  case 'D':
-		strcpy(tle_path, argv[i] + par_pos);
+		snprintf(tle_path, sizeof(tle_path), "%s", argv[i] + par_pos);
 		p.use_deftledir = false;
 		break;
           case 'i':
-		strcpy(p.intl_desig, argv[i] + par_pos);
+		snprintf(p.intl_desig, sizeof(p.intl_desig), "%s", argv[i] + par_pos);
 		len_intl_desig = strlen(p.intl_desig);
 		p.single_sat_i = true;
 		p.altrng_requested = false;  // No altitude filter
@@ -479,7 +479,7 @@ int main(int argc, char **argv)
 		  p.lon += 360;
 		if ( p.lat < -90. || p.lat > 90. )  {
 		  open_json();
-		  sprintf(errmsg, "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
+		  snprintf(errmsg, sizeof(errmsg), "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
   		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
@@ -492,13 +492,13 @@ int main(int argc, char **argv)
 		sscanf(argv[i] + par_pos, "%lf,%lf", &p.ra_deg, &p.de_deg);
 		if ( p.ra_deg < 0. || p.ra_deg > 360. )  {
 		  open_json();
-		  sprintf(errmsg, "RA must be in the range [0, 360[ degrees. Read '%lf'", p.ra_deg);
+		  snprintf(errmsg, sizeof(errmsg), "RA must be in the range [0, 360[ degrees. Read '%lf'", p.ra_deg);
   		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
 		if ( p.de_deg < -90. || p.de_deg > 90. )  {
 		  open_json();
-		  sprintf(errmsg, "Dec must be in the range [-90, +90] degrees. Read '%lf'", p.de_deg);
+		  snprintf(errmsg, sizeof(errmsg), "Dec must be in the range [-90, +90] degrees. Read '%lf'", p.de_deg);
   		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
@@ -514,7 +514,7 @@ int main(int argc, char **argv)
 		in_region = false;
 		break;
           case 'S':
-		strcpy(p.satname, argv[i] + par_pos);
+		snprintf(p.satname, sizeof(p.satname), "%s", argv[i] + par_pos);
 		len_satname = strlen(p.satname);
 		p.satname_filter = true;
 		break;
@@ -523,7 +523,7 @@ int main(int argc, char **argv)
 		break;
           default:
 		open_json();
-		sprintf(errmsg, "Unrecognized command-line option '%s'", argv[i]);
+		snprintf(errmsg, sizeof(errmsg), "Unrecognized command-line option '%s'", argv[i]);
   		close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(-2);
 		break;
@@ -534,7 +534,7 @@ int main(int argc, char **argv)
 
 /* Use default TLE repository dir. ? */
   if ( p.use_deftledir )
-	strcpy(tle_path, DEF_TLEDIR);
+	snprintf(tle_path, sizeof(tle_path), "%s", DEF_TLEDIR);
 
   if ( !in_geopos ) {
 	Usage();
@@ -563,9 +563,9 @@ int main(int argc, char **argv)
   if ( *argv[iarg] == '@' ) {
 	input_list = true;
 	//tle_list_file = ++argv[1];
-	sprintf(tle_list_file, "%s/%s", tle_path, ++argv[iarg]);
+	snprintf(tle_list_file, sizeof(tle_list_file), "%s/%s", tle_path, ++argv[iarg]);
 	if ( !(lisfile = fopen(tle_list_file, "rb")) ) {
-		sprintf(errmsg, "Could not open input file %s", tle_list_file);
+		snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_list_file);
   		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(2);
 	}
@@ -584,7 +584,7 @@ int main(int argc, char **argv)
   bool single_sat = false, single_sat_found = false, read_tle_list = true;
 
   if ( (sbuff = (char *)malloc(max_satbuff)) == NULL ) {
-	sprintf(errmsg, "Could not allocate required buffer memory");
+	snprintf(errmsg, sizeof(errmsg), "Could not allocate required buffer memory");
   	close_stat_json(argc, argv, input_list, 3, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(3);
   }
@@ -676,9 +676,9 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
     char *lastchar;
     if ( !input_list ) {
 	if ( strchr(p.tle_file_name, '/') == NULL )
-	  sprintf(tle_path_file, "%s/%s", tle_path, p.tle_file_name);
+	  snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, p.tle_file_name);
 	else
-	  strcpy(tle_path_file, p.tle_file_name);
+	  snprintf(tle_path_file, sizeof(tle_path_file), "%s", p.tle_file_name);
 	read_tle_list = false;
     } else {
 
@@ -692,19 +692,19 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	  *lastchar = (char) 0;
 	if ( strlen(row) == 0 )  /* Skip empty lines */
 	  continue;
-	sprintf(tle_path_file, "%s/%s", tle_path, tle_file_name);
+	snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, tle_file_name);
     }
 //printf("\ntle_path_file: %s\n\n", tle_path_file);
  
     if ( !(ifile = fopen(tle_path_file, "rb")) ) {  /* Report error message and stop */
-	sprintf(errmsg, "Could not open input file %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_path_file);
   	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(2);
     }
 
 
     if ( !fgets( line1, sizeof(line1), ifile) ) {
-	sprintf(errmsg, "Could not read first TLE line from file %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Could not read first TLE line from file %s", tle_path_file);
 	close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(-2);
     }
@@ -755,7 +755,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 		  cur_bufflen += extra_satbuff;
 //printf("\nRealloc extra bytes. Now %d \n", cur_bufflen);
 		  if ( (sbuff = (char *)realloc(sbuff, cur_bufflen)) == NULL ) {
-		    sprintf(errmsg, "Could not allocate required buffer memory");
+		    snprintf(errmsg, sizeof(errmsg), "Could not allocate required buffer memory");
 		    close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		    exit(1);
 		  }
@@ -785,7 +785,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 
 /* For malformed or partial tle (e.g. Bepi-Colombo) this could happen */
 	if ( isnan(ra) || isnan(dec) ) {
-		sprintf(errmsg, "Could not decode TLE data");
+		snprintf(errmsg, sizeof(errmsg), "Could not decode TLE data");
 		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(1);
 	}
@@ -942,7 +942,7 @@ end_checking:
 
 /* For single satellite request report failure but do not rise an error flag */
   if ( single_sat && !single_sat_found )
-	sprintf(errmsg, "Requested satellite not found in TLE file");
+	snprintf(errmsg, sizeof(errmsg), "Requested satellite not found in TLE file");
 
   close_stat_json(argc, argv, input_list, status, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 
diff --git a/src/sat_skymap_def.h b/src/sat_skymap_def.h
index fd2f72d..e93d90a 100644
--- a/src/sat_skymap_def.h
+++ b/src/sat_skymap_def.h
@@ -24,8 +24,8 @@ const char *progname = "sat_skymap",
   typedef struct myParams {
 	  char *tle_file_name,
 		date[24],
-		intl_desig[12],
-		satname[24];
+		intl_desig[32],
+		satname[32];
 	 double lat,
 		lon,
 		ht_in_meters,
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 9cf5ded..ec487eb 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -541,7 +541,7 @@ void get_sat_PA_and_speed(double t_since) {
 
 int main(int argc, char **argv)
 {
-  char errmsg[128] = {""}, tle_path[128] = {"."}, line1[100], line2[100],
+  char errmsg[256] = {""}, tle_path[128] = {"."}, line1[100], line2[100],
 	sat_name[24], tle_path_file[200], opt, *endptr;
   double jd[2], rho_sin_phi, rho_cos_phi,
 	 target_ra_rad, target_dec_rad;
@@ -553,7 +553,7 @@ int main(int argc, char **argv)
 
   if ( argc < 2 ) {
 	open_json();
-	sprintf(errmsg, "Example usage:\n %s stations.txt -l-29.25627,-70.73805,2400 -j58941.72,58941.73 -s 25544", progname);
+	snprintf(errmsg, sizeof(errmsg), "Example usage:\n %s stations.txt -l-29.25627,-70.73805,2400 -j58941.72,58941.73 -s 25544", progname);
  	close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found);
 	exit(0);
   }
@@ -584,7 +584,7 @@ int main(int argc, char **argv)
 //if ( argv[i+1][0] != '-' )  /* No, because of possible negative numbers after the param */
 		  if ( i + 1 == argc ) {
 		    open_json();
-		    sprintf(errmsg, "Missing value for command-line option '-%c'", opt);
+		    snprintf(errmsg, sizeof(errmsg), "Missing value for command-line option '-%c'", opt);
 		    close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found);
 		    exit(-2);
 		  }
@@ -624,11 +624,11 @@ int main(int argc, char **argv)
 		date2mjd_nf(p.date[1], &p.mjd[1]);
 		break;
  	  case 'D':
-		strcpy(tle_path, argv[i] + par_pos);
+		snprintf(tle_path, sizeof(tle_path), "%s", argv[i] + par_pos);
 		p.use_deftledir = false;
 		break;
           case 'i':
-		strcpy(p.intl_desig, argv[i] + par_pos);
+		snprintf(p.intl_desig, sizeof(p.intl_desig), "%s", argv[i] + par_pos);
 		len_intl_desig = strlen(p.intl_desig);
 		p.single_sat_i = true;
 		p.altrng_requested = false;  // No altitude filter
@@ -649,7 +649,7 @@ int main(int argc, char **argv)
 		  p.lon += 360;
 		if ( p.lat < -90. || p.lat > 90. )  {
 		  open_json();
-		  sprintf(errmsg, "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
+		  snprintf(errmsg, sizeof(errmsg), "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
   		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
 		  exit(-1);
 		}
@@ -668,7 +668,7 @@ int main(int argc, char **argv)
 		break;
           default:
 		open_json();
-		sprintf(errmsg, "Unrecognized command-line option '%s'", argv[i]);
+		snprintf(errmsg, sizeof(errmsg), "Unrecognized command-line option '%s'", argv[i]);
   		close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found);
 		exit(-2);
 		break;
@@ -680,7 +680,7 @@ int main(int argc, char **argv)
 
 /* Use default TLE repository dir. ? */
   if ( p.use_deftledir )
-	strcpy(tle_path, DEF_TLEDIR);
+	snprintf(tle_path, sizeof(tle_path), "%s", DEF_TLEDIR);
 
   if ( !in_geopos ) {
 	Usage();
@@ -705,9 +705,9 @@ int main(int argc, char **argv)
 
   if ( *argv[iarg] == '@' ) {
 	input_list = true;
-	sprintf(tle_list_file, "%s/%s", tle_path, ++argv[iarg]);
+	snprintf(tle_list_file, sizeof(tle_list_file), "%s/%s", tle_path, ++argv[iarg]);
 	if ( !(lisfile = fopen(tle_list_file, "rb")) ) {
-		sprintf(errmsg, "Could not open input file %s", tle_list_file);
+		snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_list_file);
   		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
 		exit(2);
 	}
@@ -716,7 +716,7 @@ int main(int argc, char **argv)
   p.tle_file_name = argv[iarg];
 
   if ( !p.single_sat_n && !p.single_sat_i ) {
-	sprintf(errmsg, "Need to input a NORAD ID or an international designator.");
+	snprintf(errmsg, sizeof(errmsg), "Need to input a NORAD ID or an international designator.");
   	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
 	exit(2);
   }
@@ -733,9 +733,9 @@ int main(int argc, char **argv)
     char *lastchar;
     if ( !input_list ) {
 	if ( strchr(p.tle_file_name, '/') == NULL )
-	  sprintf(tle_path_file, "%s/%s", tle_path, p.tle_file_name);
+	  snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, p.tle_file_name);
 	else
-	  strcpy(tle_path_file, p.tle_file_name);
+	  snprintf(tle_path_file, sizeof(tle_path_file), "%s", p.tle_file_name);
 	read_tle_list = false;
     } else {
 
@@ -749,17 +749,17 @@ int main(int argc, char **argv)
 	  *lastchar = (char) 0;
 	if ( strlen(row) == 0 )  /* Skip empty lines */
 	  continue;
-	sprintf(tle_path_file, "%s/%s", tle_path, tle_file_name);
+	snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, tle_file_name);
     }
  
     if ( !(ifile = fopen(tle_path_file, "rb")) ) {  /* Report error message and stop */
-	sprintf(errmsg, "Could not open input file %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_path_file);
   	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
 	exit(2);
     }
 
     if ( !fgets( line1, sizeof(line1), ifile) ) {
-	sprintf(errmsg, "Could not read first TLE line from file %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Could not read first TLE line from file %s", tle_path_file);
 	close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found);
 	exit(-2);
     }
@@ -811,7 +811,7 @@ int main(int argc, char **argv)
   fclose(ifile);
 
   if ( !single_sat_found ) {
-	sprintf(errmsg, "Satellite not found in %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Satellite not found in %s", tle_path_file);
 	close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found);
 	exit(1);
   }
@@ -879,7 +879,7 @@ int main(int argc, char **argv)
 
 /* If altitude filter requested */
 	if ( geo.alt < p.alt_min || geo.alt > p.alt_max ) {
-	  sprintf(errmsg, "Satellite altitude out of requested range");
+	  snprintf(errmsg, sizeof(errmsg), "Satellite altitude out of requested range");
 	  close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
 	  exit(1);
 	}
diff --git a/src/sat_visibility_def.h b/src/sat_visibility_def.h
index 7552dfd..f1d9bbb 100644
--- a/src/sat_visibility_def.h
+++ b/src/sat_visibility_def.h
@@ -24,8 +24,8 @@ const char *progname = "sat_visibility",
   typedef struct myParams {
 	  char *tle_file_name,
 		date[2][24],
-		intl_desig[12],
-		satname[24];
+		intl_desig[32],
+		satname[32];
 	 double lat,
 		lon,
 		ht_in_meters,
-- 
2.43.0


From 4b86e8327b9b9a714acebac4ec993c186b8321dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:05 +0000
Subject: [PATCH 22/50] fix: the tools crashed or went on with a wrong epoch
 for an invalid date, and -j overrode -d

---
 src/sat_skymap.c     | 17 ++++++++++++++++-
 src/sat_visibility.c | 24 +++++++++++++++++++-----
 2 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 222db95..6008f3d 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -354,6 +354,7 @@ int main(int argc, char **argv)
   int i, par_pos, status = 0, n_sats_found = 0, n_sats = 0, n_sunlit_sats = 0,
 	 len_intl_desig = 0, len_satname = 0;
   bool in_region = false,  /* used for single satellite request */
+	in_date = false,  /* calendar date passed: MJD is ignored */
 	in_geopos = false,  /* make sure Geo location is passed */
 	input_list = false;  /* if the input file is in fact a TLEs list */
 
@@ -455,7 +456,13 @@ int main(int argc, char **argv)
 		break;
           case 'd':
 		snprintf(p.date, sizeof(p.date), "%s", argv[i] + par_pos);
-		date2mjd_nf(argv[i] + par_pos, &p.mjd);
+		if ( date2mjd_nf(argv[i] + par_pos, &p.mjd) ) {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Invalid calendar date '%s'", argv[i] + par_pos);
+		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		  exit(-1);
+		}
+		in_date = true;
 		break;
  	  case 'D':
 		snprintf(tle_path, sizeof(tle_path), "%s", argv[i] + par_pos);
@@ -469,7 +476,15 @@ int main(int argc, char **argv)
 		in_region = false;
 		break;
           case 'j':
+		if ( in_date )
+		  break;
 		p.mjd = atof(argv[i] + par_pos);
+		if ( mjd2date(p.mjd) == NULL ) {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Invalid Modified Julian Date '%s'", argv[i] + par_pos);
+		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		  exit(-1);
+		}
 		strcpy(p.date, mjd2date(p.mjd));
 		break;
           case 'l':
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index ec487eb..7c4732f 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -547,7 +547,8 @@ int main(int argc, char **argv)
 	 target_ra_rad, target_dec_rad;
   int i, par_pos, status = 0, n_sats_found = 0,
 	 len_intl_desig = 0;
-  bool in_geopos = false,  /* make sure Geo location is passed */
+  bool in_date = false,  /* calendar dates passed: MJDs are ignored */
+	in_geopos = false,  /* make sure Geo location is passed */
 	input_list = false;  /* if the input file is in fact a TLEs list */
 
 
@@ -619,9 +620,14 @@ int main(int argc, char **argv)
 			Usage();
 		        exit(0);
 		}
-		sscanf(argv[i] + par_pos, "%19s,%19s", p.date[0], p.date[1]);
-		date2mjd_nf(p.date[0], &p.mjd[0]);
-		date2mjd_nf(p.date[1], &p.mjd[1]);
+		if ( sscanf(argv[i] + par_pos, "%23[^,],%23s", p.date[0], p.date[1]) != 2 ||
+		     date2mjd_nf(p.date[0], &p.mjd[0]) || date2mjd_nf(p.date[1], &p.mjd[1]) ) {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Invalid calendar date range '%s'", argv[i] + par_pos);
+		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
+		  exit(-1);
+		}
+		in_date = true;
 		break;
  	  case 'D':
 		snprintf(tle_path, sizeof(tle_path), "%s", argv[i] + par_pos);
@@ -634,11 +640,19 @@ int main(int argc, char **argv)
 		p.altrng_requested = false;  // No altitude filter
 		break;
           case 'j':
+		if ( in_date )
+		  break;
 		if ( strchr(argv[i] + par_pos, '-') != NULL ) {  // A minimal check
 			Usage();
 		        exit(0);
 		}
-		sscanf(argv[i] + par_pos, "%lf,%lf", &p.mjd[0], &p.mjd[1]);
+		if ( sscanf(argv[i] + par_pos, "%lf,%lf", &p.mjd[0], &p.mjd[1]) != 2 ||
+		     mjd2date(p.mjd[0]) == NULL || mjd2date(p.mjd[1]) == NULL ) {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Invalid Modified Julian Date range '%s'", argv[i] + par_pos);
+		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
+		  exit(-1);
+		}
 		strcpy(p.date[0], mjd2date(p.mjd[0]));
 		strcpy(p.date[1], mjd2date(p.mjd[1]));
 		break;
-- 
2.43.0


From 4af183ab77670a4036c29b4915d8d31f40b0d3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:05 +0000
Subject: [PATCH 23/50] fix: -T given after -D overrode the TLE directory

---
 src/sat_skymap.c     | 5 +++--
 src/sat_visibility.c | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 6008f3d..4bcf072 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -355,6 +355,7 @@ int main(int argc, char **argv)
 	 len_intl_desig = 0, len_satname = 0;
   bool in_region = false,  /* used for single satellite request */
 	in_date = false,  /* calendar date passed: MJD is ignored */
+	in_tledir = false,  /* TLE directory passed: default one is ignored */
 	in_geopos = false,  /* make sure Geo location is passed */
 	input_list = false;  /* if the input file is in fact a TLEs list */
 
@@ -466,7 +467,7 @@ int main(int argc, char **argv)
 		break;
  	  case 'D':
 		snprintf(tle_path, sizeof(tle_path), "%s", argv[i] + par_pos);
-		p.use_deftledir = false;
+		in_tledir = true;
 		break;
           case 'i':
 		snprintf(p.intl_desig, sizeof(p.intl_desig), "%s", argv[i] + par_pos);
@@ -548,7 +549,7 @@ int main(int argc, char **argv)
   jd = JD_OFF + p.mjd;  // From MJD to JD
 
 /* Use default TLE repository dir. ? */
-  if ( p.use_deftledir )
+  if ( p.use_deftledir && !in_tledir )
 	snprintf(tle_path, sizeof(tle_path), "%s", DEF_TLEDIR);
 
   if ( !in_geopos ) {
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 7c4732f..5bcd291 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -548,6 +548,7 @@ int main(int argc, char **argv)
   int i, par_pos, status = 0, n_sats_found = 0,
 	 len_intl_desig = 0;
   bool in_date = false,  /* calendar dates passed: MJDs are ignored */
+	in_tledir = false,  /* TLE directory passed: default one is ignored */
 	in_geopos = false,  /* make sure Geo location is passed */
 	input_list = false;  /* if the input file is in fact a TLEs list */
 
@@ -631,7 +632,7 @@ int main(int argc, char **argv)
 		break;
  	  case 'D':
 		snprintf(tle_path, sizeof(tle_path), "%s", argv[i] + par_pos);
-		p.use_deftledir = false;
+		in_tledir = true;
 		break;
           case 'i':
 		snprintf(p.intl_desig, sizeof(p.intl_desig), "%s", argv[i] + par_pos);
@@ -693,7 +694,7 @@ int main(int argc, char **argv)
   jd[1] = JD_OFF + p.mjd[1];
 
 /* Use default TLE repository dir. ? */
-  if ( p.use_deftledir )
+  if ( p.use_deftledir && !in_tledir )
 	snprintf(tle_path, sizeof(tle_path), "%s", DEF_TLEDIR);
 
   if ( !in_geopos ) {
-- 
2.43.0


From 32401f3996775acfb442fdaa1afb2a6dd50e55ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:05 +0000
Subject: [PATCH 24/50] fix: a delta time below 1 s divided by zero in
 sat_skymap and never ended in sat_visibility

---
 src/sat_skymap.c     | 11 +++++++++--
 src/sat_visibility.c | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 4bcf072..e917643 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -350,7 +350,7 @@ int main(int argc, char **argv)
   char errmsg[256] = {""}, tle_path[128] = {"."}, line1[100], line2[100],
 	sat_name[24], tle_path_file[200], opt, *endptr;
   double jd, rho_sin_phi, rho_cos_phi, observer_loc[3], observer_loc2[3],
-	 target_ra, target_dec, target_lon = 0, target_lat = 0;
+	 delta_time, target_ra, target_dec, target_lon = 0, target_lat = 0;
   int i, par_pos, status = 0, n_sats_found = 0, n_sats = 0, n_sunlit_sats = 0,
 	 len_intl_desig = 0, len_satname = 0;
   bool in_region = false,  /* used for single satellite request */
@@ -535,7 +535,14 @@ int main(int argc, char **argv)
 		p.satname_filter = true;
 		break;
           case 't':
-		p.delta_time = atof(argv[i] + par_pos);
+		delta_time = atof(argv[i] + par_pos);
+		if ( !(delta_time >= 1. && delta_time < 2147483648.) ) {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Delta time must be at least 1 s. Read '%lf'", delta_time);
+		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		  exit(-1);
+		}
+		p.delta_time = delta_time;
 		break;
           default:
 		open_json();
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 5bcd291..d0d109d 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -544,7 +544,7 @@ int main(int argc, char **argv)
   char errmsg[256] = {""}, tle_path[128] = {"."}, line1[100], line2[100],
 	sat_name[24], tle_path_file[200], opt, *endptr;
   double jd[2], rho_sin_phi, rho_cos_phi,
-	 target_ra_rad, target_dec_rad;
+	 delta_time, target_ra_rad, target_dec_rad;
   int i, par_pos, status = 0, n_sats_found = 0,
 	 len_intl_desig = 0;
   bool in_date = false,  /* calendar dates passed: MJDs are ignored */
@@ -679,7 +679,14 @@ int main(int argc, char **argv)
 		p.altrng_requested = false;  // No altitude filter
 		break;
           case 't':
-		p.delta_time = atof(argv[i] + par_pos);
+		delta_time = atof(argv[i] + par_pos);
+		if ( !(delta_time >= 1. && delta_time < 2147483648.) ) {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Delta time must be at least 1 s. Read '%lf'", delta_time);
+		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
+		  exit(-1);
+		}
+		p.delta_time = delta_time;
 		break;
           default:
 		open_json();
-- 
2.43.0


From dc381f665c7cdd609f0c4b64b6527db853ea46ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:05 +0000
Subject: [PATCH 25/50] fix: the tools printed nan or inf, which is not JSON,
 for non-finite arguments

---
 src/sat_skymap.c     | 18 +++++++++++++++---
 src/sat_visibility.c | 14 +++++++++++++-
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index e917643..eaf7fe4 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -493,12 +493,18 @@ int main(int argc, char **argv)
 		/* Longitude locally in the range [0, 360[ (not [-180, +180]) degrees */
 		if ( p.lon < 0. )
 		  p.lon += 360;
-		if ( p.lat < -90. || p.lat > 90. )  {
+		if ( !(p.lat >= -90. && p.lat <= 90.) )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
   		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
+		if ( !isfinite(p.lon) || !isfinite(p.ht_in_meters) )  {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Longitude and altitude must be finite numbers");
+		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		  exit(-1);
+		}
 		in_geopos = true;
 		break;
           case 'n':
@@ -506,13 +512,13 @@ int main(int argc, char **argv)
 		break;
           case 'p':
 		sscanf(argv[i] + par_pos, "%lf,%lf", &p.ra_deg, &p.de_deg);
-		if ( p.ra_deg < 0. || p.ra_deg > 360. )  {
+		if ( !(p.ra_deg >= 0. && p.ra_deg <= 360.) )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "RA must be in the range [0, 360[ degrees. Read '%lf'", p.ra_deg);
   		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
-		if ( p.de_deg < -90. || p.de_deg > 90. )  {
+		if ( !(p.de_deg >= -90. && p.de_deg <= 90.) )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Dec must be in the range [-90, +90] degrees. Read '%lf'", p.de_deg);
   		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
@@ -522,6 +528,12 @@ int main(int argc, char **argv)
 		break;
           case 'r':
 		p.search_radius = atof(argv[i] + par_pos);
+		if ( !isfinite(p.search_radius) )  {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Radius must be a finite number");
+		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		  exit(-1);
+		}
 		break;
           case 's':
 		p.norad_n = strtol(argv[i] + par_pos, &endptr, 10);
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index d0d109d..30bb9f8 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -662,16 +662,28 @@ int main(int argc, char **argv)
 		/* Longitude locally in the range [0, 360[ (not [-180, +180]) degrees */
 		if ( p.lon < 0. )
 		  p.lon += 360;
-		if ( p.lat < -90. || p.lat > 90. )  {
+		if ( !(p.lat >= -90. && p.lat <= 90.) )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
   		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
 		  exit(-1);
 		}
+		if ( !isfinite(p.lon) || !isfinite(p.ht_in_meters) )  {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Longitude and altitude must be finite numbers");
+		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
+		  exit(-1);
+		}
 		in_geopos = true;
 		break;
           case 'r':
 		p.search_radius = atof(argv[i] + par_pos);
+		if ( !isfinite(p.search_radius) )  {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Radius must be a finite number");
+		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
+		  exit(-1);
+		}
 		break;
           case 's':
 		p.norad_n = strtol(argv[i] + par_pos, &endptr, 10);
-- 
2.43.0


From 1a1c52ab77cb744996c8dfd4ac9db2ab1c0e5b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:34 +0000
Subject: [PATCH 26/50] fix: sat_visibility crashed on calendar dates beyond
 year 9999

---
 src/sat_visibility.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 30bb9f8..dcc40bf 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -622,7 +622,8 @@ int main(int argc, char **argv)
 		        exit(0);
 		}
 		if ( sscanf(argv[i] + par_pos, "%23[^,],%23s", p.date[0], p.date[1]) != 2 ||
-		     date2mjd_nf(p.date[0], &p.mjd[0]) || date2mjd_nf(p.date[1], &p.mjd[1]) ) {
+		     date2mjd_nf(p.date[0], &p.mjd[0]) || date2mjd_nf(p.date[1], &p.mjd[1]) ||
+		     mjd2date(p.mjd[0]) == NULL || mjd2date(p.mjd[1]) == NULL ) {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Invalid calendar date range '%s'", argv[i] + par_pos);
 		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
-- 
2.43.0


From 98124e6fe4ada505c3f1618e69635efee6420884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:34 +0000
Subject: [PATCH 27/50] fix: sat_skymap reported another satellite when the
 requested one was filtered out

---
 src/sat_skymap.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index eaf7fe4..795449a 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -760,10 +760,11 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 //printf("NORAD:->%s\n", norad_name);
 
 	 char intl_desig[12] = {"none"};
+	 bool is_requested = false;
 	 if ( p.single_sat_n ) {
 		int norad_name_n = strtol(norad_name, &endptr, 10);
 		if ( norad_name_n == p.norad_n )
-			single_sat_found = true;
+			is_requested = true;
 	 } else if ( p.single_sat_i ) {
 		if ( tle.intl_desig[0] != ' ' )
 		  snprintf( intl_desig, 10, "%s%.2s-%s",
@@ -771,14 +772,16 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 			tle.intl_desig, tle.intl_desig + 2);
 
 		if ( !memcmp(intl_desig, p.intl_desig, len_intl_desig) )
-		  single_sat_found = true;
+		  is_requested = true;
 	} else if ( p.satname_filter ) {
 		if ( strncmp(sat_name, p.satname, len_satname) )
 		continue;
 	}
  
 /* Single satellite requested? */
-	if ( single_sat && !single_sat_found )
+	if ( is_requested )
+		single_sat_found = true;
+	else if ( single_sat )
 		continue;
 /* Add a , to make it unique, and skip any previously met satellite */
 	strcat(norad_name, ",");
-- 
2.43.0


From 4be0706c99c3fbaf11cd37970df231456d011b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:34 +0000
Subject: [PATCH 28/50] fix: sat_skymap applied the altitude filter to a single
 satellite when -a came last

---
 src/sat_skymap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 795449a..5d14c09 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -631,6 +631,7 @@ int main(int argc, char **argv)
   if ( p.single_sat_n || p.single_sat_i ) {
 	single_sat = true;
 	p.geoloc_requested = true;
+	p.altrng_requested = false;  // No altitude filter
   }
 
 /* Local Mean Sidereal Time & GMST */
-- 
2.43.0


From 9fd15301b5c4b26894845bc1123cea3e2e485f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:34 +0000
Subject: [PATCH 29/50] fix: -s did not find catalogue numbers above 99999

---
 src/sat_skymap.c     | 3 +--
 src/sat_visibility.c | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 5d14c09..7a75d37 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -763,8 +763,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	 char intl_desig[12] = {"none"};
 	 bool is_requested = false;
 	 if ( p.single_sat_n ) {
-		int norad_name_n = strtol(norad_name, &endptr, 10);
-		if ( norad_name_n == p.norad_n )
+		if ( tle.norad_number == p.norad_n )
 			is_requested = true;
 	 } else if ( p.single_sat_i ) {
 		if ( tle.intl_desig[0] != ' ' )
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index dcc40bf..534b118 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -811,8 +811,7 @@ int main(int argc, char **argv)
 	norad_name[5] = '\0';
 
 	if ( p.single_sat_n ) {
-		int norad_name_n = strtol(norad_name, &endptr, 10);
-		if ( norad_name_n == p.norad_n )
+		if ( tle.norad_number == p.norad_n )
 			single_sat_found = true;
 	} else if ( p.single_sat_i ) {
 		if ( tle.intl_desig[0] != ' ' )
-- 
2.43.0


From 84d5264f55635a3be089adb63795173cf78fac57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:34 +0000
Subject: [PATCH 30/50] fix: right ascension differences across 0h were off by
 360 degrees

---
 src/sat_skymap.c     | 16 ++++++++++++----
 src/sat_visibility.c |  4 +++-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 7a75d37..98a621e 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -860,21 +860,27 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 /* Approx or precise separation? */
 	if ( !p.haversine ) {
 	  if ( p.geoloc_reference ) {
-		d_ra = geo.lon * DEG2RAD - target_lon + TWOPI;
+		d_ra = geo.lon * DEG2RAD - target_lon;
 		if ( d_ra > PI )
 		  d_ra -= TWOPI;
+		else if ( d_ra < -PI )
+		  d_ra += TWOPI;
 		d_dec = geo.lat - target_lat;
 		ang_sep = sqrt(d_ra * d_ra + d_dec * d_dec) * RAD2DEG;
 		ang_sep1 = 2 * ang_sep;  // dummy
 	  } else {
-		d_ra = (ra - target_ra + TWOPI);
+		d_ra = (ra - target_ra);
 		if ( d_ra > PI )
 		  d_ra -= TWOPI;
+		else if ( d_ra < -PI )
+		  d_ra += TWOPI;
 		d_dec = dec - target_dec;
 		ang_sep = sqrt(d_ra * d_ra + d_dec * d_dec) * RAD2DEG;
-		d_ra = (ra1 - target_ra + TWOPI);
+		d_ra = (ra1 - target_ra);
 		if ( d_ra > PI )
 		  d_ra -= TWOPI;
+		else if ( d_ra < -PI )
+		  d_ra += TWOPI;
 		d_dec = dec1 - target_dec;
 		ang_sep1 = sqrt(d_ra * d_ra + d_dec * d_dec) * RAD2DEG;
 	  }
@@ -908,9 +914,11 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 			tle.intl_desig, tle.intl_desig + 2);
 	  }
 
-	  d_ra = (ra1 - ra + TWOPI);
+	  d_ra = (ra1 - ra);
 	  if ( d_ra > PI )
 		d_ra -= TWOPI;
+	  else if ( d_ra < -PI )
+		d_ra += TWOPI;
 	  d_ra *= cos(dec);
 	  d_dec = dec1 - dec;
 	  posn_ang_of_motion = atan2(d_ra, d_dec);
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 534b118..8e231ae 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -524,9 +524,11 @@ void get_sat_PA_and_speed(double t_since) {
 	get_satellite_ra_dec_delta(geo.observer_loc, pos, &ra1, &dec1, &dist_to_satellite);  /* Returned RA, Dec in radians */
 	//-- epoch_of_date_to_j2000(t, &ra1, &dec1);  /* Do not apply precession */
 
-	d_ra = (ra1 - sat.ra + TWOPI);
+	d_ra = (ra1 - sat.ra);
 	if ( d_ra > PI )
 		d_ra -= TWOPI;
+	else if ( d_ra < -PI )
+		d_ra += TWOPI;
 	d_ra *= cos(sat.dec);
 	d_dec = dec1 - sat.dec;
 	sat.parang = atan2(d_ra, d_dec);
-- 
2.43.0


From a3b391585df8ee40a0defe76bde12846dd828b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:34 +0000
Subject: [PATCH 31/50] fix: sat_skymap -E without -H mixed degrees and radians
 in the separation

---
 src/sat_skymap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 98a621e..8713de5 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -865,7 +865,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 		  d_ra -= TWOPI;
 		else if ( d_ra < -PI )
 		  d_ra += TWOPI;
-		d_dec = geo.lat - target_lat;
+		d_dec = geo.lat * DEG2RAD - target_lat;
 		ang_sep = sqrt(d_ra * d_ra + d_dec * d_dec) * RAD2DEG;
 		ang_sep1 = 2 * ang_sep;  // dummy
 	  } else {
-- 
2.43.0


From 512d453483bee0d1ce4d143cdc486bb6e502f8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:34 +0000
Subject: [PATCH 32/50] fix: sat_skymap wrote past the buffer of catalogue
 numbers

---
 src/sat_skymap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 8713de5..7cb1632 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -789,7 +789,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 //printf("Found string '%s' at index = %ld ... skipping.\n", norad_name, s - sbuff);
 		continue;
 	} else {
-		if ( use_bufflen >= cur_bufflen ) {
+		if ( use_bufflen + 7 > cur_bufflen ) {  /* 6 characters and the terminator */
 		  cur_bufflen += extra_satbuff;
 //printf("\nRealloc extra bytes. Now %d \n", cur_bufflen);
 		  if ( (sbuff = (char *)realloc(sbuff, cur_bufflen)) == NULL ) {
-- 
2.43.0


From 27ebd7669131aae579c73edd12f59a2e5fed0e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:59 +0000
Subject: [PATCH 33/50] fix: three-letter international designators were cut,
 so -i could report another piece of the launch

---
 src/sat_skymap.c     | 13 ++++++-------
 src/sat_visibility.c | 14 ++++++--------
 2 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 7cb1632..de8e93a 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -352,7 +352,7 @@ int main(int argc, char **argv)
   double jd, rho_sin_phi, rho_cos_phi, observer_loc[3], observer_loc2[3],
 	 delta_time, target_ra, target_dec, target_lon = 0, target_lat = 0;
   int i, par_pos, status = 0, n_sats_found = 0, n_sats = 0, n_sunlit_sats = 0,
-	 len_intl_desig = 0, len_satname = 0;
+	 len_satname = 0;
   bool in_region = false,  /* used for single satellite request */
 	in_date = false,  /* calendar date passed: MJD is ignored */
 	in_tledir = false,  /* TLE directory passed: default one is ignored */
@@ -471,7 +471,6 @@ int main(int argc, char **argv)
 		break;
           case 'i':
 		snprintf(p.intl_desig, sizeof(p.intl_desig), "%s", argv[i] + par_pos);
-		len_intl_desig = strlen(p.intl_desig);
 		p.single_sat_i = true;
 		p.altrng_requested = false;  // No altitude filter
 		in_region = false;
@@ -767,11 +766,11 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 			is_requested = true;
 	 } else if ( p.single_sat_i ) {
 		if ( tle.intl_desig[0] != ' ' )
-		  snprintf( intl_desig, 10, "%s%.2s-%s",
+		  snprintf( intl_desig, sizeof(intl_desig), "%s%.2s-%s",
 			(atoi( tle.intl_desig) > 57000 ? "19" : "20"),
 			tle.intl_desig, tle.intl_desig + 2);
 
-		if ( !memcmp(intl_desig, p.intl_desig, len_intl_desig) )
+		if ( !strcmp(trimend(intl_desig), p.intl_desig) )
 		  is_requested = true;
 	} else if ( p.satname_filter ) {
 		if ( strncmp(sat_name, p.satname, len_satname) )
@@ -907,9 +906,9 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	  if ( p.sunlit_only && ! is_sunlit )
 		continue;
 
-	  if ( !p.single_sat_i ) {
+	  if ( p.single_sat_n || !p.single_sat_i ) {
 		if ( tle.intl_desig[0] != ' ' )
-		  snprintf( intl_desig, 10, "%s%.2s-%s",
+		  snprintf( intl_desig, sizeof(intl_desig), "%s%.2s-%s",
 			(atoi( tle.intl_desig) > 57000 ? "19" : "20"),
 			tle.intl_desig, tle.intl_desig + 2);
 	  }
@@ -940,7 +939,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 		}
 
 		printf("{\"name\": \"%s\", \"intl_desig\": \"%s\", \"norad_n\": %d, ",
-			sat_name, intl_desig, tle.norad_number);
+			sat_name, trimend(intl_desig), tle.norad_number);
 
 		if ( p.geoloc_requested )
 			add_satlatlon_json(geo);
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 8e231ae..d49edeb 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -547,8 +547,7 @@ int main(int argc, char **argv)
 	sat_name[24], tle_path_file[200], opt, *endptr;
   double jd[2], rho_sin_phi, rho_cos_phi,
 	 delta_time, target_ra_rad, target_dec_rad;
-  int i, par_pos, status = 0, n_sats_found = 0,
-	 len_intl_desig = 0;
+  int i, par_pos, status = 0, n_sats_found = 0;
   bool in_date = false,  /* calendar dates passed: MJDs are ignored */
 	in_tledir = false,  /* TLE directory passed: default one is ignored */
 	in_geopos = false,  /* make sure Geo location is passed */
@@ -639,7 +638,6 @@ int main(int argc, char **argv)
 		break;
           case 'i':
 		snprintf(p.intl_desig, sizeof(p.intl_desig), "%s", argv[i] + par_pos);
-		len_intl_desig = strlen(p.intl_desig);
 		p.single_sat_i = true;
 		p.altrng_requested = false;  // No altitude filter
 		break;
@@ -817,11 +815,11 @@ int main(int argc, char **argv)
 			single_sat_found = true;
 	} else if ( p.single_sat_i ) {
 		if ( tle.intl_desig[0] != ' ' )
-		  snprintf( intl_desig, 10, "%s%.2s-%s",
+		  snprintf( intl_desig, sizeof(intl_desig), "%s%.2s-%s",
 			(atoi( tle.intl_desig) > 57000 ? "19" : "20"),
 			tle.intl_desig, tle.intl_desig + 2);
 
-		if ( !memcmp(intl_desig, p.intl_desig, len_intl_desig) )
+		if ( !strcmp(trimend(intl_desig), p.intl_desig) )
 		  single_sat_found = true;
 	}
  
@@ -987,9 +985,9 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	sunlit_start_found = true;
 	mjd_sunlit_start = t - JD_OFF;
 
-	if ( !p.single_sat_i ) {
+	if ( p.single_sat_n || !p.single_sat_i ) {
 		if ( tle.intl_desig[0] != ' ' )
-		  snprintf( intl_desig, 10, "%s%.2s-%s",
+		  snprintf( intl_desig, sizeof(intl_desig), "%s%.2s-%s",
 			(atoi(tle.intl_desig) > 57000 ? "19" : "20"),
 			tle.intl_desig, tle.intl_desig + 2);
 	}
@@ -1001,7 +999,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	add_fieldsdesc_json();
 	printf(" \"satellite\": ");
 	printf("{\"name\": \"%s\", \"intl_desig\": \"%s\", \"norad_n\": %d, ",
-		sat_name, intl_desig, tle.norad_number);
+		sat_name, trimend(intl_desig), tle.norad_number);
 
 	sat_geoLocation(pos);
 	add_satlatlon_json("geoloc_start");
-- 
2.43.0


From ba7e014b77720f4111f651acae852666462e499f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:59 +0000
Subject: [PATCH 34/50] fix: list files with CRLF line ends did not work, and
 an empty string was read before its start

---
 src/sat_skymap.c     | 6 +++---
 src/sat_visibility.c | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index de8e93a..d3698b9 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -722,9 +722,9 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	  break;
 	if ( row[0] == '#' )  /* Skip lines with comments */
 	  continue;
-	lastchar = tle_file_name + strlen(tle_file_name) - 1;  /* Drop linefeeds, CR, ... */
-	if (*lastchar < 32)
-	  *lastchar = (char) 0;
+	lastchar = tle_file_name + strlen(tle_file_name);  /* Drop linefeeds, CR, ... */
+	while ( lastchar > tle_file_name && (unsigned char)lastchar[-1] < 32 )
+	  *--lastchar = (char) 0;
 	if ( strlen(row) == 0 )  /* Skip empty lines */
 	  continue;
 	snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, tle_file_name);
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index d49edeb..b23337a 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -779,9 +779,9 @@ int main(int argc, char **argv)
 	  break;
 	if ( row[0] == '#' )  /* Skip lines with comments */
 	  continue;
-	lastchar = tle_file_name + strlen(tle_file_name) - 1;  /* Drop linefeeds, CR, ... */
-	if (*lastchar < 32)
-	  *lastchar = (char) 0;
+	lastchar = tle_file_name + strlen(tle_file_name);  /* Drop linefeeds, CR, ... */
+	while ( lastchar > tle_file_name && (unsigned char)lastchar[-1] < 32 )
+	  *--lastchar = (char) 0;
 	if ( strlen(row) == 0 )  /* Skip empty lines */
 	  continue;
 	snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, tle_file_name);
-- 
2.43.0


From 07208179c487d10253421d08615b8942bee5651c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:59 +0000
Subject: [PATCH 35/50] fix: sat_visibility crashed on an empty list file

---
 src/sat_visibility.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index b23337a..0de2235 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -544,7 +544,7 @@ void get_sat_PA_and_speed(double t_since) {
 int main(int argc, char **argv)
 {
   char errmsg[256] = {""}, tle_path[128] = {"."}, line1[100], line2[100],
-	sat_name[24], tle_path_file[200], opt, *endptr;
+	sat_name[24], tle_path_file[200] = {""}, opt, *endptr;
   double jd[2], rho_sin_phi, rho_cos_phi,
 	 delta_time, target_ra_rad, target_dec_rad;
   int i, par_pos, status = 0, n_sats_found = 0;
@@ -842,7 +842,8 @@ int main(int argc, char **argv)
 
   }  // end while read_tle_list
 
-  fclose(ifile);
+  if ( ifile )
+	fclose(ifile);
 
   if ( !single_sat_found ) {
 	snprintf(errmsg, sizeof(errmsg), "Satellite not found in %s", tle_path_file);
-- 
2.43.0


From 9f090ca759ac36cb3aa48704df678e732240fb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:17 +0000
Subject: [PATCH 36/50] fix: the tools printed a line feed inside a JSON string
 when called without arguments

---
 src/sat_skymap.c     | 2 +-
 src/sat_visibility.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index d3698b9..bb24c99 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -362,7 +362,7 @@ int main(int argc, char **argv)
 
   if ( argc < 2 ) {
 	open_json();
-	snprintf(errmsg, sizeof(errmsg), "Example usage:\n %s default.tle -l-29.25627,-70.73805,2400 -p90.5,-30.3 -j58861.5 -r20", progname);
+	snprintf(errmsg, sizeof(errmsg), "Example usage: %s default.tle -l-29.25627,-70.73805,2400 -p90.5,-30.3 -j58861.5 -r20", progname);
  	close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(0);
   }
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 0de2235..ad390ef 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -556,7 +556,7 @@ int main(int argc, char **argv)
 
   if ( argc < 2 ) {
 	open_json();
-	snprintf(errmsg, sizeof(errmsg), "Example usage:\n %s stations.txt -l-29.25627,-70.73805,2400 -j58941.72,58941.73 -s 25544", progname);
+	snprintf(errmsg, sizeof(errmsg), "Example usage: %s stations.txt -l-29.25627,-70.73805,2400 -j58941.72,58941.73 -s 25544", progname);
  	close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found);
 	exit(0);
   }
-- 
2.43.0


From 576d068da1d2bb1152b4af35d4c726b232a153cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:17 +0000
Subject: [PATCH 37/50] fix: sat_skymap left the satellites array open when it
 stopped on an error

---
 src/sat_skymap.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index bb24c99..5e1cb61 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -228,6 +228,12 @@ void add_satlatlon_json(Geoloc geo) {
     printf( "\"geoloc\": {\"lat\":%7.3lf, \"lon\":%7.3lf, \"alt\":%9.2lf, \"theta\":%8.3lf}, ", geo.lat, geo.lon, geo.alt, geo.theta);
 }
 
+/* Close the satellites array, if any satellite was listed */
+void close_sats_json(bool info_only, int n_sats_found) {
+  if ( !info_only && n_sats_found > 0 )
+	printf("],");
+}
+
 void close_stat_json(int argc, char **argv, bool input_list, int status, char *errmsg, int n_sats_found, int n_sats, int n_sunlit_sats) {
   int iarg = 1;
   printf(" \"run_command\": \"%s", progname);
@@ -733,6 +739,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
  
     if ( !(ifile = fopen(tle_path_file, "rb")) ) {  /* Report error message and stop */
 	snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_path_file);
+  	close_sats_json(p.info_only, n_sats_found);
   	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(2);
     }
@@ -740,6 +747,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 
     if ( !fgets( line1, sizeof(line1), ifile) ) {
 	snprintf(errmsg, sizeof(errmsg), "Could not read first TLE line from file %s", tle_path_file);
+	close_sats_json(p.info_only, n_sats_found);
 	close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(-2);
     }
@@ -793,6 +801,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 //printf("\nRealloc extra bytes. Now %d \n", cur_bufflen);
 		  if ( (sbuff = (char *)realloc(sbuff, cur_bufflen)) == NULL ) {
 		    snprintf(errmsg, sizeof(errmsg), "Could not allocate required buffer memory");
+		    close_sats_json(p.info_only, n_sats_found);
 		    close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		    exit(1);
 		  }
@@ -823,6 +832,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 /* For malformed or partial tle (e.g. Bepi-Colombo) this could happen */
 	if ( isnan(ra) || isnan(dec) ) {
 		snprintf(errmsg, sizeof(errmsg), "Could not decode TLE data");
+		close_sats_json(p.info_only, n_sats_found);
 		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(1);
 	}
@@ -982,8 +992,7 @@ end_checking:
 
   free(sbuff);
 
-  if ( !p.info_only && n_sats_found > 0 )
-	printf("],");
+  close_sats_json(p.info_only, n_sats_found);
 
 /* For single satellite request report failure but do not rise an error flag */
   if ( single_sat && !single_sat_found )
-- 
2.43.0


From 7a8636989f22ed2944d1a24fa2e5f0c072e7b9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:17 +0000
Subject: [PATCH 38/50] fix: sat_visibility left the satellite object open when
 the altitude filter stopped it

---
 src/sat_visibility.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index ad390ef..0d68a7d 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -914,6 +914,8 @@ int main(int argc, char **argv)
 
 /* If altitude filter requested */
 	if ( geo.alt < p.alt_min || geo.alt > p.alt_max ) {
+	  if ( sunlit_start_found )
+		printf("\"sat_end\": null}, ");
 	  snprintf(errmsg, sizeof(errmsg), "Satellite altitude out of requested range");
 	  close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
 	  exit(1);
-- 
2.43.0


From c38ff0c341f5dbaa295d5f756aefdee3c3015c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:04 +0000
Subject: [PATCH 39/50] fix: sat_skymap placed satellites whose propagation
 fails at the centre of the Earth

---
 src/sat_skymap.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 5e1cb61..752c9c2 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -125,6 +125,9 @@
 #include "sat_skymap_def.h"
 
 
+/* Propagation failed (the other non-zero values are just warnings) */
+#define IS_SXPX_ERR(s) ( (s) && (s) != SXPX_WARN_ORBIT_WITHIN_EARTH && (s) != SXPX_WARN_PERIGEE_WITHIN_EARTH )
+
 /*
   From Spherical coords in radians (e.g. RA, Dec) to unit vector
 */
@@ -811,7 +814,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	}
 
 	int is_deep = select_ephemeris(&tle),
-	    is_sunlit;
+	    is_sunlit, sxpx_status;
 //printf("is_deep: %d\n", is_deep);
 	double sat_params[N_SAT_PARAMS], ang_sep, ang_sep1, d_ra, d_dec,
 		ra, dec, ra1, dec1, sep_to_satellite, t_since,
@@ -822,11 +825,14 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 
 	if ( is_deep ) {
 		SDP4_init(sat_params, &tle);
-		SDP4(t_since, &tle, sat_params, pos, NULL);
+		sxpx_status = SDP4(t_since, &tle, sat_params, pos, NULL);
 	} else {
 		SGP4_init(sat_params, &tle);
-		SGP4(t_since, &tle, sat_params, pos, NULL);
+		sxpx_status = SGP4(t_since, &tle, sat_params, pos, NULL);
 	}
+	if ( IS_SXPX_ERR(sxpx_status) )  /* No position available (e.g. decayed) */
+		continue;
+
 	get_satellite_ra_dec_delta(observer_loc, pos, &ra, &dec, &sep_to_satellite);
 
 /* For malformed or partial tle (e.g. Bepi-Colombo) this could happen */
@@ -860,9 +866,11 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	t_since += p.delta_time * 1440. / SEC_IN_DAY;
 
 	if ( is_deep )
-		SDP4(t_since, &tle, sat_params, pos, NULL);
+		sxpx_status = SDP4(t_since, &tle, sat_params, pos, NULL);
 	else
-		SGP4(t_since, &tle, sat_params, pos, NULL);
+		sxpx_status = SGP4(t_since, &tle, sat_params, pos, NULL);
+	if ( IS_SXPX_ERR(sxpx_status) )
+		continue;
 
 	get_satellite_ra_dec_delta(observer_loc2, pos, &ra1, &dec1, &unused_delta2);
 	epoch_of_date_to_j2000(jd, &ra1, &dec1);
-- 
2.43.0


From d00ae29d101a6dd88edbab71cfb885fecce61be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:04 +0000
Subject: [PATCH 40/50] fix: sat_skymap printed nan when only the second epoch
 position is undefined

---
 src/sat_skymap.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 752c9c2..7ce638c 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -873,6 +873,12 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 		continue;
 
 	get_satellite_ra_dec_delta(observer_loc2, pos, &ra1, &dec1, &unused_delta2);
+	if ( isnan(ra1) || isnan(dec1) ) {
+		snprintf(errmsg, sizeof(errmsg), "Could not decode TLE data");
+		close_sats_json(p.info_only, n_sats_found);
+		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		exit(1);
+	}
 	epoch_of_date_to_j2000(jd, &ra1, &dec1);
 /* Approx or precise separation? */
 	if ( !p.haversine ) {
-- 
2.43.0


From 17a5d2029ab22c59a67dc9dec3b93e70aa24fa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:04 +0000
Subject: [PATCH 41/50] fix: sat_visibility took the window start and end one
 step after the dates it prints

---
 src/sat_visibility.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 0d68a7d..0775664 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -969,7 +969,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 /* First time the satellite no longer sunlit */
 	if ( !sunlit_end_found ) {
 	  sunlit_end_found = true;
-	  mjd_sunlit_end = t - JD_OFF;
+	  mjd_sunlit_end = t - JD_OFF - p.delta_time / SEC_IN_DAY;
 	  sat_geoLocation(pos);
 	  add_satlatlon_json("geoloc_end");
 	  add_sundata_json("sun_end");
@@ -986,7 +986,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 /* First time the satellite is sunlit */
     if ( !sunlit_start_found ) {
 	sunlit_start_found = true;
-	mjd_sunlit_start = t - JD_OFF;
+	mjd_sunlit_start = t - JD_OFF - p.delta_time / SEC_IN_DAY;
 
 	if ( p.single_sat_n || !p.single_sat_i ) {
 		if ( tle.intl_desig[0] != ' ' )
-- 
2.43.0


From 4e9bda6674494b08d2b0a378ea17c0ac3de20462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:04 +0000
Subject: [PATCH 42/50] fix: sat_visibility printed the MJD of the window end
 for the middle and the highest point

---
 src/sat_visibility.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 0775664..c27f0af 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -1066,7 +1066,8 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	get_sun_data(t, target_ra_rad, target_dec_rad, false);
 	add_satlatlon_json("geoloc_mid");
 	add_sundata_json("sun_mid");
-	strcpy(sat.cur_date, mjd2date(mjd_sunlit_mid));
+	sat.cur_mjd = mjd_sunlit_mid;
+	strcpy(sat.cur_date, mjd2date(sat.cur_mjd));
 	sat.ha = p.lmst - sat.ra * RAD2HRS;
 	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
 	epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
@@ -1102,7 +1103,8 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	get_sun_data(t, target_ra_rad, target_dec_rad, false);
 	add_satlatlon_json("geoloc_max");
 	add_sundata_json("sun_max");
-	strcpy(sat.cur_date, mjd2date(t - JD_OFF));
+	sat.cur_mjd = t - JD_OFF;
+	strcpy(sat.cur_date, mjd2date(sat.cur_mjd));
 	sat.ha = p.lmst - sat.ra * RAD2HRS;
 	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
 	epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
-- 
2.43.0


From 1ab24fe4ed01c25cbbf53c84f17611b83d879cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:04 +0000
Subject: [PATCH 43/50] fix: sat_visibility printed the Sun one step early, and
 a one-sample window precessed twice

---
 src/sat_visibility.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index c27f0af..21fa3d0 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -1025,6 +1025,8 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 /* Still sunlit at the end of the requested time range */
   if ( sunlit_start_found && !sunlit_end_found ) {
 	mjd_sunlit_end = t - JD_OFF;
+	get_satellite_ra_dec_delta(geo.observer_loc, pos, &sat.ra, &sat.dec, &sat.d_km);  /* of date again */
+	get_sun_data(t, target_ra_rad, target_dec_rad, false);
 	sat_geoLocation(pos);
 	add_satlatlon_json("geoloc_end");
 	add_sundata_json("sun_end");
-- 
2.43.0


From 6b35904412a957d4ec972272d9cf634645f9b940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:11 +0000
Subject: [PATCH 44/50] fix: the Moon's distance used twice the Sun's anomaly
 where Meeus' table 47.A has twice the Moon's

---
 src/sdp4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sdp4.c b/src/sdp4.c
index 505b4bf..b99dd1a 100644
--- a/src/sdp4.c
+++ b/src/sdp4.c
@@ -66,7 +66,7 @@ static void lunar_solar_position( const double jd, double *lunar_xyzr, double *s
                          - 20905355. * cos( m_prime)
                          -  3699111. * cos( term2)
                          -  2955968  * cos( 2. * lunar_mean_elong)
-                         -   569925  * cos( 2. * m_solar);
+                         -   569925  * cos( 2. * m_prime);
    const double solar_ecc = 0.016708634;     /* (25.4) */
    const double solar_lon = l_solar          /* (above (25.5)) */
                         + (1.914602 * pi / 180.) * sin( m_solar);
-- 
2.43.0


From 5508ff0dc63d841d1d0c7c1457e11840a50f4b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:40 +0000
Subject: [PATCH 45/50] fix: the Sun's anomaly term of the Moon's longitude is
 0.185116 degrees (Meeus, table 47.A)

---
 src/sdp4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sdp4.c b/src/sdp4.c
index b99dd1a..fe43c16 100644
--- a/src/sdp4.c
+++ b/src/sdp4.c
@@ -56,7 +56,7 @@ static void lunar_solar_position( const double jd, double *lunar_xyzr, double *s
                         + (1.274027 * pi / 180.) * sin( term2)
                         + (0.658314 * pi / 180.) * sin( 2. * lunar_mean_elong)
                         + (0.213618 * pi / 180.) * sin( 2. * m_prime)
-                        - (0.185166 * pi / 180.) * sin( m_solar)
+                        - (0.185116 * pi / 180.) * sin( m_solar)
                         - (0.114332 * pi / 180.) * sin( 2. * f);
    const double lunar_lat = (5.128122 * pi / 180.) * sin( f)
                           + (0.280602 * pi / 180.) * sin( m_prime + f)
-- 
2.43.0


From ef98292feccf732a35509b4bd4d31313bba1ce2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:41 +0000
Subject: [PATCH 46/50] fix: directions at |z|=2/3 could get a ring pixel of
 the wrong ring, even a negative one

---
 HealpixC/chealpix.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/HealpixC/chealpix.c b/HealpixC/chealpix.c
index d6e89c0..4d56e63 100644
--- a/HealpixC/chealpix.c
+++ b/HealpixC/chealpix.c
@@ -291,6 +291,9 @@ static int ang2pix_ring_z_phi (long nside_, double z, double phi)
 
     /* ring number counted from z=2/3 */
     int ir = nside_ + 1 + jp - jm; /* in {1,2n+1} */
+    /* for |z|==2/3 the sum or difference may be rounded to the next edge line */
+    if (ir<1) ir=1;
+    if (ir>2*nside_+1) ir=2*nside_+1;
     int kshift = 1-(ir&1); /* kshift=1 if ir even, 0 otherwise */
 
     int ip = (jp+jm-nside_+kshift+1)/2; /* in {0,4n-1} */
@@ -703,6 +706,9 @@ static int64_t ang2pix_ring_z_phi64 (int64_t nside_, double z, double s,
 
     /* ring number counted from z=2/3 */
     int64_t ir = nside_ + 1 + jp - jm; /* in {1,2n+1} */
+    /* for |z|==2/3 the sum or difference may be rounded to the next edge line */
+    if (ir<1) ir=1;
+    if (ir>2*nside_+1) ir=2*nside_+1;
     int kshift = 1-(ir&1); /* kshift=1 if ir even, 0 otherwise */
 
     int64_t ip = (jp+jm-nside_+kshift+1)/2; /* in {0,4n-1} */
-- 
2.43.0


From 2e7d6195b86c88eb2df68fd849fb25eb827393d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:41 +0000
Subject: [PATCH 47/50] fix: npix2nside64 rejected valid pixel counts beyond
 2^53 because it divided in double

---
 HealpixC/chealpix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HealpixC/chealpix.c b/HealpixC/chealpix.c
index 4d56e63..30469ff 100644
--- a/HealpixC/chealpix.c
+++ b/HealpixC/chealpix.c
@@ -826,7 +826,7 @@ static void pix2ang_nest_z_phi64 (int64_t nside_, int64_t pix, double *z,
 
 long npix2nside64(int64_t npix)
   {
-  int64_t res = isqrt64(npix/12.);
+  int64_t res = isqrt64(npix/12);
   return (res*res*12==npix) ? (long)res : -1;
   }
 
-- 
2.43.0


From 9ef7ff46c212c18ac2c25f9e96776d120ccc4b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:18 +0000
Subject: [PATCH 48/50] fix: longitudes rounded up to 2*pi gave nested pixel
 12*nside^2 at nside 1 and the wrong base pixel above

---
 HealpixC/chealpix.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/HealpixC/chealpix.c b/HealpixC/chealpix.c
index 30469ff..5162bb9 100644
--- a/HealpixC/chealpix.c
+++ b/HealpixC/chealpix.c
@@ -243,7 +243,8 @@ static int ang2pix_nest_z_phi (long nside_, double z, double phi)
     int jm = (int)(temp1+temp2); /* index of descending edge line */
     int ifp = jp/nside_;  /* in {0,4} */
     int ifm = jm/nside_;
-    face_num = (ifp==ifm) ? (ifp|4) : ((ifp<ifm) ? ifp : (ifm+8));
+    /* a longitude just below 2*pi may be rounded up to the edge line at 2*pi */
+    face_num = (ifp==ifm) ? (ifp|4) : ((ifp<ifm) ? (ifp&3) : ((ifm&3)+8));
 
     ix = jm & (nside_-1);
     iy = nside_ - (jp & (nside_-1)) - 1;
@@ -654,7 +655,8 @@ static int64_t ang2pix_nest_z_phi64 (int64_t nside_, double z, double s,
     int64_t jm = (int64_t)(temp1+temp2); /* index of descending edge line */
     int64_t ifp = jp/nside_;  /* in {0,4} */
     int64_t ifm = jm/nside_;
-    face_num = (ifp==ifm) ? (ifp|4) : ((ifp<ifm) ? ifp : (ifm+8));
+    /* a longitude just below 2*pi may be rounded up to the edge line at 2*pi */
+    face_num = (ifp==ifm) ? (ifp|4) : ((ifp<ifm) ? (ifp&3) : ((ifm&3)+8));
 
     ix = jm & (nside_-1);
     iy = nside_ - (jp & (nside_-1)) - 1;
-- 
2.43.0


From 8acda73f41b328d2a9f88fd6b996432da44694d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:21 +0000
Subject: [PATCH 49/50] fix: catalogue number of a classic TLE ran on into a
 digit in the classification column

---
 src/get_el.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/get_el.c b/src/get_el.c
index 9ac83ef..4ebe1aa 100644
--- a/src/get_el.c
+++ b/src/get_el.c
@@ -253,7 +253,8 @@ static int get_norad_number( const char *buff)
             + digits[3] * 10 + digits[2] * 100 + (digits[1] - 10) * 1000
             + digits[0] * 24000;
    else        /* last four digits are 0-9;  'standard' NORAD desig */
-      rval = digits[0] * 10000 + atoi( buff + 1);
+      rval = digits[0] * 10000 + digits[1] * 1000 + digits[2] * 100
+            + digits[3] * 10 + digits[4];
    return( rval);
 }
 
-- 
2.43.0


From eeae2e104e12732b3d1d5b60f88880d85eabfa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:41 +0000
Subject: [PATCH 50/50] fix: quotes, backslashes and control characters in
 names and arguments broke the JSON output

---
 src/sat_skymap.c     | 42 +++++++++++++++++++++++++++++++++---------
 src/sat_visibility.c | 44 +++++++++++++++++++++++++++++++++++---------
 2 files changed, 68 insertions(+), 18 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 7ce638c..f8cc5ac 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -188,6 +188,18 @@ void Usage() {
 }
 
 
+/* Print a string as the content of a JSON string */
+void print_json_str(const char *s) {
+  for ( ; *s; s++ ) {
+	if ( *s == '"' || *s == '\\' )
+	  printf("\\%c", *s);
+	else if ( (unsigned char)*s < 32 )
+	  printf("\\u%04x", *s);
+	else
+	  putchar(*s);
+  }
+}
+
 void open_json() {
   printf("{"
     "\"swinfo\": {"
@@ -197,10 +209,15 @@ void open_json() {
 
 void add_params_json(Params p) {
   printf("\"input_params\": {"
-    "\"tle_file\": \"%s\", \"location\": {\"lat\":%8.4lf, \"lon\":%9.4lf, \"alt\":%8.1lf}, \"region\": {\"ra\":%9.4lf, \"dec\":%8.4lf, \"radius\":%8.4lf, \"lmst\":%8.4lf, \"az\":%9.4lf, \"alt\":%8.4lf, \"parang\":%8.3lf}, "
-    "\"mjd\": %11.5lf, \"epoch_UTC\": \"%s\", \"gmst\":%8.4lf, \"delta_time_s\": %d, \"max_sats\": %d, "
+    "\"tle_file\": \"");
+  print_json_str(p.tle_file_name);
+  printf("\", \"location\": {\"lat\":%8.4lf, \"lon\":%9.4lf, \"alt\":%8.1lf}, \"region\": {\"ra\":%9.4lf, \"dec\":%8.4lf, \"radius\":%8.4lf, \"lmst\":%8.4lf, \"az\":%9.4lf, \"alt\":%8.4lf, \"parang\":%8.3lf}, "
+    "\"mjd\": %11.5lf, \"epoch_UTC\": \"",
+    p.lat, p.lon, p.ht_in_meters, p.ra_deg, p.de_deg, p.search_radius, p.lmst, p.az, p.alt, p.parang, p.mjd);
+  print_json_str(p.date);
+  printf("\", \"gmst\":%8.4lf, \"delta_time_s\": %d, \"max_sats\": %d, "
     "\"notes\": \"All coordinates and radius in degrees. GMST, LMST in hrs.\"}, ",
-    p.tle_file_name, p.lat, p.lon, p.ht_in_meters, p.ra_deg, p.de_deg, p.search_radius, p.lmst, p.az, p.alt, p.parang, p.mjd, p.date, p.gmst, p.delta_time, p.max_sats);
+    p.gmst, p.delta_time, p.max_sats);
 }
 
 void add_sundata_json(Sun sun) {
@@ -241,15 +258,19 @@ void close_stat_json(int argc, char **argv, bool input_list, int status, char *e
   int iarg = 1;
   printf(" \"run_command\": \"%s", progname);
   if ( input_list ) {
-	printf (" @%s", argv[1]);
+	printf (" @");
+	print_json_str(argv[1]);
 	iarg++;
   }
 
   for ( int i = iarg; i < argc; i++ ) {
-	printf (" %s", argv[i]);
+	printf (" ");
+	print_json_str(argv[i]);
   }
-  printf("\", \"status\": %d, \"errmsg\": \"%s\", \"n_sats_found\": %d, \"n_sats\": %d,"
-	 " \"n_sunlit_sats\": %d}\n", status, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  printf("\", \"status\": %d, \"errmsg\": \"", status);
+  print_json_str(errmsg);
+  printf("\", \"n_sats_found\": %d, \"n_sats\": %d,"
+	 " \"n_sunlit_sats\": %d}\n", n_sats_found, n_sats, n_sunlit_sats);
 }
 
 
@@ -962,8 +983,11 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 		  printf(" \"satellites\": [");
 		}
 
-		printf("{\"name\": \"%s\", \"intl_desig\": \"%s\", \"norad_n\": %d, ",
-			sat_name, trimend(intl_desig), tle.norad_number);
+		printf("{\"name\": \"");
+		print_json_str(sat_name);
+		printf("\", \"intl_desig\": \"");
+		print_json_str(trimend(intl_desig));
+		printf("\", \"norad_n\": %d, ", tle.norad_number);
 
 		if ( p.geoloc_requested )
 			add_satlatlon_json(geo);
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 21fa3d0..1e9bb05 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -329,6 +329,18 @@ void Usage() {
 }
 
 
+/* Print a string as the content of a JSON string */
+void print_json_str(const char *s) {
+  for ( ; *s; s++ ) {
+	if ( *s == '"' || *s == '\\' )
+	  printf("\\%c", *s);
+	else if ( (unsigned char)*s < 32 )
+	  printf("\\u%04x", *s);
+	else
+	  putchar(*s);
+  }
+}
+
 void open_json() {
   printf("{"
     "\"swinfo\": {"
@@ -338,10 +350,17 @@ void open_json() {
 
 void add_params_json() {
   printf("\"input_params\": {"
-    "\"tle_file\": \"%s\", \"location\": {\"lat\":%8.4lf, \"lon\":%9.4lf, \"alt\":%8.1lf}, \"region\": {\"ra\":%9.4lf, \"dec\":%8.4lf, \"radius\":%8.4lf, \"lmst\":%8.4lf, \"az\":%9.4lf, \"alt\":%8.4lf, \"parang\":%8.3lf}, "
-    "\"mjd_range\": [%11.5lf, %11.5lf], \"date_utc_range\": [\"%s\", \"%s\"], \"gmst\":%8.4lf, \"delta_time_s\": %d, "
+    "\"tle_file\": \"");
+  print_json_str(p.tle_file_name);
+  printf("\", \"location\": {\"lat\":%8.4lf, \"lon\":%9.4lf, \"alt\":%8.1lf}, \"region\": {\"ra\":%9.4lf, \"dec\":%8.4lf, \"radius\":%8.4lf, \"lmst\":%8.4lf, \"az\":%9.4lf, \"alt\":%8.4lf, \"parang\":%8.3lf}, "
+    "\"mjd_range\": [%11.5lf, %11.5lf], \"date_utc_range\": [\"",
+    p.lat, p.lon, p.ht_in_meters, p.ra_deg, p.de_deg, p.search_radius, p.lmst, p.az, p.alt, p.parang, p.mjd[0], p.mjd[1]);
+  print_json_str(p.date[0]);
+  printf("\", \"");
+  print_json_str(p.date[1]);
+  printf("\"], \"gmst\":%8.4lf, \"delta_time_s\": %d, "
     "\"notes\": \"All coordinates and radius in degrees. GMST, LMST in hrs.\"}, ",
-    p.tle_file_name, p.lat, p.lon, p.ht_in_meters, p.ra_deg, p.de_deg, p.search_radius, p.lmst, p.az, p.alt, p.parang, p.mjd[0], p.mjd[1], p.date[0], p.date[1], p.gmst, p.delta_time);
+    p.gmst, p.delta_time);
 }
 
 void add_fieldsdesc_json() {
@@ -387,15 +406,19 @@ void close_stat_json(int argc, char **argv, bool input_list, int status, char *e
   int iarg = 1;
   printf("\"run_command\": \"%s", progname);
   if ( input_list ) {
-	printf (" @%s", argv[1]);
+	printf (" @");
+	print_json_str(argv[1]);
 	iarg++;
   }
 
   for ( int i = iarg; i < argc; i++ ) {
-	printf (" %s", argv[i]);
+	printf (" ");
+	print_json_str(argv[i]);
   }
-  printf("\", \"status\": %d, \"errmsg\": \"%s\", \"n_sats_found\": %d"
-	 "}\n", status, errmsg, n_sats_found);
+  printf("\", \"status\": %d, \"errmsg\": \"", status);
+  print_json_str(errmsg);
+  printf("\", \"n_sats_found\": %d"
+	 "}\n", n_sats_found);
 }
 
 
@@ -1001,8 +1024,11 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 
 	add_fieldsdesc_json();
 	printf(" \"satellite\": ");
-	printf("{\"name\": \"%s\", \"intl_desig\": \"%s\", \"norad_n\": %d, ",
-		sat_name, trimend(intl_desig), tle.norad_number);
+	printf("{\"name\": \"");
+	print_json_str(sat_name);
+	printf("\", \"intl_desig\": \"");
+	print_json_str(trimend(intl_desig));
+	printf("\", \"norad_n\": %d, ", tle.norad_number);
 
 	sat_geoLocation(pos);
 	add_satlatlon_json("geoloc_start");
-- 
2.43.0

