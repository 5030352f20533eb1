#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl from the table below (kept in one place so that statements stay reviewable).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

H = "HealpixC/chealpix.c"
prop("C01", "HEALPix nested and ring pixel numbers are inverse bijections",
 "For every power-of-two resolution that the 32-bit and the 64-bit interface support, converting pixel numbers from the nested to the ring scheme and back (and ring to nested and back) returns the original number, and every converted number lies in [0, 12*nside^2). The 32-bit and 64-bit interfaces give the same answer wherever both apply. For an nside that is not a power of two the conversions report -1.",
 ["inputs"], "all pixel numbers of all power-of-two nside (1..8192 for the 32-bit, 1..2^29 for the 64-bit interface), in both directions",
 "test_chealpix walks the pixels of a few small or sampled orders; at order 29 there are 3.4e18 pixels, and the polar-cap/equatorial boundaries differ at every order.",
 [H], [("nest2ring, ring2nest", H), ("nest2ring64, ring2nest64", H), ("xyf2nest/nest2xyf, xyf2ring/ring2xyf bit interleaving and face tables", H), ("isqrt/isqrt64", H)],
 observe=["return parameters of nest2ring, ring2nest, nest2ring64, ring2nest64"])
prop("C02", "HEALPix directions and pixel numbers agree",
 "Every direction (any finite longitude, any colatitude in [0, pi], or any vector of ordinary length, 1e-150 to 1e150) is mapped to a pixel number in [0, 12*nside^2); the ring and nested answers, the angle and vector forms and the 32-bit and 64-bit interfaces name the same pixel, except for directions within rounding error of a pixel edge, where they name touching pixels. The centre of every pixel is a point with colatitude in [0, pi] and longitude in [0, 2*pi), unit length in vector form, and is mapped back to that same pixel.",
 ["inputs"], "all directions, all pixels, all supported resolutions, both schemes, both integer widths",
 "the tests sample random pixels; the edge lines between faces, the poles and the two sides of longitude 0 are sets a random sample never hits.",
 [H], [("ang2pix_ring_z_phi, ang2pix_nest_z_phi (+64)", H), ("pix2ang_ring_z_phi, pix2ang_nest_z_phi (+64)", H), ("vec2ang, ang2vec, fmodulo, imodulo", H)],
 observe=["ang2pix_*/vec2pix_*/pix2ang_*/pix2vec_* results"])
prop("C03", "HEALPix resolution and pixel count are exact inverses",
 "The number of pixels of a resolution nside is 12*nside^2, and the inverse function returns nside for exactly the numbers of that form and -1 for every other non-negative number, in both the 32-bit and the 64-bit interface. The integer square root on which the ring geometry rests is the exact floor of the square root for every pixel number that a supported resolution can produce.",
 ["inputs"], "all nside and all candidate pixel counts of both widths",
 "the square root is taken in floating point and corrected; the failing inputs, if any, are single numbers next to perfect squares beyond 2^52 that a test does not meet by chance.",
 [H], [("nside2npix, npix2nside (+64)", H), ("isqrt, isqrt64", H)])

G = "src/get_el.c"
prop("C04", "TLE line checksum and parse status follow the format",
 "The checksum function returns 0 exactly when the 69-column line starts with line number 1 or 2 and a blank, holds only the allowed characters, ends after column 69 and its last column equals the modulo-10 sum of the digits plus one per minus sign; a wrong check digit gives the positive difference, a line that is not a TLE line a negative code. The element parser returns 0 only if the first line is a line 1 and the second a line 2 and both are valid TLE lines, 1, 2 or 3 (bit mask) if the only fault is the check digit of line 1, line 2 or both, and a negative code otherwise.",
 ["inputs"], "all pairs of byte strings",
 "there is no test of the parser at all; the set of lines is exponential.",
 [G], [("tle_checksum", G), ("parse_elements status logic", G)])
prop("C05", "TLE fields are decoded exactly as the format defines them",
 "For every well-formed two-line element set the decoded epoch, inclination, node, eccentricity, argument of perigee, mean anomaly, mean motion, drag terms, element number, revolution number, classification, ephemeris type and international designator are the values that the fixed columns of the format denote (two-digit years 57-99 are 19xx, 00-56 are 20xx; signs and exponents honoured; angles in radians, motions in radians per minute). Catalogue numbers in the classic, Alpha-5 and extended five-character forms decode to distinct numbers in the documented ranges, and an invalid form decodes to 0. State-vector records (ephemeris type H) decode to the signed base-36 position and velocity they hold.",
 ["inputs"], "all well-formed element sets; all 36^5 five-character catalogue numbers",
 "no test covers the parser; every column position, sign and exponent is a separate way to be wrong.",
 [G], [("parse_elements column arithmetic", G), ("sci, get_angle, get_eight_places, get_norad_number, base34_to_int, get_high_value", G)])
prop("C06", "TLE parsing is memory-safe and terminates on any input lines",
 "For any two NUL-terminated input lines, however damaged, the element parser and the checksum function return in bounded time, read nothing outside the two strings, write nothing outside the element record they are given and commit no integer overflow or aborted assertion.",
 ["inputs"], "all pairs of NUL-terminated byte strings (any length and content)",
 "no test feeds the parser; damaged catalogue files are the usual field failure.",
 [G], [("parse_elements, tle_checksum and their field decoders", G)])

D1, D2 = "src/date2mjd_nf.c", "src/mjd2date.c"
prop("C07", "Calendar date and Modified Julian Date conversions are exact and inverse",
 "A calendar date yyyy-mm-ddThh:mm:ss converts to the Modified Julian Date of the Gregorian calendar, leap years and centuries included, with the time of day kept to better than half a second; a string from which six numbers cannot be read in this form is refused. The reverse conversion gives, for every value in the years 0 to 9999, the calendar date of the nearest second (or, in the variant with milliseconds, of the instant cut to the millisecond) with month 1-12, a day valid for the month, hour 0-23, minute and second 0-59, in a string of fixed width, and refuses every other value; converting there and back returns the same date.",
 ["inputs"], "all valid Gregorian dates of years 0-9999; all Modified Julian Dates",
 "no test covers either function; leap days, century years, seconds at a minute boundary and out-of-range values are the failing inputs.",
 [D1, D2], [("date2mjd_nf", D1), ("mjd2date, mjd2datef", D2)])

prop("C08", "The propagation model is selected by orbital period and element type",
 "An element set is propagated with the deep-space model exactly when its period, computed from the recovered (Brouwer) mean motion, is 225 minutes or more, and with the near-earth model otherwise; an explicit ephemeris type for a near-earth or deep-space model, and a state-vector record (type H, propagated through the deep-space entry), override the period. Element sets with a non-positive mean motion or an eccentricity outside [0, 1] are reported as invalid.",
 ["inputs"], "all element sets, any ephemeris type",
 "no test reaches the selection; the threshold uses the recovered, not the tabulated mean motion.",
 ["src/basics.c", "src/common.c"], [("select_ephemeris", "src/basics.c"), ("sxpall_common_init", "src/common.c")])
prop("C09", "Near-earth propagation (SGP4) computes the published model",
 "For every near-earth element set and every time offset, initialisation and propagation with SGP4 give the position and velocity (km, km/min) of the published Spacetrack Report 3/6 SGP4 equations, in every branch: perigee below 98 km, 98-156 km, 156-220 km (simplified drag) and above, and near-zero eccentricity. Repeating a call gives the same answer and leaves the element set unchanged.",
 ["inputs", "histories"], "all element sets and time offsets, every branch of the model",
 "no test propagates anything; single coefficients matter only in narrow orbit classes.",
 ["src/sgp4.c", "src/common.c"], [("SGP4_init, SGP4", "src/sgp4.c"), ("sxpx_common_init, sxpall_common_init, sxpx_posn_vel", "src/common.c")],
 state=[("params[]", "initialised model coefficients, read-only during propagation", "src/sgp4.c")])
prop("C10", "Deep-space propagation (SDP4) computes the published model",
 "For every deep-space element set and every time offset, SDP4 gives the position and velocity of the published deep-space equations: lunar and solar secular and long-period terms, the 12-hour resonance terms in each eccentricity band, the 24-hour synchronous terms, the resonance integration in steps of at most 720 minutes and the Lyddane treatment of low inclinations. Propagating first to other times changes the result only within the model's own tolerance (perturbations refreshed when more than 30 minutes away, integration continued from the nearer of epoch and last time).",
 ["inputs", "histories"], "all element sets, time offsets and call histories",
 "no test propagates anything; each resonance and eccentricity band has coefficients of its own.",
 ["src/sdp4.c", "src/deep.c", "src/common.c"], [("SDP4_init, SDP4", "src/sdp4.c"), ("Deep_dpinit, Deep_dpsec, Deep_dpper, compute_dpsec_derivs", "src/deep.c")],
 state=[("deep_arg_t (xli, xni, atime, savtsn, pe..ph)", "integrator position and cached periodics carried from call to call", "src/deep.c")])
prop("C11", "State-vector orbits are integrated under Earth, Moon and Sun gravity",
 "An element set of type H is propagated from its stored position and velocity by fourth-order Runge-Kutta steps of at most one day under the gravity of the Earth, the Moon and the Sun (the latter two relative to the Earth's own acceleration), forwards or backwards in time, and the result is returned in km and km/min in the equatorial frame; at zero time offset the stored state itself is returned.",
 ["inputs"], "all state vectors, epochs and time offsets",
 "no test propagates a state vector.",
 ["src/sdp4.c"], [("high_ephemeris, calc_accel, lunar_solar_position, cached_lunar_solar_position", "src/sdp4.c")],
 state=[("cached lunar/solar position", "one-entry cache keyed by the date", "src/sdp4.c")])
prop("C12", "Propagation reports impossible orbits and never returns garbage silently",
 "Propagation with SGP4 and SDP4 returns 0 or the documented code: negative semi-major axis and near-parabolic orbit (with position and velocity set to zero), negative mean motion (SDP4), Kepler iteration not converged (position and velocity zero), or the warnings for an orbit entirely inside the Earth and for a perigee (but not the whole orbit) inside the Earth. When it returns 0 or a warning, Kepler's equation was solved to the stated tolerance and the position is the one it denotes. In every model a velocity output that was not asked for is never written.",
 ["inputs"], "all element sets and time offsets, including decayed and hyperbolic ones",
 "no test looks at a return code; the codes arise only for decayed orbits.",
 ["src/common.c", "src/sdp4.c", "src/sgp.c"], [("sxpx_posn_vel", "src/common.c"), ("SDP4 early return", "src/sdp4.c"), ("SGP", "src/sgp.c")])
prop("C13", "The legacy models SGP, SGP8 and SDP8 compute their published equations",
 "For every element set and time offset the SGP, SGP8 and SDP8 models return the position and velocity of the Spacetrack Report 3 equations for that model (with the deep-space terms shared with SDP4), in km and km/min.",
 ["inputs"], "all element sets and time offsets",
 "no test calls these models.",
 ["src/sgp.c", "src/sgp8.c", "src/sdp8.c"], [("SGP_init, SGP", "src/sgp.c"), ("SGP8_init, SGP8", "src/sgp8.c"), ("SDP8_init, SDP8", "src/sdp8.c")])

prop("C14", "Sidereal time is the published expression, reduced to one turn",
 "Greenwich and local mean sidereal time equal the IAU 1982 expression for the given Julian Date and east longitude, as an angle reduced to one turn (hours in [0, 24], degrees in [0, 360]), for every date of the years 1900 to 2100; the values used by the observer module and by the command-line tools agree with each other to 0.05 second of time.",
 ["inputs"], "all Julian Dates 1900-2100 and all longitudes in [0, 360)",
 "no test computes a sidereal time; there are four independent implementations.",
 ["src/lmst_hr.c", "src/observe.c", "src/deep.c", "src/zenith_site_ra.c"], [("lmst_hr", "src/lmst_hr.c"), ("ThetaG (two copies)", "src/observe.c, src/deep.c"), ("ut2gmst, zenith_site_ra", "src/zenith_site_ra.c")])
prop("C15", "Observer and topocentric coordinates are geometrically exact",
 "The observer's geocentric position is that of the given geodetic latitude, east longitude and height on the Earth ellipsoid rotated by local sidereal time; the direction and distance to a satellite are those of the difference vector, with right ascension in [0, 2*pi] and declination in [-pi/2, pi/2]. The precession to J2000 applies the annual rates (m + n sin RA tan Dec, n cos RA) for the elapsed time and returns right ascension in [0, 2*pi] and declination in [-pi/2, pi/2], also next to the poles.",
 ["inputs"], "all sites, dates and satellite positions",
 "no test computes a position.",
 ["src/observe.c"], [("earth_lat_alt_to_parallax, observer_cartesian_coords, get_satellite_ra_dec_delta, epoch_of_date_to_j2000", "src/observe.c")])
prop("C16", "Angular separation is the great-circle distance, in [0, 180] degrees",
 "The separation of two sky positions is their great-circle distance in degrees: symmetric, zero for equal points, unchanged when a full turn is added to a longitude given as negative, always a number in [0, 180], also for antipodal points.",
 ["inputs"], "all pairs of positions (longitudes in [-pi, 2*pi), latitudes in [-pi/2, pi/2])",
 "no test; rounding at antipodal points and the 0/360 seam are measure-zero sets.",
 ["src/skysep_h.c"], [("skysep_h", "src/skysep_h.c")])
prop("C17", "Horizontal coordinates and parallactic angle solve the astronomical triangle",
 "Altitude, azimuth (from north through east, in [0, 360) degrees) and parallactic angle computed from declination, hour angle and latitude are those of the astronomical triangle, with the altitude in [-90, 90]; objects on the meridian and sites next to a pole included.",
 ["inputs"], "all declinations, hour angles in (-24, 24), latitudes in [-90, 90]",
 "no test; the special cases are single values of the hour angle or latitude.",
 ["src/dechalat2alt.c"], [("dechalat2alt", "src/dechalat2alt.c")])
prop("C18", "The Sun's position and the sunlit decision are geometrically right",
 "The Sun's right ascension (in [0, 2*pi)) and declination are those of the Almanac's low-precision formulae. A satellite is reported as sunlit exactly when the straight line from it towards the Sun does not meet the Earth's sphere.",
 ["inputs"], "all dates; all satellite positions above the Earth's surface and Sun positions",
 "no test; both tools carry a copy of the decision.",
 ["src/lpsun_radec.c", "src/sat_skymap.c", "src/sat_visibility.c"], [("lpsun_radec, atan_circ", "src/lpsun_radec.c"), ("intersect_satsun_sphere (two copies)", "src/sat_skymap.c, src/sat_visibility.c")])
prop("C19", "The sub-satellite point is the geodetic position below the satellite",
 "The reported geodetic latitude (in [-90, 90] degrees) and altitude are those whose ellipsoid normal passes through the satellite (to the iteration tolerance), the reported east longitude, in [-180, 180], is the satellite's right ascension minus Greenwich sidereal time, and the computation terminates.",
 ["inputs"], "all satellite positions outside the Earth and all sidereal times in [0, 24]",
 "no test; polar positions and the +-180 degree seam are measure-zero sets.",
 ["src/sat_skymap.c", "src/sat_visibility.c"], [("sat_geoLocation (two copies)", "src/sat_skymap.c, src/sat_visibility.c")])
prop("C20", "Earth tilt and nutation follow the IAU 1980 theory",
 "Nutation in longitude and obliquity, mean and true obliquity and the equation of the equinoxes equal the IAU 1980 series for the given date, and a repeated request at a later date does not return the values of another date (beyond the 0.01-day reuse window).",
 ["inputs", "histories"], "all dates 1900-2100, all call sequences",
 "no test; 106 periodic terms are addressed through an index table in which one wrong entry is a small periodic error.",
 ["src/earthtilt.c", "src/zenith_site_ra.c"], [("calcnutation, earthtilt", "src/earthtilt.c"), ("ut2gast, ut2last", "src/zenith_site_ra.c")],
 state=[("tjd_last, d_psi, d_eps, ...", "one-entry cache of the last date", "src/earthtilt.c")])

prop("C21", "sat_skymap reports exactly the satellites that satisfy the request",
 "sat_skymap reports every valid element set of the file(s) that meets the request, and no other: inside the region (at the start or the end epoch; a name filter replaces the region), within the altitude range, sunlit if asked, matching the name prefix, up to the requested maximum (if positive), in file order, each catalogue number considered once (the first occurrence in the file with a matching name decides). A single-satellite request (catalogue number or international designator) reports that satellite, whatever region or altitude range is given (the sunlit option still applies), or nothing; it never reports a different one. Element sets whose propagation fails are not reported.",
 ["inputs", "configurations"], "all TLE files and all option combinations",
 "no test runs the program; a wrong row looks as plausible as a right one.",
 ["src/sat_skymap.c"], [("main: file loop, duplicate buffer, single-satellite flags, filters", "src/sat_skymap.c")],
 state=[("single-satellite flag", "whether the current element set is the requested one", "src/sat_skymap.c"), ("seen-list", "catalogue numbers already processed", "src/sat_skymap.c")])
prop("C22", "sat_skymap's numbers describe the reported satellite",
 "For every reported satellite the coordinates, distance, separation, motion, sunlit flag, HEALPix number and geodetic position printed are those computed for that satellite's elements at the requested epoch (and delta-time later; the geodetic position describes the first epoch, the sunlit flag the second), and the region, sidereal-time and Sun values printed are those of the requested site and epoch. The counts printed equal the numbers of satellites that satisfy the request and of those that are sunlit.",
 ["inputs", "configurations"], "all TLE files, sites, epochs and option combinations",
 "no test runs the program.",
 ["src/sat_skymap.c"], [("main: computation and printing", "src/sat_skymap.c"), ("add_*_json, close_stat_json", "src/sat_skymap.c")])
prop("C23", "Both tools print one well-formed JSON object on every path",
 "Whatever the arguments and input files, sat_skymap and sat_visibility print either the usage text or exactly one syntactically valid JSON object on standard output, with the documented status, error message and counts, also when they stop early because of an error.",
 ["inputs", "configurations", "fault_sequences"], "all arguments and file contents without control characters, quotes or backslashes; all early exits",
 "no test runs the programs; every early exit happens at a different nesting depth.",
 ["src/sat_skymap.c", "src/sat_visibility.c"], [("open_json, add_*_json, close_stat_json, exit paths", "src/sat_skymap.c, src/sat_visibility.c")])
prop("C24", "The tools survive any command line and any input file",
 "For any arguments (of any length, in any combination) and any input file or list file content, sat_skymap and sat_visibility terminate, access no memory outside their objects and read no uninitialised value; options are applied as documented, whether their value follows directly or as the next argument.",
 ["inputs", "configurations"], "all argument vectors, list files and TLE files",
 "no test runs the programs.",
 ["src/sat_skymap.c", "src/sat_visibility.c"], [("main: option loop, path and message buffers, duplicate buffer growth, list-file reading", "src/sat_skymap.c, src/sat_visibility.c")])
prop("C25", "sat_visibility reports a consistent visibility window",
 "The reported window is the first maximal run of sampled instants within the requested interval at which the satellite is inside the zenith radius and sunlit: start <= middle <= end, start <= highest point <= end, the end is the first sampled instant at which it is no longer visible (or the last sampled instant of the interval), the duration printed is end minus start (never negative), each printed Modified Julian Date equals the date printed with it, and the positions printed belong to those instants. The highest point is the sampled sunlit instant with the smallest zenith distance; without a visible instant no satellite is reported.",
 ["inputs", "configurations"], "all element sets, sites, intervals, steps and radii",
 "no test runs the program.",
 ["src/sat_visibility.c"], [("main: time loop, start/end/mid/max bookkeeping", "src/sat_visibility.c")],
 state=[("mjd_sunlit_start/mid/end, t_min_ang_dist", "the window found so far", "src/sat_visibility.c")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for d in P: f.write(json.dumps(d) + "\n")
    for d in P: assert len(d["title"]) <= 80, d["id"]
    print(len(P))
