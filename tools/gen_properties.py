#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))

NOTEST = "The only tests are HEALPix pixel-centre round trips in HealpixC/test_chealpix.c; "

prop("C01", "Every run prints exactly one well-formed JSON document that reports its outcome",
 "Whatever the arguments, file names and TLE texts, a run of sat_skymap or sat_visibility with at least one argument that is not answered with the help text writes exactly one syntactically valid JSON object on standard output, with the documented members for that kind of answer. "
 "'status' and the exit code are 0 together on success, and on every failure (unreadable, empty or missing TLE or list file, unknown option, option without its value, latitude/RA/Dec/MJD out of range, site, region or radius not finite, time step under a second, elements that give no position for the one satellite requested) status is non-zero and 'errmsg' is a non-empty explanation, also when the failure comes after satellites were already written. "
 "The echoed run_command, file name, satellite names and input parameters are those given, and n_sats_found equals the number of satellites listed (or, with -I, that would have been listed).",
 ["inputs", "configurations"], "all argument vectors of documented options in any combination (including missing, malformed, non-finite and quote/backslash-carrying values), all list files and TLE files, both programs",
 NOTEST + "no test runs either program.",
 ["src/sat_skymap.c", "src/sat_visibility.c"],
 [("open_json/add_*_json/close_stat_json", "src/sat_skymap.c, src/sat_visibility.c"), ("early error exits", "main() of both programs")],
 ["stdout", "exit status"])

prop("C02", "A region search returns exactly the satellites inside the requested region",
 "For any catalogue, site, epoch, region centre and radius, and second-epoch interval, sat_skymap lists a satellite if and only if its apparent J2000 position lies within the radius of the centre at the start epoch or at the second epoch: great-circle distance with -H, and without it the plane formula on RA and Dec differences with the RA difference taken the short way round. "
 "Positions within printing precision of the circle may fall on either side. "
 "Satellites are listed in the order of the catalogue, and one for which the motion model yields no position at either of the two times is never listed.",
 ["inputs", "configurations"], "all catalogues of valid TLEs (near-earth, deep-space, resonant, decayed), sites, epochs, centres including RA near 0/360 and the poles, radii 0-180 deg, deltaT, with and without -H",
 NOTEST + "the region filter is never run, and its failures sit at RA wrap, at the poles, or in satellites that enter only at the second epoch.",
 ["src/sat_skymap.c", "src/skysep_h.c", "src/observe.c", "src/sgp4.c", "src/sdp4.c", "src/deep.c", "src/common.c"],
 [("region test on both epochs", "src/sat_skymap.c main loop"), ("skysep_h", "src/skysep_h.c")],
 ["stdout 'satellites' of sat_skymap"])

prop("C03", "Reported position, distance, separation and motion are those of the satellite",
 "For every satellite sat_skymap lists, RA/Dec at the start and second epoch (apparent topocentric place reduced to J2000), Distance, Separation from the region centre, position angle of motion, Speed, HEALPix order-8 nested pixel, name (the line above the element pair, up to 23 characters; empty for an element pair without a line of its own), international designator and NORAD number are those an independent SGP4/SDP4 plus topocentric reduction gives for that TLE, site and epoch, to printing precision. "
 "Every printed coordinate is in range: RA in [0,360], Dec in [-90,90], Separation in [0,180] with -H, PA in [0,360), Distance and Speed not negative.",
 ["inputs", "configurations"], "all valid TLEs, sites (any latitude, longitude sign, height), epochs from years before to years after the elements, deltaT from 1 s to an hour",
 NOTEST + "no satellite is ever propagated by a test.",
 ["src/sat_skymap.c", "src/observe.c", "src/sgp4.c", "src/sdp4.c", "src/deep.c", "src/common.c", "src/get_el.c"],
 [("get_satellite_ra_dec_delta, epoch_of_date_to_j2000, observer_cartesian_coords", "src/observe.c"), ("output row", "src/sat_skymap.c")],
 ["stdout 'data', 'name', 'intl_desig', 'norad_n' of sat_skymap"])

prop("C04", "Selecting by NORAD number, designator or name returns exactly that object",
 "With -s N or -i D sat_skymap and sat_visibility report the satellite of the files read whose catalogue number (also above 99999, letter-coded in the TLE) or full international designator is the one asked for, wherever it stands in the files, ignoring the region and any altitude filter; they report no other satellite, and when there is none sat_skymap says so with status 0, no satellites and zero counts, while sat_visibility fails with status 1. "
 "With -S text sat_skymap reports exactly the satellites whose name starts with the text.",
 ["inputs", "configurations"], "all catalogues (shared prefixes, duplicates, several files, letter-coded numbers, designators with 1-3 letter pieces, blank designators), all requested ids/names present or absent, combined with other options in any order",
 NOTEST + "selection code is never run.",
 ["src/sat_skymap.c", "src/sat_visibility.c", "src/get_el.c"],
 [("single_sat_n / single_sat_i / satname_filter tests", "src/sat_skymap.c, src/sat_visibility.c"), ("get_norad_number", "src/get_el.c")],
 ["stdout of both programs", "exit status"])

prop("C05", "Sunlit flags, the -V filter and the sunlit count agree with the geometry",
 "A satellite is flagged sunlit exactly when the straight line from it to the Sun does not meet the Earth (a sphere of equatorial radius), at the epoch reported, up to positions on the shadow edge. "
 "With -V the list is exactly the flag-1 rows, in the same order, of the run without -V, and n_sunlit_sats equals the number of listed rows with flag 1, also when -n cuts the list.",
 ["inputs", "configurations"], "all catalogues, sites, epochs, selection modes (region, name, single, -E), with and without -V, -I and -n",
 NOTEST + "no satellite is ever propagated by a test, and shadow entry depends on satellite, Sun and epoch together.",
 ["src/sat_skymap.c", "src/lpsun_radec.c"],
 [("intersect_satsun_sphere", "src/sat_skymap.c"), ("lpsun_radec", "src/lpsun_radec.c")],
 ["stdout 'data'[8], 'n_sunlit_sats' of sat_skymap"])

prop("C06", "Geodetic locations, the altitude filter and -E regions are correct",
 "Whenever the geodetic location is asked for or implied (-G, -E, -a, -s, -i), each listed satellite carries latitude, longitude, altitude and theta such that theta is the right ascension of the sub-satellite direction, longitude = theta - GMST in [-180,180], and latitude/altitude are the WGS-like geodetic coordinates of the propagated position to printing precision. "
 "With -a lo,hi (either order) the list is exactly the satellites of the unfiltered run whose altitude lies in [lo,hi], except that -s/-i requests ignore the filter. "
 "With -E the region test and Separation use the satellite's geodetic longitude/latitude against the site's, the longitude difference taken the short way round, and -p is ignored.",
 ["inputs", "configurations"], "all satellites incl. polar and antimeridian sub-points, sites at any longitude, altitude ranges in both orders, -E with and without -H, all combined with region or name selection",
 NOTEST + "geodetic conversion and these filters are never run.",
 ["src/sat_skymap.c", "src/lmst_hr.c"],
 [("sat_geoLocation", "src/sat_skymap.c"), ("altitude filter / geoloc_reference branch", "src/sat_skymap.c")],
 ["stdout 'geoloc' and the list of satellites"])

prop("C07", "Each satellite is listed once, and a list file equals its files in sequence",
 "A satellite that occurs several times in the files read is listed at most once, from its first occurrence, and occurrences of other satellites are never lost, for catalogues of any size. "
 "Running on a list file (@name, with comments, blank lines, CR/LF endings, as first or last argument) gives the same satellites, in the same order, as running on the concatenation of the files it names, looked up in the -D directory.",
 ["inputs", "histories"], "all sequences of TLE files with repetitions within and across files, catalogues from empty to tens of thousands of satellites, list files with comments/blank lines/any line ending/with or without final newline",
 NOTEST + "no file is ever read by a test, and the duplicate index changes behaviour only past ~11,667 satellites.",
 ["src/sat_skymap.c"],
 [("sbuff duplicate index", "src/sat_skymap.c main loop"), ("list file loop", "src/sat_skymap.c main loop")],
 ["stdout of sat_skymap"],
 state=[("sbuff", "catalogue numbers already processed", "src/sat_skymap.c main()")])

prop("C08", "Result limits and information-only runs are consistent with the full run",
 "With -n N (N > 0) the list is the first N entries of the unlimited list, and never more than 1000 entries without -n. "
 "With -I no satellite is printed, and n_sats_found, n_sats, n_sunlit_sats, status, input parameters and Sun data are those of the same run without -I.",
 ["inputs", "configurations"], "all catalogues, filters and selection modes, N from 1 to beyond the number of matches",
 NOTEST + "no test runs the program.",
 ["src/sat_skymap.c"], [("max_sats / info_only handling", "src/sat_skymap.c")], ["stdout of sat_skymap"])

prop("C09", "The answer does not depend on how a request is spelled",
 "Option order, the optional space after an option letter, giving the TLE file first or last, repeating a switch, giving an epoch as the equal calendar date or MJD, giving longitude as negative or plus 360, writing a number in another form (leading zeros, a sign, trailing zeros, an exponent), spelling out a documented default (-r 20 and -t 1 or -r 90 and -t 3, -n 1000, -D ./), and naming the file directly or through -D never change the answer of sat_skymap or sat_visibility apart from the echoed command line and file name. "
 "The documented precedences hold in any order: -d over -j, -D over -T, -s/-i over -p, -r and -a, -E over -p.",
 ["inputs", "configurations"], "all permutations and spellings of generated option sets, both programs",
 NOTEST + "no option is ever parsed by a test.",
 ["src/sat_skymap.c", "src/sat_visibility.c"], [("option loop", "main() of both programs")], ["stdout of both programs"])

prop("C10", "SGP4/SDP4 propagation equals the published model",
 "For any valid element set and time offset the library's near-earth and deep-space propagators, selected by the 225-minute period rule, give the position and velocity of the published SGP4/SDP4 theory with WGS-72 constants to well under the model's accuracy: centimetres to metres for near-earth, and metres to tens of metres for deep-space and resonant orbits within weeks of epoch. "
 "Where the theory has no answer (decayed or hyperbolic elements) a negative error code is returned rather than a plausible position.",
 ["inputs"], "all element sets: near-circular to highly eccentric, low-perigee, critical inclination, equatorial, retrograde, 12-h and 24-h resonant, high drag; offsets of minutes to months, both signs",
 NOTEST + "no element set is propagated by any test; errors hide in branches for rare orbits.",
 ["src/sgp4.c", "src/sdp4.c", "src/deep.c", "src/common.c", "src/basics.c"],
 [("SGP4, SDP4, Deep_*", "src/sgp4.c, src/sdp4.c, src/deep.c"), ("sxpx_common_init, sxpx_posn_vel", "src/common.c"), ("select_ephemeris", "src/basics.c")],
 ["library API: SGP4_init/SGP4, SDP4_init/SDP4, select_ephemeris"])

prop("C11", "Every propagator is self-consistent, repeatable and agrees with its siblings",
 "For each of SGP, SGP4, SGP8, SDP4, SDP8 the velocity is the time derivative of the position, asking for the position alone gives the same position, and the result at a time does not depend (beyond the models' accuracy) on which times were asked before. "
 "Near epoch the near-earth models agree with each other, and the two deep-space models with each other, to kilometres.",
 ["inputs", "histories"], "all valid element sets of the model's regime, arbitrary sequences of time offsets forwards and backwards on one initialised parameter block",
 NOTEST + "no propagator is called by any test, and history effects need a sequence of calls.",
 ["src/sgp.c", "src/sgp4.c", "src/sgp8.c", "src/sdp4.c", "src/sdp8.c", "src/deep.c", "src/common.c"],
 [("SGP*/SDP* and their _init", "src/sgp*.c, src/sdp*.c"), ("resonance integrator restart and perturbation cache", "src/deep.c")],
 ["library API"], state=[("deep-space parameter block", "integrator state and cached lunisolar terms kept between calls", "src/deep.c")])

prop("C12", "State-vector ('H' type) ephemerides are integrated correctly",
 "For a TLE of ephemeris type H the position and velocity at the epoch are exactly the stored state vector, later and earlier positions follow Earth-Moon-Sun gravity to within the integrator's accuracy over days, the velocity is the derivative of the position, and integrating out and back returns to the start. "
 "Such satellites are decoded, reported and selected by the programs like any other.",
 ["inputs"], "all state vectors of high orbits to beyond the Moon and to L2, offsets of minutes to weeks in both directions, the shipped gaia/jwt/euclid/juice files",
 NOTEST + "the H branch is never run.",
 ["src/sdp4.c", "src/get_el.c", "src/basics.c"],
 [("high_ephemeris", "src/sdp4.c"), ("get_high_value", "src/get_el.c")], ["library API SDP4; sat_skymap output on scripts/*.txt"])

prop("C13", "Two-line elements decode to the values they encode",
 "Every well-formed TLE pair decodes to exactly the epoch, inclination, node, eccentricity, perigee, anomaly, mean motion and derivatives, drag term, catalogue number (plain, Alpha-5 and the documented 34-letter extension), designator, classification, ephemeris type, bulletin and revolution numbers written in its columns, for all epochs from 1957 to 2056. "
 "The checksum verdict is right for every line: a single changed digit is always noticed and reported by line, a wrong checksum never changes the decoded values, and lines that are not element lines are rejected.",
 ["inputs"], "all field values and sign/blank conventions of the TLE format, all catalogue-number encodings, all single-character corruptions",
 NOTEST + "the parser is never run.",
 ["src/get_el.c"], [("parse_elements, tle_checksum, get_norad_number, sci, get_angle", "src/get_el.c")], ["library API: parse_elements, tle_checksum"])

prop("C14", "No input text or argument corrupts memory, aborts or hangs the programs",
 "For any bytes as TLE or list files, any argument strings for the documented options, and any element values, the library and both programs neither read or write outside their buffers nor abort, crash or fail to terminate: the input is processed or rejected with a reported error. "
 "Text that is not a TLE in one place never stops satellites elsewhere in the file from being read.",
 ["inputs"], "arbitrary and mutated TLE/list files (truncated lines, missing newlines, control and non-ASCII bytes, over-long lines and names), arbitrary-length and numeric-extreme arguments, arbitrary element values",
 NOTEST + "no parsing or argument code is run by them.",
 ["src/get_el.c", "src/sat_skymap.c", "src/sat_visibility.c", "src/deep.c", "src/sdp4.c"],
 [("parse_elements", "src/get_el.c"), ("argument copies and line reading", "main() of both programs")], ["AddressSanitizer/UBSan reports, exit status, stdout"])

prop("C15", "Calendar dates and MJDs convert consistently",
 "Calendar date to MJD and MJD to calendar date agree with the proleptic Gregorian calendar (to the day fraction's documented 1e-5 resolution and the nearest second; fractional seconds of a date count), compose to the identity on whole-second dates, are monotonic, and always give a valid calendar date with fields in range. "
 "The dates and MJDs the programs print for the same instant agree, and mjdnow prints the MJD of the system clock.",
 ["inputs"], "all dates from 1900-03-01 to 2100-02-28 (and MJD to dates of years 1000-9999), all times of day including leap days, month and year ends and last seconds",
 NOTEST + "no date is converted by a test.",
 ["src/date2mjd_nf.c", "src/mjd2date.c", "src/mjdnow.c", "src/sat_skymap.c", "src/sat_visibility.c"],
 [("date2mjd_nf, mjd2date, mjd2datef", "src/date2mjd_nf.c, src/mjd2date.c")], ["library API; 'mjd', 'epoch_UTC', 'mjd_range', 'date_utc_range', 'Date', 'MJD'"])

prop("C16", "Sidereal time and the observer's place follow the date and the site",
 "Greenwich and local mean sidereal time equal the IAU 1982 expression for any date, lie in [0,24) hours, and differ by the longitude; the two implementations of sidereal time and zenith right ascension agree with it to 0.1 s, and apparent differs from mean by the equation of the equinoxes (under 1.2 s). "
 "The observer's geocentric position is the ellipsoidal one at distance consistent with latitude and height, rotates with sidereal time, and is the same wherever in the programs it is used.",
 ["inputs"], "all Julian dates from 1950 to 2100, all longitudes in [-180,360], latitudes in [-90,90], heights from -500 m to 10 km",
 NOTEST + "no astronomy routine is called by a test.",
 ["src/lmst_hr.c", "src/zenith_site_ra.c", "src/earthtilt.c", "src/observe.c"],
 [("lmst_hr", "src/lmst_hr.c"), ("ut2gmst, ut2gast, zenith_site_ra*", "src/zenith_site_ra.c"), ("observer_cartesian_coords, earth_lat_alt_to_parallax", "src/observe.c")],
 ["library API; 'gmst', 'lmst' in the output"])

prop("C17", "Altitude, azimuth and parallactic angle obey spherical astronomy",
 "For any declination, hour angle and latitude the altitude, azimuth (north through east, [0,360)) and parallactic angle are those of the spherical triangle pole-zenith-object, including on the meridian north and south of the zenith, at the poles and near the zenith, wherever they are defined. "
 "The region's and the Sun's az/alt/parang printed by the programs are those values for the printed positions.",
 ["inputs"], "all declinations, hour angles in [-24,24] h including 0 and exact multiples, all latitudes including the poles",
 NOTEST + "no astronomy routine is called by a test.",
 ["src/dechalat2alt.c", "src/sat_skymap.c", "src/sat_visibility.c"],
 [("dechalat2alt", "src/dechalat2alt.c")], ["library API dechalat2alt; 'az','alt','parang' in 'region', 'sun' and 'sat_*'"])

prop("C18", "The reported Sun is where the Sun is",
 "For any date between 1950 and 2050 the Sun's right ascension (in [0,24 h)) and declination are within 0.015 degrees of an independent solar theory referred to the equinox of date, and not more than 0.005 degrees off the ecliptic. "
 "The 'sun' data of both programs give that position, its longitude of the sub-solar point RA - GMST in [-180,180], its altitude and azimuth at the site and its angular distance from the target.",
 ["inputs"], "all epochs in 1950-2050, all sites and targets",
 NOTEST + "no astronomy routine is called by a test.",
 ["src/lpsun_radec.c", "src/sat_skymap.c", "src/sat_visibility.c"],
 [("lpsun_radec", "src/lpsun_radec.c"), ("add_sundata_json", "both programs")], ["library API lpsun_radec; 'sun' block"])

prop("C19", "Angular separation is the great-circle metric",
 "The haversine separation is finite, in [0,180] degrees, equal to the angle between the two direction vectors, symmetric, zero only for equal directions, unchanged by adding full turns of longitude within the documented ranges and by a common rotation in longitude, and satisfies the triangle inequality. "
 "This holds at tiny separations, at antipodes and at the poles alike.",
 ["inputs"], "all pairs and triples of directions with longitudes in [-pi,2pi] and latitudes in [-pi/2,pi/2], incl. identical, nearly identical, antipodal and polar ones",
 NOTEST + "no astronomy routine is called by a test.",
 ["src/skysep_h.c"], [("skysep_h", "src/skysep_h.c")], ["library API skysep_h; 'Separation', 'separation_deg'"])

prop("C20", "Reduction to J2000 yields valid, accurate coordinates for every direction",
 "For any direction and any date within decades of J2000 the reduction from equinox of date to J2000 returns RA in [0,360] and Dec in [-90,90] degrees, agrees with rigorous IAU precession to arcminutes away from the poles, is the identity at J2000, and varies continuously across RA 0. "
 "A satellite's reported pixel is always the one containing its reported RA/Dec, also next to the poles.",
 ["inputs"], "all directions incl. the celestial poles and RA 0, dates 1980-2060",
 NOTEST + "no astronomy routine is called by a test.",
 ["src/observe.c", "src/sat_skymap.c"], [("epoch_of_date_to_j2000", "src/observe.c")], ["library API epoch_of_date_to_j2000; RA/Dec/HPXID_8 in sat_skymap output"])

prop("C21", "HEALPix position-to-pixel conversion partitions the sphere correctly",
 "For every position and resolution up to 2^29 in both numbering schemes, the pixel returned is a valid index whose cell contains the position: it is the pixel of the published HEALPix projection, nested indices at successive resolutions are parent and child, angle and vector forms agree, full turns of longitude do not matter, and the pixel's centre lies within one pixel radius of the position. "
 "Pixel to position and back is the identity for every pixel.",
 ["inputs"], "all (theta, phi) and vectors including cap boundaries, poles, cell edges, negative or multi-turn phi; all nside 2^0..2^29 (any nside for RING), all pixels",
 "The tests only try pixel centres on a fixed stride; positions off centre, near cell edges, cap boundaries or with phi outside [0,2pi) are never tried.",
 ["HealpixC/chealpix.c"], [("ang2pix_*, vec2pix_*, pix2ang_*, pix2vec_*", "HealpixC/chealpix.c")], ["library API"])

prop("C22", "RING and NEST numbering are consistent in 32- and 64-bit interfaces",
 "nest2ring and ring2nest are mutually inverse bijections on [0, 12 nside^2), agree with converting through positions, and keep the pixel's centre; the 32- and 64-bit interfaces give the same results wherever both apply; ring numbering orders pixels by decreasing z and increasing longitude. "
 "nside2npix and npix2nside are inverse and reject non-map sizes.",
 ["inputs"], "all nside up to 8192 (32-bit) and 2^29 (64-bit), all pixels",
 "The tests sample pixel centres on a fixed stride, never compare the two interfaces with each other and never check the ordering.",
 ["HealpixC/chealpix.c"], [("nest2ring*, ring2nest*, nside2npix*, npix2nside*", "HealpixC/chealpix.c")], ["library API"])

prop("C23", "A HEALPix map written to FITS reads back as it was",
 "For any nside, ordering, coordinate system and pixel values, writing a map and reading it back returns the same nside, ordering, coordinate system letter and float values (normal numbers and zero bit for bit, whatever their size and sign; NaN and infinities, which the file marks as undefined, as the HEALPix null value -1.6375e30; subnormal numbers as themselves or zero), the size query returns nside, ordering and the pixel count, and overwriting replaces the old file. "
 "A file that is missing or is not a HEALPix map is refused without a crash.",
 ["inputs", "histories"], "all nside 1..256 of both orderings, all float maps, sequences of writes to one file",
 "One 12-pixel nested map is written and read by the tests.",
 ["HealpixC/chealpix.c"], [("write_healpix_map, read_healpix_map, get_fits_size", "HealpixC/chealpix.c")], ["library API, FITS files in a scratch directory"])

prop("C24", "sat_visibility reports the first interval in which the satellite can be seen",
 "For any satellite, site, time range, step and zenith radius the reported interval starts at the first sampled time at which the satellite is both sunlit and within the radius of the zenith, ends at the first sampled time at which it no longer is (or at the end of the range), and its duration is the difference of its reported times; with -N it starts only once the Sun has set. "
 "The mid entry is the middle of the interval and the max entry the highest altitude reached while visible; when there is no such time in the range, no satellite is reported, the Sun at the start of the range is, and the run still succeeds.",
 ["inputs", "configurations"], "all satellites, sites, ranges from seconds to days, steps from 1 s to minutes, radii 1-180 deg, with and without -N",
 NOTEST + "sat_visibility is never run.",
 ["src/sat_visibility.c"], [("time loop", "src/sat_visibility.c main()")], ["stdout of sat_visibility"])

prop("C25", "The data sat_visibility gives for an instant are true at that instant",
 "For each of the start, end, mid and max entries Date and MJD name the same instant, and RA, Dec, az, alt, Distance, Separation from the zenith, position angle and speed of motion (over the step that follows), the geodetic location and the Sun's data are those of the satellite, site and Sun at that instant; altitude is 90 degrees minus separation, and sat_skymap run for that instant gives the same position. "
 "Name, designator, NORAD number, site, range and step are those of the request.",
 ["inputs", "configurations"], "all satellites, sites, ranges and steps for which an interval is reported",
 NOTEST + "sat_visibility is never run.",
 ["src/sat_visibility.c"], [("add_satdata_json, add_satlatlon_json, add_sundata_json, get_sun_data", "src/sat_visibility.c")], ["stdout of sat_visibility"])

prop("C26", "The kept directory of TLE files survives failed downloads, and its counts and lists are true",
 "However many downloads of a retrieval fail, and however (no connection, an error code with or without a body), afterwards each TLE file of the directory is either the file newly downloaded with success or the file that was there before, whole; the special list is drawn from those files, plus the elements of the current day for the spacecraft with yearly files; nothing is written outside the chosen directory, also when it is missing or given by a relative path. "
 "The counts left by the counting script are the satellites in each file that is there, the number of different satellites outside debris files, and that plus the debris; the list of numbers has each satellite once; the lists of files shipped name files that the retrieval keeps, and a search on them sees every satellite of those files.",
 ["inputs", "histories", "configurations"], "all directories, all patterns of download failures, missing files, left-overs of stopped runs, default, absolute and relative directories",
 NOTEST + "the scripts and the lists are never run.",
 ["scripts/tle_retrieve.sh", "scripts/tle_satcount.sh", "ALL_merged.lis"], [("tle_retrieve.sh", "scripts/tle_retrieve.sh"), ("tle_satcount.sh", "scripts/tle_satcount.sh"), ("ALL_merged.lis, ALL_merged_nodeb.lis", "top level")], ["files left in the TLE directory"])

prop("C27", "The options of the deep-space propagators do what their names say",
 "With Dundee compliance chosen, the result of SDP4 or SDP8 at a time is the same, bit for bit, whatever times were asked before on the same parameter block. "
 "The integration step and order chosen for resonant orbits are those used: the answer is that of the published theory with its resonance angle and mean motion integrated by Taylor steps of that length and order from the epoch; for an orbit without resonance, or within the first step at the default order, the options change nothing.",
 ["inputs", "histories", "configurations"], "all deep-space element sets, steps of 10 minutes and more, orders 1 to 9, all histories of times on one parameter block",
 NOTEST + "no test propagates anything, and the options only matter for rare orbits and histories.",
 ["src/deep.c", "src/sdp4.c", "src/sdp8.c", "src/sgp.c"], [("sxpx_set_dpsec_integration_step, sxpx_set_implementation_param", "src/deep.c"), ("Deep_dpsec", "src/deep.c")], ["library API"],
 state=[("options", "variables of the library, for all parameter blocks", "src/deep.c")])

prop("C28", "SGP, SGP8 and SDP8 equal the published models",
 "For any valid element set and time offset SGP, SGP8 and SDP8 give the position and velocity of the models published in Spacetrack Report 3 (with WGS-72 constants), to well under a metre except where the published equations themselves are ill-conditioned, in both drag modes of SGP8 and SDP8 and with any mean motion derivatives in SGP; circular and equatorial limits of the elements have a finite answer. "
 "Where the model has no orbit the result is an error code or not a number, never a plausible position.",
 ["inputs"], "all element sets: circular to highly eccentric, low perigee, equatorial, polar, retrograde, resonant, high and negative drag, mean motion derivatives of both signs; offsets of minutes to months, both signs",
 NOTEST + "no element set is propagated by any test.",
 ["src/sgp.c", "src/sgp8.c", "src/sdp8.c", "src/deep.c", "src/common.c"],
 [("SGP, SGP8, SDP8 and their _init", "src/sgp.c, src/sgp8.c, src/sdp8.c")], ["library API"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
