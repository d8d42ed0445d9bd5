#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
TESTS = ("The only tests are test_chealpix: HEALPix round trips at pixel centres. ")
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

SM, SV = "src/sat_skymap.c", "src/sat_visibility.c"

prop("C01", "Every run prints one well-formed JSON report whose counts agree with its content",
 "For every command line and every content of the element, list and directory inputs, each run of sat_skymap or sat_visibility that does not print its usage text writes exactly one complete, well-formed JSON document to standard output, on success and on every error path alike. The document always carries the echoed command line, an integer status, an error message and the satellite counts; every number in it is finite, and every text taken from the input (names, file names, arguments) appears as valid JSON text with the same characters. The number of satellite objects listed equals the reported number found (none are listed when only information is requested or when none were found), and the sunlit count equals the number of listed objects flagged sunlit.",
 ["inputs", "configurations"], "all argument vectors (valid, invalid, truncated, any order) x all TLE/list file contents, including names with quotes, backslashes and control characters, malformed element lines and errors that occur after some satellites were already printed",
 TESTS + "No test runs either program, and only whole-program runs over error paths and odd texts can show a broken document.",
 [SM, SV], [("incremental printing of the document and the closing status block", SM + " close_stat_json, main; " + SV + " close_stat_json, main")],
 ["stdout of sat_skymap and sat_visibility"])

prop("C02", "No memory error, undefined behaviour, abort or hang on any input",
 "For every command line, every content of the files they read and every text passed to the element parser, sat_skymap, sat_visibility and the satellite library finish with an ordinary exit: they never read or write outside an object, never depend on uninitialised memory, never execute undefined arithmetic, never abort, are never killed by a signal and never loop forever. This includes arguments and file lines of any length, options without a value, non-numeric and extreme numbers, catalogues with any number of satellites, and truncated or corrupted element lines of every kind.",
 ["inputs", "configurations"], "all argument vectors and all byte contents of TLE and list files, catalogue sizes from 0 to tens of thousands of satellites, dates within +-1e6 days of the element epoch",
 TESTS + "They never execute the satellite code, and no finite set of examples covers all lengths and contents.",
 [SM, SV, "src/get_el.c", "src/mjd2date.c", "src/common.c", "src/deep.c", "src/sdp4.c"],
 [("fixed-size text buffers for arguments, names, paths and messages", SM + " main; " + SV + " main"),
  ("growing buffer of already seen catalogue numbers", SM + " main"),
  ("fixed-column element parsing", "src/get_el.c parse_elements, get_angle, sci, get_high_value"),
  ("calendar text in a static buffer", "src/mjd2date.c mjd2date")],
 ["exit status and sanitizer reports of sat_skymap, sat_visibility and of library drivers"])

prop("C03", "Region search lists exactly the satellites inside the requested sky circle",
 "For a region given by J2000 centre and radius, sat_skymap lists a satellite of the catalogue if and only if its apparent J2000 direction from the observer is within the radius of the centre at the requested time or at the second epoch, and the separation it reports is the distance from the centre at the requested time. The distance is the great-circle distance when the haversine option is on, and otherwise the plane distance sqrt(dRA^2 + dDec^2) with the RA difference taken the short way round the circle; with no centre given the region is centred on the zenith. This holds for every centre, including centres next to RA 0/360 and next to a celestial pole.",
 ["inputs", "configurations"], "all catalogues, observers, times, centres, radii and second-epoch intervals (positions within rounding distance of the circle's edge excepted)",
 TESTS + "A missed or spurious satellite only appears for particular geometry such as a centre near RA 0.",
 [SM, "src/skysep_h.c"], [("separation and inclusion test", SM + " main"), ("great-circle distance", "src/skysep_h.c skysep_h")],
 ["list of satellites and Separation in sat_skymap's JSON"])

prop("C04", "Geodetic-reference search selects satellites by their sub-point's distance",
 "When the observer's geodetic location is used as the reference of the region, sat_skymap lists a satellite if and only if its geodetic sub-point at the requested time is within the radius of the observer's latitude and longitude, and reports that distance in degrees as the separation. The distance is the great circle between the two (latitude, longitude) points with the haversine option, and otherwise sqrt(dlon^2 + dlat^2) with the longitude difference taken the short way round; any requested RA/Dec centre is ignored. This holds for observers in both hemispheres and on both sides of the 0 and 180 degree meridians.",
 ["inputs", "configurations"], "all catalogues, observers and times, radii, with and without the haversine option",
 TESTS + "No test runs the search.",
 [SM, "src/skysep_h.c"], [("geodetic branch of the separation test", SM + " main")], ["list of satellites and Separation in sat_skymap's JSON with -E"])

prop("C05", "Each catalogue object is reported once, in order, over all files, up to the cap",
 "Whatever the number of element files, their order and their repetitions, sat_skymap considers each catalogue number once, using its first occurrence in file and line order, and lists the qualifying satellites in that order. A list file is read row by row, skipping comment rows and blank rows, accepting LF and CRLF line endings, and contributes every file it names; the run stops with the first max-sats qualifying satellites (a non-positive maximum means no limit), and the reported count equals that number. Catalogues of any size are handled alike.",
 ["inputs", "configurations", "histories"], "all sequences of element files and list rows, duplicates within and across files, catalogue sizes from none to tens of thousands, all values of the cap",
 TESTS + "Loss or double counting appears only with particular sequences of duplicates or with catalogues larger than internal buffers.",
 [SM], [("seen-number buffer", SM + " main"), ("list file reader", SM + " main"), ("cap", SM + " main")], ["ordered list of norad_n and n_sats_found in sat_skymap's JSON"],
 state=[("seen numbers", "catalogue numbers already processed", SM + " main")])

prop("C06", "Selecting by number, designator or name reports exactly the requested satellites",
 "A request for a single satellite by catalogue number or by international designator reports that satellite and no other, with its element set's first occurrence, ignoring the region; if the catalogue does not contain it, or it fails the sunlit filter, no satellite is reported and absence from the catalogue is stated in the error message. A request by name reports exactly the satellites whose name starts with the given text (when several selections are given, the number prevails over the designator and both over the name). Numbers above 99999 in the five-character alphanumeric form, multi-letter designator pieces and names that start with a digit or fill the 24-character field are matched and reported in full like any other, by sat_skymap and by sat_visibility alike.",
 ["inputs", "configurations"], "all catalogues and all requested numbers, designators and name prefixes, present or absent, combined with every filter and with the options in any order",
 TESTS + "Wrong-satellite answers need specific combinations of selection, filters and catalogue order.",
 [SM, SV, "src/get_el.c"], [("selection of the element set", SM + " main; " + SV + " main"), ("designator and name extraction", SM + " main; " + SV + " main"), ("catalogue number decoding", "src/get_el.c get_norad_number")],
 ["satellite objects, n_sats_found and errmsg in both programs' JSON"])

prop("C07", "Altitude and sunlit filters keep exactly the satellites that satisfy them",
 "Adding the altitude filter to a search keeps exactly the satellites whose geodetic altitude at the requested time lies within the given range (the two limits may be given in either order), and adding the sunlit filter keeps exactly those the unfiltered search flags as sunlit. All values reported for the remaining satellites and their order are unchanged by either filter. The altitude filter does not apply to single-satellite requests of sat_skymap, wherever it appears on the command line.",
 ["inputs", "configurations"], "all catalogues, ranges and searches, with any combination and order of the options",
 TESTS + "No test runs the search; the relation must hold between every pair of runs.",
 [SM], [("altitude and sunlit filters", SM + " main")], ["satellite lists of related sat_skymap runs"])

prop("C08", "Near-Earth satellites follow the published SGP4 model",
 "For every element set with an orbital period below 225 minutes, the position and velocity the library computes at any time before or after the epoch agree with the published NORAD SGP4 theory to better than a metre (a millimetre per second) over the model's validity, for all eccentricities, inclinations including polar, equatorial and retrograde, drag values of either sign, and perigees below 98, 156 and 220 km. When the elements describe a decayed or impossible orbit at that time, the failure is signalled by the error result instead of a position, and sat_skymap reports no position for that satellite while still reporting all others.",
 ["inputs"], "all near-Earth element sets and times within +-60 days of epoch",
 TESTS + "No test propagates an orbit; model branches depend on perigee height, eccentricity and drag.",
 ["src/sgp4.c", "src/common.c", "src/norad_in.h", SM], [("initialisation and secular terms", "src/sgp4.c SGP4_init, SGP4"), ("mean motion recovery, Kepler solution and short-period terms", "src/common.c sxpx_common_init, sxpx_posn_vel")],
 ["position and velocity returned by SGP4", "RA/Dec/Distance in sat_skymap's JSON"])

prop("C09", "Deep-space satellites follow the published SDP4 model and are recognised as such",
 "Every element set whose recovered (Kozai-corrected) period is 225 minutes or longer is propagated with the deep-space model and every shorter one with the near-Earth model, unless its ephemeris type says otherwise. For deep-space sets the position at any time before or after the epoch agrees with the published NORAD SDP4 theory within tens of metres (the size of its integration and update-interval differences), including half-day resonant, one-day resonant and non-resonant orbits, low inclinations and high eccentricities.",
 ["inputs"], "all deep-space element sets and times within +-60 days of epoch",
 TESTS + "No test propagates an orbit; resonance, low-inclination and lunar-solar branches depend on the elements.",
 ["src/sdp4.c", "src/deep.c", "src/basics.c", "src/common.c"], [("model selection", "src/basics.c select_ephemeris"), ("lunar-solar and resonance terms", "src/deep.c Deep_dpinit, Deep_dpsec, Deep_dpper"), ("deep-space propagation", "src/sdp4.c SDP4_init, SDP4")],
 ["position returned by SDP4", "RA/Dec/Distance in sat_skymap's JSON"])

prop("C10", "State-vector element sets are integrated as an Earth-Moon-Sun trajectory",
 "For element sets of the high-orbit type (ephemeris type H, an equatorial state vector in base-36 metres and 1e-4 m/s), the position at the epoch is the stored vector, and at any later or earlier time it follows the gravitational motion under Earth, Moon and Sun within the error of a one-day fourth-order integration step. Both programs use this model for exactly those sets, going forwards or backwards in time, for one step or many.",
 ["inputs"], "all state vectors from high Earth orbit to beyond L2 and all times within +-100 days of epoch",
 TESTS + "No test reads or propagates such a set.",
 ["src/sdp4.c", "src/get_el.c", "src/basics.c"], [("numerical integration", "src/sdp4.c high_ephemeris, calc_accel, lunar_solar_position"), ("state vector decoding", "src/get_el.c get_high_value, parse_elements")],
 ["position and velocity returned by SDP4 for H sets"])

prop("C11", "Two-line elements decode to the values written in their columns",
 "For every syntactically valid element pair the decoded epoch, catalogue number (five digits, Alpha-5 and the extended five-character form), designator, drag terms, inclination, node, eccentricity, argument of perigee, mean anomaly, mean motion and revolution number equal the values written in the standard columns, with two-digit years 57-99 meaning 1957-1999 and 00-56 meaning 2000-2056. A wrong checksum digit on either line is reported by the result code (1, 2 or 3) without changing any decoded value, and lines that are not element lines are rejected with a negative code. The checksum of a line is the sum modulo 10 of its digits, counting each minus sign as one.",
 ["inputs"], "all element values representable in the format, all catalogue numbers of every form, all single-character corruptions",
 TESTS + "No test parses an element set.",
 ["src/get_el.c"], [("column decoding", "src/get_el.c parse_elements"), ("checksum", "src/get_el.c tle_checksum"), ("number schemes", "src/get_el.c get_norad_number")],
 ["structure filled by parse_elements, value returned by tle_checksum"])

prop("C12", "Apparent position is the observer-to-satellite direction, precessed to J2000",
 "The reported distance is the length of the vector from the observer (on the Earth ellipsoid at the given latitude, longitude and height, turned by the sidereal time) to the satellite, and the reported RA and Dec are that vector's direction brought from the equinox of date to J2000 by precession within its first-order accuracy. RA is reported in [0, 360] and Dec in [-90, 90] for every satellite, observer and date, including directions next to the celestial poles.",
 ["inputs"], "all observers (poles, date line, below sea level to stratospheric), satellites and dates 1957-2056",
 TESTS + "No test computes a position.",
 ["src/observe.c", SM], [("parallax constants, observer vector, direction and precession", "src/observe.c earth_lat_alt_to_parallax, observer_cartesian_coords, get_satellite_ra_dec_delta, epoch_of_date_to_j2000")],
 ["RA_start, Dec_start, Distance in sat_skymap's JSON", "library functions"])

prop("C13", "Reported sub-point maps back to the satellite's position",
 "The geodetic latitude, longitude, altitude and equatorial angle reported for a satellite are consistent with its geocentric position: placing a point at that latitude, longitude and altitude over the Earth ellipsoid, turned by the sidereal time, gives back the satellite's position to the printed precision. The equatorial angle equals longitude plus Greenwich sidereal time modulo 360 degrees, longitude is in [-180, 180] and latitude in [-90, 90], from decaying orbits to beyond the Moon, over both hemispheres and at high latitudes.",
 ["inputs"], "all satellites, dates and observers",
 TESTS + "No test computes a sub-point.",
 [SM, SV], [("iterative geodetic conversion", SM + " sat_geoLocation; " + SV + " sat_geoLocation")], ["geoloc objects in both programs' JSON"])

prop("C14", "Calendar dates and Modified Julian Dates convert exactly both ways",
 "Every proleptic Gregorian UTC date of the documented form, with or without fractional seconds or with a leap second :60, is converted to the Modified Julian Date of that instant within the printed resolution of 1e-5 day, and every Modified Julian Date is converted to the calendar date of that instant to the nearest second (to the millisecond in the fractional form). Consequently a date converted to MJD and back is the same date to the second, across month ends, leap days, century years, the MJD origin and half-day boundaries.",
 ["inputs"], "all dates from year 0 to 84000 for the MJD to date direction and years 1583 to 9999 for the reverse, every second of the day",
 TESTS + "No test converts a date; errors hide at month, leap-year and rounding boundaries.",
 ["src/date2mjd_nf.c", "src/mjd2date.c"], [("date to MJD", "src/date2mjd_nf.c date2mjd_nf"), ("MJD to date", "src/mjd2date.c mjd2date, mjd2datef")],
 ["library results", "mjd and epoch_UTC in both programs' JSON"])

prop("C15", "Sidereal times equal the IAU 1982 value for every instant and longitude",
 "For every instant from 1900 to 2105 the reported Greenwich mean sidereal time is the IAU 1982 value in [0, 24] hours and the local one is that plus the east longitude, also in [0, 24] hours. The sidereal angle that rotates the observer, the one used by the deep-space model, the one reported by sat_skymap and the zenith right ascension computed from the library's independent formula all agree within fifteen milliseconds of time for 1957-2056 (sixty outside).",
 ["inputs"], "all instants 1900-2105 and longitudes -360..360",
 TESTS + "No test computes a sidereal time; sign and wrap errors appear only for some dates and longitudes.",
 ["src/lmst_hr.c", "src/observe.c", "src/zenith_site_ra.c", SM], [("sidereal time formulas", "src/lmst_hr.c lmst_hr; src/observe.c ThetaG; src/zenith_site_ra.c ut2gmst")],
 ["gmst and lmst in sat_skymap's JSON, library results"])

prop("C16", "Sun position and horizontal coordinates are right for every place and time",
 "The reported Sun right ascension and declination agree with the Astronomical Almanac low-precision Sun within 0.02 degree for 1950-2050, (0.03 degree for 1900-2100), and its sub-solar longitude, in [-180, 180], and separation from the region centre follow from them. The altitude, azimuth (from north through east, in [0, 360)) and parallactic angle reported for the region centre and the Sun satisfy the spherical triangle pole-zenith-object for every declination, hour angle and latitude, including objects on the meridian, observers at the poles and objects whose declination equals the latitude.",
 ["inputs"], "all instants 1950-2050, all observers, all region centres",
 TESTS + "No test computes these; the special branches are reached only by particular geometry.",
 ["src/lpsun_radec.c", "src/dechalat2alt.c", SM], [("Sun", "src/lpsun_radec.c lpsun_radec"), ("horizontal coordinates", "src/dechalat2alt.c dechalat2alt")],
 ["sun and region objects in sat_skymap's JSON, library results"])

prop("C17", "A satellite is flagged sunlit exactly when the Earth does not block the Sun",
 "The sunlit flag of each satellite is 0 exactly when the straight line from the satellite's position at the requested time to the Sun meets the spherical Earth between them, and 1 otherwise; satellites on the day side are always sunlit. The flag does not depend on the observer, on the second-epoch interval or on which search selected the satellite.",
 ["inputs", "configurations"], "all satellites, times, observers, second-epoch intervals (grazing geometry within a few km of the shadow's edge excepted)",
 TESTS + "No test evaluates illumination.",
 [SM, SV], [("line-sphere intersection", SM + " intersect_satsun_sphere; " + SV + " intersect_satsun_sphere")], ["sunlit field and n_sunlit_sats in sat_skymap's JSON"])

prop("C18", "Second-epoch position, speed and motion angle describe the same apparent track",
 "The end position of each satellite is its apparent J2000 direction seen by the observer delta-time seconds after the requested time. The reported speed is the great-circle distance between the two directions divided by the elapsed time, in arcminutes per second, and the position angle is the direction of that motion measured from north through east in [0, 360) degrees, also when the track crosses RA 0 in either direction.",
 ["inputs"], "all satellites, observers, times and second-epoch intervals from 1 second to hours",
 TESTS + "No test computes a motion; wrap errors appear only for tracks crossing RA 0.",
 [SM], [("second epoch, speed and position angle", SM + " main")], ["RA_end, Dec_end, PA, Speed in sat_skymap's JSON"])

prop("C19", "Every direction is assigned to the HEALPix pixel that contains it",
 "For every direction on the sphere and every valid resolution, the angle- and vector-to-pixel functions of both ordering schemes return the one pixel whose area contains the direction, also at the poles, on face boundaries, for longitudes outside [0, 360) and for points far from pixel centres, and the 32-bit and 64-bit functions agree. The pixel identifier printed for a satellite is the order-8 nested pixel that contains its printed J2000 position.",
 ["inputs"], "all directions, nside 1..8192 (32-bit) and 1..2^29 (64-bit), both schemes",
 TESTS + "They only map pixel centres back to themselves, so any error away from centres is invisible to them.",
 ["HealpixC/chealpix.c", SM], [("angle to pixel", "HealpixC/chealpix.c ang2pix_*_z_phi, ang2pix_*64_z_phi, vec2pix_*"), ("printed pixel", SM + " main")],
 ["return values of the library, HPXID_8 in sat_skymap's JSON"])

prop("C20", "HEALPix numbering schemes are consistent bijections with a nested hierarchy",
 "At every valid resolution, ring-to-nested and nested-to-ring conversions are inverse bijections of the pixel numbers, both schemes give the same pixel the same centre, ring numbers increase from north to south and then eastward, and the nested children of pixel p at twice the resolution are 4p to 4p+3. The pixel-count, resolution-from-count, angle-vector and pixel-vector functions are mutually consistent, and the 64-bit functions agree with the 32-bit ones where both apply.",
 ["inputs"], "all pixels of all power-of-two resolutions up to 8192 (32-bit) and 2^29 (64-bit)",
 TESTS + "Each round trip is tested on its own with the library's own inverse, which two compensating errors pass, and the ordering relations are not tested.",
 ["HealpixC/chealpix.c"], [("index conversions", "HealpixC/chealpix.c xyf2nest, nest2xyf, xyf2ring, ring2xyf and 64-bit versions")], ["return values of the library"])

prop("C21", "HEALPix maps survive a round trip through FITS files",
 "A map of any valid resolution and either ordering written to a FITS file is read back with bit-identical pixel values, the same resolution, ordering and coordinate system, and the size query reports the same resolution and ordering. Infinite, denormal and negative zero values are preserved as well, and an existing file is replaced only when asked for by the FITS library's overwrite prefix.",
 ["inputs", "configurations"], "all nside up to 256, both orderings, all coordinate-system letters, arbitrary float values",
 TESTS + "One small constant pattern at one resolution is written and read.",
 ["HealpixC/chealpix.c"], [("FITS input and output", "HealpixC/chealpix.c write_healpix_map, read_healpix_map, get_fits_size")], ["values and header fields read back"])

prop("C22", "Visibility search reports the first sunlit interval within the zenith distance",
 "sat_visibility samples the requested interval at the requested step and reports as start the first sample at which the satellite is both sunlit and within the given distance of the zenith, and as end the first later sample at which it is no longer so (or the last sample of the interval); if there is no such start it reports no satellite. The reported maximum is the sunlit sample of that interval with the smallest zenith distance. With the night option, sampling begins at the first one-minute step at which the Sun is below the horizon; with an altitude range the request is refused, and no interval is reported, as soon as a sample finds the satellite's altitude outside that range.",
 ["inputs", "configurations"], "all satellites, sites, intervals, steps, radii and altitude ranges (samples within rounding of a limit excepted)",
 TESTS + "No test runs sat_visibility.",
 [SV], [("sampling loop", SV + " main")], ["sat_start, sat_end, sat_max, n_sats_found in sat_visibility's JSON"])

prop("C23", "Each visibility record describes the instant it is dated with",
 "In every start, end, middle and maximum record of sat_visibility, the MJD and the calendar date name the same instant, and the satellite's J2000 position, horizontal coordinates, distance, zenith distance, position angle and speed, its geodetic sub-point and the Sun's data are those of that instant for that site. The reported duration is the end minus the start time in minutes and the middle record is half-way between them.",
 ["inputs"], "all satellites, sites, intervals and steps with at least one visible sample",
 TESTS + "No test runs sat_visibility.",
 [SV], [("record assembly", SV + " main, add_satdata_json, get_sat_PA_and_speed")], ["records in sat_visibility's JSON"])

prop("C24", "Equivalent command lines give the same answer and the report echoes the request",
 "Writing options in any order, with or without a space before their value, with the element file first or last, with a calendar date or the equal MJD, or naming a file directly or through a one-row list gives the same satellites and values, and the documented precedence holds: an explicit directory beats the default-directory switch, and a calendar date beats an MJD, whichever comes first. The report echoes the effective file name, location, region, date, interval and limits, and the full command as given.",
 ["configurations", "inputs"], "all permutations and spellings of the options of both programs",
 TESTS + "No test runs either program; the number of spellings and orders is combinatorial.",
 [SM, SV], [("option parsing", SM + " main; " + SV + " main")], ["JSON of related runs"])

prop("C25", "Unusable input is rejected with an error, never answered with invented data",
 "When an argument cannot be used (unknown option, missing or non-numeric or non-finite value, impossible date, latitude, declination or right ascension out of range, zero time step), or a file that is needed cannot be opened or is empty, or elements cannot be decoded, both programs report a non-empty error message with a non-zero status and exit code, and list no satellite that depends on the unusable input. Valid input always gives status 0 and an empty error message, except that a requested satellite that is not in the catalogue is reported in the message.",
 ["inputs", "configurations"], "all options of both programs with every kind of unusable value",
 TESTS + "No test runs either program.",
 [SM, SV, "src/date2mjd_nf.c"], [("option parsing and error exits", SM + " main; " + SV + " main")], ["status, errmsg, exit code"])

prop("C26", "A satellite's result does not depend on what was computed before it",
 "The data reported for a satellite depend only on its own elements, the observer and the time: they are the same whether it is alone in the catalogue or anywhere among others, and repeated runs give identical output. In the library, propagating one prepared element set to a sequence of times in any order, interleaved with other sets, gives positions that agree with a fresh propagation to each time within the documented update granularity of the deep-space terms, and exactly for near-Earth sets.",
 ["histories", "inputs"], "all sequences of propagations over any mix of element sets, and all catalogue arrangements",
 TESTS + "History dependence shows only over sequences of calls.",
 ["src/sdp4.c", "src/deep.c", SM], [("cached resonance integration and lunar-solar terms", "src/deep.c Deep_dpsec, Deep_dpper"), ("cached Moon and Sun positions", "src/sdp4.c cached_lunar_solar_position")],
 ["library results over call sequences, JSON of related runs"],
 state=[("integrator state", "time and values of the last resonance integration", "src/deep.c atime, xli, xni, savtsn")])

prop("C27", "All five propagators agree with their reference and with their own velocity",
 "The SGP, SGP4, SGP8, SDP4 and SDP8 functions reproduce the published Spacetrack Report 3 positions, and for every element set each function's velocity is the time derivative of its position within the theory's accuracy. For the same elements near the epoch the simplified models agree with each other within the differences of the theories, at every eccentricity and inclination in their domain.",
 ["inputs"], "all element sets in each model's domain, times within a day of epoch",
 TESTS + "No test calls a propagator.",
 ["src/sgp.c", "src/sgp4.c", "src/sgp8.c", "src/sdp4.c", "src/sdp8.c"], [("propagators", "src/sgp.c SGP; src/sgp8.c SGP8; src/sdp8.c SDP8; src/sgp4.c SGP4; src/sdp4.c SDP4")],
 ["position and velocity of each function"])

prop("C28", "Nutation, obliquity and apparent sidereal time match the IAU 1980 theory",
 "For every instant from 1900 to 2100 the nutation in longitude and obliquity, the mean and true obliquity and the equation of the equinoxes agree with the IAU 1980 nutation series within 0.005 arcsecond, and the apparent sidereal times and the apparent zenith right ascension equal the mean ones plus the equation of the equinoxes, in their documented ranges. Results do not depend on which instants were asked for before, beyond the stated reuse interval of a hundredth of a day.",
 ["inputs", "histories"], "all instants 1900-2100, all longitudes, all call orders",
 TESTS + "No test calls them.",
 ["src/earthtilt.c", "src/zenith_site_ra.c"], [("nutation series", "src/earthtilt.c calcnutation, earthtilt"), ("apparent sidereal time", "src/zenith_site_ra.c ut2gast, ut2last, zenith_site_ra_last")],
 ["library results"])

prop("C29", "mjdnow prints the current Modified Julian Date",
 "The date printed by mjdnow is the Modified Julian Date of the system clock at the moment it runs, within a second, for every setting of the clock from 1970 on.",
 ["inputs"], "all values of the system clock",
 TESTS + "No test runs it.",
 ["src/mjdnow.c"], [("conversion of the system time", "src/mjdnow.c main")], ["stdout of mjdnow"])

prop("C30", "The satellite-count script counts every file and every distinct satellite",
 "For any set of element files in the given directory, the count script reports for each catalogue file its name and its number of three-line entries, the number of distinct catalogue numbers over the satellite files, and the total including debris, and writes them as one syntactically valid PHP array.",
 ["inputs"], "all sets of files and contents in the given directory",
 TESTS + "No test runs the scripts.",
 ["scripts/tle_satcount.sh"], [("counting pipeline", "scripts/tle_satcount.sh")], ["log, number list and PHP files it writes"])

prop("C31", "The deep-space implementation settings do what they are documented to do",
 "With the library's Dundee-compliance setting on, SDP4 gives the position of the published theory to better than a metre at every time (for whatever maximum integration step is set), and the results of SDP4 and SDP8 for a time are identical whatever times were asked for before. Raising the resonance-integration order above its default of 2 (to at most 10) or shortening the maximum step makes resonant satellites approach the exact solution of the theory's resonance equations, within 20 days of the epoch to metres for one-day and tens of metres for half-day resonance at steps of 10 to 60 minutes. Satellites without resonance, near-Earth sets and state vectors give bit-identical fresh results under all these settings, and restoring the defaults (order 2, step 720 minutes, compliance off) restores the default results.",
 ["inputs", "histories"], "all deep-space element sets, settings within their ranges, and sequences of times",
 TESTS + "No test touches these settings; their effect shows only in the resonant integration and over sequences of calls.",
 ["src/deep.c", "src/sdp4.c", "src/sdp8.c", "src/norad.h"], [("settings", "src/deep.c sxpx_set_implementation_param, sxpx_set_dpsec_integration_step"), ("integration", "src/deep.c compute_dpsec_derivs, Deep_dpsec"), ("periodic terms", "src/deep.c Deep_dpper")],
 ["results of SDP4 and SDP8 under the settings"],
 state=[("integrator state", "time and values of the last resonance integration", "src/deep.c atime, xli, xni, savtsn")])

prop("C32", "The retrieval script never loses or damages the stored element files",
 "For any behaviour of the servers and any interruption, each collection file of the given directory is, after a run of the retrieval script, either the file last received completely with status 200 (supplemental GPS and Iridium sets under gps-ops and iridium-NEXT, taking precedence over the main ones) or unchanged, and no other file of the user is touched, also when the directory is relative, contains blanks or does not exist. After an uninterrupted run the special-satellites file holds exactly the entries of the named spacecraft from the science, stations and active files plus, for each file of daily state vectors present, the one set of the current day (or the next), the log names the outcome of every collection, and the satellites of that same directory have been counted. The shipped lists of files name only files that are retrieved, without the debris files in the no-debris list.",
 ["inputs", "fault_sequences", "crash_points", "histories"], "all server answers, points of interruption, earlier contents of the directory, and dates",
 TESTS + "No test runs the scripts; the failures need broken transfers and interrupted runs.",
 ["scripts/tle_retrieve.sh", "ALL_merged.lis", "ALL_merged_nodeb.lis"], [("download and replacement", "scripts/tle_retrieve.sh download loops"), ("special satellites", "scripts/tle_retrieve.sh awk selections")],
 ["files of the directory, special.txt, log and satellite count after each run"])

prop("C33", "Every report has the documented layout",
 "Every report of both programs, whatever the request, the element files and the outcome, is one JSON object whose members are exactly those documented for that request and outcome, each once and in the documented order: geodetic locations and their description exactly when an option asks for them, the list of satellites and its description exactly when there are entries to list, start, end, middle and highest instants of a visible pass or the Sun otherwise, and status, message and counters always. Each value has its documented type and number of decimals and lies in its documented range (right ascensions and azimuths in [0, 360], declinations and altitudes in [-90, 90], geodetic longitudes in [-180, 180], pixels in [0, 786431], flags 0 or 1), also when the run ends with an error after the report has begun.",
 ["inputs"], "all command lines, element files and outcomes",
 TESTS + "They check that a few reports parse and hold certain members.",
 ["src/sat_skymap.c", "src/sat_visibility.c", "src/const_def.h"], [("parts of the report", "src/sat_skymap.c main, add_*_json; src/sat_visibility.c main"), ("printed formats", "src/sat_skymap.c, src/sat_visibility.c printf formats")],
 ["members, order, types, decimals and ranges of the JSON on stdout"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
import re
for p in P:
    n = len(re.findall(r"[.!?](?:\s|$)", p["statement"]))
    if n > 3: print("sentences?", p["id"], n)
print(len(P), "properties")
