"""The deciding method and the note on its strength, per property."""
RM = "online reference-model monitor: "
MM = "metamorphic trace monitor over related runs: "
TECH = {
"C01": ("strict JSON and conservation monitor on the output of every run under hostile arguments, names, files and error paths", "oracle: strict JSON parser (no duplicate keys, no non-finite numbers), counts recomputed from the listed objects, byte-exact echo of the inputs"),
"C02": ("AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer on the real programs and library under generated and mutated inputs, with time limits", "oracle: sanitizer reports, signals and time limits; command lines, files, element lines and library calls"),
"C03": (RM + "listed satellites and separations against an independent SGP4/SDP4, observer, precession and separation model", "satellites within the numerical tolerance of the circle's edge are not judged"),
"C04": (RM + "listed satellites against independently computed sub-points", "satellites within the numerical tolerance of the circle's edge are not judged"),
"C05": ("offline conservation / exactly-once / order checker over the run's list against the generated files", "exact oracle; catalogues up to 13000 (quick) objects"),
"C06": ("exactly-once selection checker over runs of both programs against the generated catalogue", "exact oracle on names, designators and numbers"),
"C07": (MM + "filtered against unfiltered runs of the same catalogue", "exact oracle"),
"C08": (RM + "library and program positions against an independent implementation of the published SGP4, plus Spacetrack Report 3 positions", "tolerance 1 m and 1 mm/s; error against error"),
"C09": (RM + "library and program positions against an independent implementation of the published SDP4, plus Spacetrack Report 3 positions", "tolerance tens of metres; orbits at the selection threshold within rounding are not judged"),
"C10": (RM + "library and program positions against an independent Earth-Moon-Sun integration, and the repository's own daily state vectors against each other", "tolerance of a one-day RK4 step"),
"C11": (RM + "decoded values against the values the generator wrote, checksum faults injected", "exact oracle"),
"C12": (RM + "reported direction and distance against the independent observer/satellite/precession model", "first-order precession accuracy"),
"C13": (RM + "reported sub-points mapped back to geocentric positions", "printed precision"),
"C14": (RM + "calendar conversions against Python's proleptic Gregorian calendar", "exact to the stated resolution"),
"C15": (RM + "sidereal times against the IAU 1982 expression and against each other", "a few milliseconds of time"),
"C16": (RM + "Sun and horizontal coordinates against an independent solar theory and vector algebra", "0.02 degree for the Sun, 1e-6 degree otherwise"),
"C17": (RM + "sunlit flags against an independent line-sphere test, and across related runs", "satellites within the numerical tolerance of the shadow's edge are not judged"),
"C18": (RM + "second epoch, speed and position angle against the reference and against the printed positions", "printed precision"),
"C19": (RM + "pixel functions against an independent floating-point implementation of the HEALPix tessellation and the pixel's own neighbourhood", "directions within 1e-9 of a pixel edge are judged tolerantly"),
"C20": ("bijection and hierarchy monitor over exhaustive small and sampled large resolutions", "exact oracle"),
"C21": ("round-trip monitor through real FITS files, bit-exact", "exact oracle"),
"C22": (RM + "reported interval against a simulation of the sampling on the reference model", "samples within the numerical tolerance of a limit are not judged"),
"C23": (RM + "every record against the reference at its own date", "printed precision"),
"C24": (MM + "permuted and equivalent command lines, and echo checks", "exact oracle"),
"C25": ("fault injection: every option with unusable values, broken files and element sets; monitor on status, message and exit code", "exact oracle"),
"C26": (MM + "the same satellite alone, in other catalogues and after other computations; library call sequences against fresh propagation", "exact for near-Earth sets, update granularity for deep-space ones"),
"C27": (RM + "Spacetrack Report 3 positions, numerical differentiation of each propagator and cross-model agreement", "bounds of the theories"),
"C28": (RM + "nutation, obliquity and sidereal time against an independent IAU 1980 implementation and published values", "0.005 arcsecond"),
"C29": ("clock monitor: the printed date against the clock before and after, and against injected clock settings", "one second"),
"C31": (RM + "sequences of propagations under changed settings against an independent implementation of the published theory, an exact integration of its resonance equations and fresh propagations", "history and defaults bit for bit; theory 1 m; integration accuracy per order and step"),
"C30": ("offline conservation checker over the script's outputs against the generated files", "exact oracle; the script's fixed output paths are redirected to a scratch directory"),
"C32": ("fault injection at the server and by killing the script: the real curl led to a local server that cuts, redirects, refuses and stalls; offline checker of every file, log and count against the server's ledger", "exact oracle; the script's fixed paths are redirected to a scratch directory, it runs as an unprivileged user"),
"C33": ("online checker of a grammar of the reports: members, order, types, decimals, ranges, and parts required by request and outcome, over random valid and hostile runs", "exact oracle"),
}
NA = {}
