"""Writes DESIGN.md from tools/design_head.md, the table below, seeded/*/meta.json and tools/design_tail.md."""
import json, glob, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
props = {}
for l in open("properties.jsonl"):
    p = json.loads(l); props[p["id"]] = p["title"]
seeds = {}
for d in sorted(glob.glob("seeded/*/")):
    m = json.load(open(d + "meta.json")); seeds.setdefault(m["property"], []).append((os.path.basename(d[:-1]), m["needs"]))
# id: (monitor, oracle and tolerance, size of a quick run, why tests cannot settle it)
D = {
"C01": ("every run of both programs under `vk/hostile.py` (command lines, names, element files, lists, directories; success and every error path) is parsed by a strict JSON reader; counts recomputed from the listed objects; each -I request repeated without it must report the same counts", "exact: JSON grammar without duplicate keys or non-finite numbers, byte-exact echo of the inputs", "500-5000 runs", "report damage needs odd names, late errors or limits"),
"C02": ("programs and library rebuilt four ways (gcc ASan+UBSan, clang ASan+UBSan, clang MSan, libFuzzer) and run on hostile command lines, files of every size and damage, catalogues of thousands of sets, library calls for times up to a million days; coverage-guided fuzzing of parser, propagators and calendar; canary programs prove before each run that each sanitizer build reports", "sanitizer report, fatal signal or time limit", "1500 runs, 90 s; thorough: longer fuzzing, within 15 minutes", "an overflow by one is silent without instrumentation"),
"C03": ("sky reports against the reference pipeline (own SGP4/SDP4, observer, precession); centres on satellites, at RA 0, at the poles, by default at the zenith; second-epoch entries; the library's separation function over antipodes, twins, poles", "inside / outside / separation; rim cases inside the numerical tolerance are not judged", "17,000 (search, satellite) pairs", "wrap and pole errors need special centres"),
"C04": ("-E searches from observers on, beside and far from sub-points, both hemispheres and meridians", "as C03 with an own geodetic conversion", "5,000 pairs", "as C03"),
"C05": ("catalogues whose files, duplicates and list rows are generated with a ledger; the list printed is compared with the ledger replayed: exactly once, in order, capped", "exact", "catalogues up to 13,000 sets (thorough 60,000)", "needs long or repeated catalogues over several files"),
"C06": ("requests by number, designator and name to both programs against the ledger of the generated catalogue", "exact", "320 requests", "needs related names, pieces and Alpha-5 numbers"),
"C07": ("each search run plainly and with filters: the filtered trace must be the plain trace with the failing entries removed", "exact, all values identical", "900 pairs of runs", "relation over runs"),
"C08": ("library trajectories against an independent SGP4 (`vk/sgp4ref.py`, itself tied to the Spacetrack Report 3 numbers) with perigees in every branch; decayed sets: error against error; the program must list the others", "1 m and 1 mm/s, plus the growth of rounding in decaying orbits", "2,500 (set, time)", "branches depend on perigee, eccentricity, drag"),
"C09": ("the same for SDP4; the model chosen against the recovered period, dense around 225 minutes; types that force a model", "tens of metres, growing with time for resonant orbits", "3,000 (set, time)", "resonance branches depend on three elements"),
"C10": ("state-vector trajectories against an own integration (own Moon and Sun series), the published daily vectors of scripts/*.txt chained to each other, both programs", "difference between one-day and quarter-day steps, with a floor", "1,500 (set, time)", "continuous inputs, both directions of time"),
"C11": ("decoded values against those the generator wrote; every wrong checksum digit injected; foreign lines", "one unit of the column in floating point", "8,000 pairs", "every column over its full range"),
"C12": ("reported direction and distance against the reference, polar directions included", "printed precision plus the bound of first-order precession", "2,000 satellites", "continuous inputs"),
"C13": ("printed sub-point placed on the ellipsoid and turned back to the inertial position; both programs", "printed precision", "2,000 records", "continuous inputs"),
"C14": ("library conversions and program echoes against integer calendar arithmetic, years 0-9999, both ways", "1e-5 d, 1 s, 1 ms", "5,000 conversions", "errors at calendar boundaries only"),
"C15": ("the sidereal-time paths of the code against the IAU 1982 expression and each other", "15 ms of time", "4,000 instants", "wrap errors last minutes a day"),
"C16": ("Sun against an own solar theory; altitude, azimuth and parallactic angle against vector algebra on generated triangles", "0.02 deg; 1e-6 deg", "46,000 evaluations", "singular triangles"),
"C17": ("flags against an own segment-sphere test, satellites placed just inside and outside the shadow's edge; relations over observers, intervals and searches", "exact outside the numerical band", "7,000 flags", "only satellites at the edge tell"),
"C18": ("second-epoch direction, speed and angle; tracks over RA 0, next to the poles, within a degree of north", "printed precision; angles within half a turn's ambiguity not judged", "1,900 tracks", "wrap errors need such tracks"),
"C19": ("the pixel returned must contain the direction in an own model of the tessellation (`vk/healref.py`), 32 and 64 bits, both schemes; printed identifiers", "1e-9 of a pixel side", "20,000 directions", "errors at faces' edges, wraps and scales"),
"C20": ("all pixels of small resolutions as bijections, samples up to 2^29 against an exact integer model; counts, vectors", "exact", "25,000 pixels", "64-bit resolutions"),
"C21": ("real FITS files written, sized and read back, the file decoded independently; overwriting", "bit-exact", "150 file operations", "special values"),
"C22": ("the interval reported against a simulation of every sample on the reference model", "samples within the tolerance of a limit are left open", "240 requests (thorough 4,000)", "depends on the whole sequence of samples"),
"C23": ("every record of those answers against the reference at its own date", "printed precision", "as C22", "stale data of a neighbouring sample"),
"C24": ("equivalent command lines compared run with run; echo against the request", "exact", "5,000 comparisons", "combinatorial"),
"C25": ("fault injection on each argument, file and element set; valid extremes must be accepted", "exact on status, message, exit code and list", "2,500 runs", "combinatorial"),
"C26": ("each satellite alone against the same in catalogues, orders and lists; library call sequences over interleaved sets against fresh propagation", "exact for near-Earth sets and state vectors; update granularity for deep-space ones", "6,000 entries", "history dependent"),
"C27": ("SGP, SGP8 and SDP8 against independent implementations, published positions, five-point derivatives, cross-model agreement", "bounds of the theories", "2,000 (set, time, model)", "branches depend on elements"),
"C28": ("nutation, obliquity, apparent time against an own IAU 1980 series and published examples; sequences around the reuse interval", "0.005 arcsec", "2,500 calls", "history dependent and continuous"),
"C29": ("mjdnow under an LD_PRELOAD clock and under the real one", "1 s", "60 runs", "future clocks"),
"C30": ("the script run on generated directories (its /tmp paths redirected into scratch), outputs against the ledger", "exact", "40 directories", "odd numbers, names and leftovers"),
"C31": ("sequences of calls under changed settings: bit-exact against fresh propagation (compliance on) and restored defaults; reference SDP4 with the same step; 5-minute-step solution for higher orders", "0 / 1 m / per order and step", "110 groups of sequences, 120 resonant sets x 13 settings", "sequences of times that leave integrator state behind; orders and steps no default run uses"),
"C32": ("the real curl led to a local server that answers with complete, redirected, chunked, broken, dropped and stalled transfers and error pages; runs killed at random moments and repeated; every file, special.txt, log and count against the server's ledger", "exact", "40 directories, 60 runs, 3,000 collections", "faults, interruptions and leftovers"),
"C33": ("a grammar of the reports (members in order, types, decimals, ranges, parts by request and outcome) over random combinations of options, hostile files, names and command lines", "exact", "2,800 reports, 3 million values", "parts and values depend on options, outcome and data"),
}
def rd(f): return open("tools/" + f).read() if os.path.exists("tools/" + f) else ""
out = [rd("design_head.md"), "\n## Per property\n"]
for i in sorted(D):
    m, o, b, w = D[i]
    out.append("### %s %s\n\nMonitor: %s.\nOracle: %s. Size (quick): %s. Beyond tests: %s.\nPlanted bugs, all caught: %s.\n" % (i, props[i], m, o, b, w, "; ".join("`%s` (%s)" % x for x in seeds.get(i, [])) or "none of its own (mutation runs and reverted fixes only)"))
out.append(rd("design_tail.md"))
open("DESIGN.md", "w").write("\n".join(out))
