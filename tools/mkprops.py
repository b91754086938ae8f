#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

COLD = "src/cxx/cold.c"; SCCD = "src/cxx/s_ccd.c"; MISC = "src/cxx/misc.c"; UTIL = "src/cxx/utilities.c"
PYX = "src/python/pycold/_colds_cython.pyx"; COLDS = "src/python/pycold/colds.py"
UT = "src/python/pycold/utils.py"; OB = "src/python/pycold/ob_analyst.py"; CL = "src/python/pycold/pyclassifier.py"
TP = "src/python/pycold/imagetool/tile_processing.py"; EX = "src/python/pycold/imagetool/export_change_map.py"
ARD = "src/python/pycold/imagetool/prepare_ard.py"; VAL = "src/python/pycold/_param_validation.py"

p("C01", "Per-pixel native code stays memory-safe on every accepted pixel",
  "Whatever accepted time series, parameters, break list or saved monitoring state a caller passes, change detection, object-based reconstruction and the incremental monitor never read or write outside an object, never read a value nobody wrote, never execute undefined arithmetic or conversions that corrupt a result, and never free memory they do not own. The process survives and returns a result or raises a Python exception.",
  ["inputs", "histories"], "every per-pixel series (length 0 to several thousand observations, any QA/fill mixture, any date spacing), every accepted parameter combination, every detect/update history",
  "The two native tests run one good 550-observation pixel in an uninstrumented build; out-of-bounds and uninitialised reads there change no visible number.",
  [COLD, SCCD, MISC, UTIL, "src/cxx/KFAS.c", "src/cxx/multirobust.c", "src/cxx/2d_array.c", PYX],
  [("buffers sized from the number of valid observations; segment arrays sized from an upper bound", COLD), ("queue bounded by the monitor's observation capacity", SCCD), ("array arguments validated before the native call", COLDS)],
  [("segment array", "output segments of a pixel, owned by the Python layer", PYX), ("observation queue", "observations waiting in the monitor state", SCCD)],
  ["sanitizer report", "memcheck report", "process exit"])

p("C02", "Segment records equal the published continuous-change algorithm",
  "For every pixel the segment records returned by continuous change detection (start, end and break dates, harmonic coefficients, fit error, observation count, category, change probability, change magnitudes, position) are those of the COLD algorithm: usable clear observations, robust cloud screening at initialisation, stability test, look-back, per-band regularised harmonic fits, and a break exactly when the whole window of consecutive observations exceeds the change threshold in magnitude and agrees in direction. Snow-dominated and cloud-dominated pixels get the documented fallback fit.",
  ["inputs", "configurations"], "every accepted pixel series and every accepted probability, window length, gap limit, sensor collection, position and regularisation setting",
  "One pixel with one parameter set is compared to a stored break file; thresholds, fallbacks, short series, gaps, long snow series, other window lengths and other settings are never decided.",
  [COLD, MISC, UTIL, "src/cxx/multirobust.c", "src/cxx/GLMnet.f", PYX, COLDS],
  [("model initialisation, monitoring and end-of-series handling", COLD), ("regularised harmonic fit and RMSE", MISC), ("robust multi-temporal screening", MISC)],
  [("segment record", "one fitted segment", "src/cxx/output.h")], ["records returned by the detection call"])

p("C03", "Change-magnitude time slices equal the algorithm's per-date evidence",
  "When change-magnitude output is requested, each time slot holds the strongest direction-weighted minimum change magnitude that any evaluated observation window of that slot produced, together with that window's date, slots without evidence hold the fill value, and requesting this output never alters the segment records. The number, spacing and origin of slots follow the requested start date, number and interval; a layout that does not cover the observations is rejected.",
  ["inputs", "configurations"], "every pixel series, start date, interval, window length and threshold setting",
  "No stable test inspects this output at the per-pixel level; the stored maps cover one tile and one interval.",
  [COLD, MISC, PYX, COLDS], [("window evidence folded into slot maxima", COLD), ("slot array allocation and fill", PYX)],
  [("slot array", "per-interval maximum and its date", PYX)], ["records and slot arrays returned by the detection call"])

p("C04", "Object-based reconstruction splits a series exactly at the given breaks",
  "Given a list of break dates, reconstruction returns one segment per interval between consecutive accepted breaks holding enough usable observations, in time order and disjoint. A break is accepted unless it lies less than a year after the break accepted before it, in whatever order the list is given, and takes effect at the usable observation it designates; an interval with too few observations is passed over; the last segment has no break. A segment's coefficients, error, observation count and dates are those of the same regularised fit on exactly the usable observations of that interval, and whose magnitudes are the medians of the residuals after the break. Usable-observation selection is the same as for ordinary detection.",
  ["inputs", "configurations"], "every pixel series and every list of break dates (none, many, outside the series, adjacent, coinciding with observations)",
  "One pixel with one break list is compared to a stored result.",
  [COLD, MISC, PYX, COLDS], [("interval walk over the given breaks", COLD)], [], ["records returned by the reconstruction call"])

p("C05", "Retrospective stochastic detection follows its state-space algorithm",
  "Stochastic continuous change detection over a whole series returns the segments, per-band means and amplitudes of season and trend, breaks with magnitudes and probabilities, and remaining monitoring state prescribed by the S-CCD algorithm (initialisation with outlier screening, Kalman filtering of the structural model, consecutive-anomaly test, false-change removal, restart after a break, end-of-series handling). Segments never overlap, a break is reported only where the whole consecutive window is anomalous, the pinpoint output lists each date's evidence, and snow-dominated or short series end in the documented monitoring modes. (Dates 1982 to 2071, 16-bit reflectances.)",
  ["inputs", "configurations"], "every accepted pixel series, threshold, window length and output option",
  "The S-CCD tests do not pass in this environment; no stable test runs the stochastic detector at all.",
  [SCCD, "src/cxx/KFAS.c", MISC, PYX, COLDS], [("initialisation, filtering and monitoring steps", SCCD), ("state-space update", "src/cxx/KFAS.c")],
  [("monitoring state", "mode, last segment, queued observations, last fit", "src/cxx/s_ccd.h")], ["pack returned by the stochastic detection call"])

p("C06", "Incremental monitoring loses no observation and continues its history",
  "Feeding a pixel's observations to the monitor in any split (a retrospective start followed by any sequence of updates) keeps every usable new observation either absorbed by the current segment or queued, never twice and never dropped before queue capacity, never rewrites an already closed segment, moves only between documented monitoring modes, and leaves the caller's saved state untouched. Updates with no usable observation leave the state unchanged. A full queue keeps the newest observations. The state after an update is the one the algorithm prescribes for the saved state and the new observations.",
  ["histories", "inputs"], "every split of every series into a start and successive updates, including masked-only and one-observation updates",
  "No stable test performs an update; splits are a space of histories.",
  [SCCD, PYX, COLDS], [("mode transitions and observation queue", SCCD), ("copy-in/copy-out of saved state", PYX)],
  [("monitoring mode", "void / monitor / queue / snow variants", "src/cxx/s_ccd.h"), ("observation queue", "usable observations not yet absorbed", "src/cxx/s_ccd.h")], ["pack before and after each update"])

p("C07", "Returned segments are always well formed",
  "For every accepted input, each detector returns at least one finite-valued record or an explicit error, records are ordered in time and disjoint, start <= end, break dates are either absent or between the end of their segment and the start of the next, observation counts never exceed the usable observations in the segment's span, probabilities lie in 0..100, fit errors are non-negative, categories come from the documented set, a confirmed break has probability 100, and every date lies within the input's dates. The position given by the caller is echoed in every record.",
  ["inputs", "configurations"], "all accepted pixel series and parameter combinations",
  "Tests look at selected fields of one pixel.",
  [COLD, SCCD, "src/cxx/output.h", PYX, COLDS], [("record assembly at break, end of series and fallback", COLD)], [], ["records returned by every detector"])

p("C08", "Unusable observations never influence a result",
  "Cloud, shadow and filled observations, observations with any out-of-range band, and later duplicates of an already present date have no influence on detected segments, reconstruction or monitoring state beyond their declared role in the clear/snow statistics: changing their band values, or adding and removing them where those statistics keep their meaning, leaves every output bit unchanged.",
  ["inputs"], "all series, all positions and values of unusable observations",
  "No test perturbs a masked value.",
  [COLD, SCCD, MISC, UTIL], [("range test and QA test before use; first of duplicate dates kept", MISC)], [], ["output pairs of related inputs"])

p("C09", "Per-pixel results are a pure function of the arguments",
  "The result for a pixel depends only on the argument values: not on what was processed before in the process, memory contents left behind, the memory layout or integer width of the arrays, thread or process used, or the call order, and calls never modify their argument arrays. Repeating a call gives identical bits.",
  ["histories", "schedules", "inputs"], "all call sequences, all threads/processes, all array layouts, all pixels",
  "Each test makes one call per process state.",
  [COLD, SCCD, MISC, PYX, COLDS], [("buffers allocated and initialised per call", COLD), ("array conversion before the native call", COLDS)], [], ["outputs and argument arrays before/after"])

p("C10", "Invalid arguments are rejected before any computation",
  "Every call with an argument outside its documented domain (wrong type, negative or excessive threshold or probability, window length out of range, mismatched array lengths, wrong dimensionality, undefined (NaN) numbers, unordered dates, empty input where one is required) raises a Python exception naming the problem and changes nothing; every call inside the domain is accepted and unspecified parameters take their documented defaults. Passing a default explicitly, by name or by position, gives the same result as omitting it.",
  ["inputs", "configurations"], "all argument combinations of the public per-pixel functions",
  "No stable test passes an invalid argument.",
  [COLDS, VAL, PYX], [("declarative parameter constraints", VAL), ("length validation", COLDS)], [], ["exceptions and return values of public calls"])

p("C11", "Saved monitoring state survives serialisation exactly",
  "Saving a monitoring result to its compact file form and loading it back yields a result with identical position, segments, fitting coefficients, monitoring mode, queued observations, noise levels and change metrics for every monitoring mode, and continuing monitoring from the loaded state gives the same outcome as continuing from the in-memory state. Many pixels written one after another to one file read back in order, and end of file is recognised.",
  ["inputs", "histories"], "all monitoring states reachable from any series, all file contents and orders",
  "No stable test serialises a monitoring state.",
  [UT, "src/python/pycold/common.py", COLDS], [("record-wise binary layout", UT)], [], ["loaded object versus saved object"])

p("C12", "Near-real-time disturbance dates follow the documented decision rule",
  "Identifying a disturbance from a monitoring result reports the date of the first observation of its run of consecutive anomalies at the end of the saved window, whatever the window's length, exactly when the result is in standard monitoring (or monitoring that also queues), the run reaches the requested length, the change magnitude is above and the angle below the requested limits, and the median change of the run is not greening; it reports none otherwise. The decision is monotone: tightening any criterion never turns a non-detection into a detection. The given monitoring result is not modified; the returned one differs only in that a reported disturbance moves standard monitoring to the mode that is not identified again, when so requested.",
  ["inputs", "configurations"], "all monitoring results and all decision parameters",
  "No stable test calls the identification.",
  [COLDS, "src/python/pycold/common.py"], [("mode, count, magnitude and angle tests", COLDS)], [], ["return value versus the tail window in the pack"])

p("C13", "Pixels, blocks and tiles map one-to-one",
  "For every tile geometry, including non-square tiles and grids, each tile pixel (rows and columns being multiples of the block counts) belongs to exactly one block and one in-block position, the id, column, row, block and date-index conversions agree with each other and invert each other, and assembling per-block or per-band products into a tile image puts each value at the row and column of the pixel it was computed for. A missing block is reported or filled, never replaced by another block's data.",
  ["configurations", "inputs"], "all tile sizes, block counts, cores and missing-block sets",
  "The test geometry is one square layout whose symmetric dimensions hide swapped axes.",
  [UT, TP, OB, CL, EX], [("index arithmetic helpers and block reshaping", UT), ("map assembly", OB)], [], ["assembled arrays versus per-pixel ground truth"])

p("C14", "Image stacking preserves every pixel, scale and quality flag",
  "Turning a downloaded scene into the per-block stack decodes each pixel's quality bits into the documented class with the documented precedence, applies the documented scale and offset of the sensor and collection to each band, keeps pixel positions, band order and acquisition date, clips to the requested area, and skips a scene only when its clear fraction is below the requested threshold. Re-running or interrupting never leaves a half-written or mislabelled scene accepted as complete.",
  ["inputs", "configurations", "crash_points"], "all quality-word values, sensors, collections, scene sizes, block layouts and clear fractions",
  "No stable test stacks a scene; the quality word is a 16-bit space with overlapping flags.",
  [ARD, UT], [("quality-bit decoding", ARD), ("scale/offset and block split", ARD)], [], ["written block stacks versus source rasters"])

p("C15", "Tile processing is independent of workers, restarts and failures",
  "Running a tile with any number of workers, in any worker order, or killed at any point and restarted gives the same per-pixel records and change maps as one uninterrupted worker: every pixel appears exactly once in the outputs of its block with its own results and position, unfinished blocks are recomputed, finished ones are kept, and a pixel that fails or has no data does not affect the others. Tile products equal the per-pixel function applied to the stacked observations.",
  ["schedules", "crash_points", "configurations", "fault_sequences"], "all worker counts and orders, all kill points, all pixels with errors, all date bounds and methods",
  "The tile script is not run by a stable test.",
  [TP, UT, OB], [("per-worker block partition, completion marks and barrier files", TP)], [("completion marks", "files stating that a block finished", TP)], ["files written by the tile processor"])

p("C16", "Classification features and labels match the segment in force",
  "For every year and pixel the classifier's features come from the segment in force at the documented date of that year (or its documented extension or fill), each feature value is the documented function of that segment's coefficients, the category assigned to a pixel is the classifier's answer for exactly that pixel's features, and assembled yearly maps place it at that pixel. Training uses labelled pixels only, sampled per category by the documented proportions and limits, with the features of exactly those pixels, and is reproducible.",
  ["inputs", "configurations"], "all segment configurations (gaps, changes inside the year, no segment), years, band and feature counts and block layouts",
  "Stable tests cover one block of stored records for a couple of years in a square layout.",
  [CL, UT], [("yearly segment lookup and feature construction", CL)], [], ["feature arrays, predicted maps"])

p("C17", "Object analysis merges, filters and dates changes as specified",
  "From change-magnitude and date maps, object analysis marks as change exactly the pixels belonging to an object (grown from significant seeds, strongest first, over neighbours whose magnitude and date are within the flood ratio and the date interval of the seed; connected super-pixels form one patch whose size counts) that satisfies its size and magnitude rule for its land-cover class, keeps the change date per pixel, and per-pixel reconstruction uses exactly the dates of the maps where that pixel was kept. Results do not depend on block layout and are inside the input map's valid pixels.",
  ["inputs", "configurations"], "all change maps, thematic maps, thresholds and layouts",
  "Stable tests compare one 1-block case.",
  [OB, "src/python/pycold/ob_parameters.yaml"], [("segmentation and per-object vote", OB)], [], ["change maps and dates returned"])

p("C18", "Exported change maps show each pixel's own change of the year",
  "The exported map of a year encodes for each pixel the type and day-of-year of the break that pixel's own segments report in that year under the documented type rule, and no value from another pixel, year or method; recent-disturbance, coefficient and first-year products likewise show that pixel's own segment in force. Raster shape, position and georeferencing match the tile for every geometry.",
  ["inputs", "configurations"], "all record collections, years, tile geometries and worker counts",
  "No stable test exports a map.",
  [EX], [("per-block map construction and merge", EX)], [], ["exported rasters versus records"])

p("C19", "Stacked observations are read completely and in date order",
  "Reading a block's stack returns every scene in the block's folder once, in chronological order, with each pixel's bands and quality at its own column, restricted to exactly the requested inclusive date bounds. Dates parsed from scene names are the acquisition dates for every supported naming, year and day.",
  ["inputs", "configurations"], "all sets of scene files, names, date bounds and block sizes",
  "The stable reading test covers a few files in one order.",
  [UT, TP, OB], [("name parsing, sorting and stacking", UT)], [], ["arrays returned by the readers"])

p("C20", "Processing pixels one after another uses bounded memory",
  "A process that detects, reconstructs, monitors, identifies or stores pixel after pixel keeps no memory and no open file of the pixels it has finished: once a result is dropped, every accepted call returns all memory it took, whatever path through the algorithm the pixel's data took.",
  ["inputs", "histories"], "every accepted per-pixel call, every path through initialisation, breaks, look-back, fallbacks, change-magnitude output and monitoring modes, any number of repetitions",
  "A test makes a handful of calls; what a call leaves behind changes no result and becomes visible only after the millions of pixels of a tile.",
  [COLD, SCCD, MISC, PYX, "src/cxx/2d_array.c", "src/cxx/multirobust.c"], [("buffers released on every way out of a pixel", COLD), ("buffers released on every way out of a monitored pixel", SCCD)], [], ["live heap bytes, Python blocks and open files over repeated calls"])

p("C21", "Returned models and change magnitudes reproduce the observations",
  "A returned model predicts what it was fitted to: evaluated with the library's prediction functions (harmonic terms of 4, 6 or 8 coefficients at any ordinal date, for one band or all), the curve of a reconstructed segment leaves at the usable observations of its span exactly the residual error the segment reports, and after its break residuals whose median is the reported change magnitude; coefficients beyond the category's number are zero. The change magnitude of a monitoring state is, per band, the median difference between the observations of the run of anomalies at the end of its saved window, whatever the window's length, and the model's prediction at their dates, and computing it leaves the state unchanged.",
  ["inputs", "histories"], "all pixels, segments, monitoring states, dates and numbers of coefficients",
  "No stable test evaluates a returned model or asks for a state's change magnitude; units, scaling and date origin can disagree between the native fit and the Python functions unnoticed.",
  [UT, COLD, MISC], [("prediction and per-state change magnitude", UT), ("reported error and magnitude", COLD)], [], ["predictions, coefficients, errors and magnitudes versus the caller's observations"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
