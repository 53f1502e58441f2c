"""Writes properties.jsonl and MANIFEST.json from the one table below: python3 tools/meta.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/climate_indices/"

# id, title, statement, over, quantifier text, why tests cannot, files, mechanisms [(name, where)], technique, level note
P = []


def prop(*a):
    P.append(a)


prop("C01", "Scaled totals are exact sums of their own window",
     "The total at scale k of a time step is the sum of that step's value and the k-1 before it. It is missing when the window is "
     "incomplete or contains a missing value, and is never influenced by values outside its window, whatever their magnitude. "
     "The output has the length of the input, also when the scale exceeds the length.",
     ["inputs"], "all series (gaps, zeros, negatives, mixed magnitudes, integer and float, any length) and all scales",
     "the tests compare two fixed arrays at a few scales; gaps, scales beyond the length and magnitudes are unbounded",
     [S + "compute.py"], [("rolling sum", S + "compute.py sum_to_scale")],
     "runtime monitor: shadow reference model (correctly rounded window sums) on every output element")
prop("C02", "Gamma SPI equals the documented standardization of the scaled totals",
     "Each SPI value under the gamma distribution is the standard normal quantile, limited to +-3.09, of the mixed probability q + (1-q)*G(x): "
     "G is the gamma distribution fitted (Thom's estimator, zeros and missing values excluded) to the totals of the same calendar step in "
     "the calibration years, q that step's frequency of zero totals over the years of the record. A calibration period not contained in the record means the "
     "full record; negative precipitation counts as zero; the shape, memory layout and type of the input do not matter.",
     ["inputs", "configurations"], "all precipitation series, start years, record lengths, scales, calibration periods, monthly and daily",
     "the tests pin one fixture per scale; the mapping of years to calibration rows, partial years, gaps and zeros vary without bound",
     [S + "indices.py", S + "compute.py"], [("SPI", S + "indices.py spi"), ("fit", S + "compute.py gamma_parameters"),
                                            ("transform", S + "compute.py transform_fitted_gamma")],
     "runtime monitor: shadow reference model at the public call boundary, every value judged")
prop("C03", "Pearson SPI equals the documented L-moment standardization",
     "Each SPI value under the Pearson type III distribution is the standard normal quantile, limited to +-3.09, of p0 + (1-p0)*F(x): F is "
     "the Pearson III distribution fitted by L-moments (Hosking) to the totals of the same calendar step in the calibration years, and p0 the frequency of zeros "
     "among them. Values beyond the distribution's bound get the probability of a trace amount or its complement; a "
     "calibration sample no distribution can be fitted to is refused with a ValueError or has fixed neutral parameters, never a silently different fit.",
     ["inputs", "configurations"], "all precipitation series (positively and negatively skewed, symmetric, dry), start years, scales, calibration periods",
     "the tests pin one fixture; skew sign, bounds, zeros, short samples and the year mapping are unbounded",
     [S + "indices.py", S + "compute.py", S + "lmoments.py"],
     [("fit", S + "compute.py pearson_parameters"), ("L-moments", S + "lmoments.py fit"), ("transform", S + "compute.py transform_fitted_pearson")],
     "runtime monitor: shadow reference model (definition-level L-moments) at the public call boundary")
prop("C04", "SPEI standardizes precipitation minus PET",
     "Each SPEI value is what the standardization gives for the totals of max(precipitation,0) minus potential evapotranspiration plus the documented offset of 1000 per step, "
     "at the same calendar step, calibration years and distribution. A step missing in either input makes every window holding "
     "it missing, and inputs of unequal length are refused.",
     ["inputs", "configurations"], "all pairs of precipitation and PET series, scales, calibration periods, both distributions, monthly and daily",
     "the tests use one fixture pair; the pairing of the two series, gaps in either and the sign of the balance are unbounded",
     [S + "indices.py"], [("SPEI", S + "indices.py spei")],
     "runtime monitor: shadow reference model plus relational pairs with the same water balance")
prop("C05", "Index values are present exactly where they are due, and within limits",
     "SPI and SPEI have the length of the input record; each value is missing exactly when its window is incomplete or "
     "contains a missing value, or no distribution can be fitted for its calendar step, and otherwise is a number within "
     "[-3.09, 3.09]. All-missing input gives all-missing output rather than an error.",
     ["inputs"], "all gap patterns, zero patterns, partial last years, both indices and distributions",
     "fixtures have no gaps; propagation of missing values through sums, fits and padding depends on the pattern",
     [S + "indices.py", S + "compute.py"], [("padding", S + "utils.py reshape_to_2d"), ("clipping", S + "indices.py spi, spei")],
     "runtime monitor: presence and range oracle derived from the input alone")
prop("C06", "Wetter never gets a lower index",
     "Within one calendar step of one computation, a larger scaled total never has a smaller SPI or SPEI value, and equal totals have equal values. "
     "The same holds for percent of normal.",
     ["inputs"], "all pairs of totals of a calendar step in all records",
     "an order relation over all pairs of all inputs; tests compare fixtures",
     [S + "indices.py", S + "compute.py"], [("transforms", S + "compute.py transform_fitted_gamma, transform_fitted_pearson")],
     "runtime monitor: pairwise order oracle over recorded (total, index) events")
prop("C07", "Only the calibration period shapes the distribution",
     "Distribution parameters and the standardization of unchanged windows depend on the calibration years only, with both end years included: changing values in "
     "other years (without changing which are zero or missing) changes no index value of windows that do not contain them. A calibration period that starts "
     "before or ends after the record is the same as the full record.",
     ["inputs", "configurations"], "all records, calibration periods inside and beyond the record, and perturbations outside them",
     "needs pairs of runs; tests use a single calibration period per fixture",
     [S + "compute.py"], [("calibration rows", S + "compute.py gamma_parameters, pearson_parameters")],
     "runtime monitor: metamorphic pair oracle (perturb outside the calibration years)")
prop("C08", "Fitted parameters can be stored and reused",
     "Feeding the parameters obtained from the public fitting functions back into SPI or SPEI gives the same index values as fitting directly, also for an "
     "extended record or other calibration years, under current (SPEI: also deprecated) names, and as lists or arrays. Given parameters are used as they are, and an incomplete Pearson set is refused.",
     ["inputs", "histories", "configurations"], "all records and parameter sets (own, foreign, arbitrary valid), both distributions",
     "the round trip fit-store-reuse is a history; the tests check a single fixture",
     [S + "indices.py", S + "compute.py"], [("parameter passing", S + "indices.py spi, spei"), ("deprecated names", S + "indices.py _norm_fitdict")],
     "runtime monitor: round-trip trace oracle plus closed-form reference")
prop("C09", "Results depend on the arguments only, which are left alone",
     "Every public computation gives the same result or refusal for the same arguments whatever was computed before it in the process. It does not change its "
     "arguments, and results returned earlier are not changed by later calls.",
     ["histories"], "all sequences of calls over all public functions, with shared, altered, read-only and failing arguments",
     "each test starts from fresh arguments and looks at one call; caches, in-place operations and aliasing need call histories",
     [S + "indices.py", S + "compute.py", S + "eto.py", S + "palmer.py", S + "utils.py", S + "lmoments.py"],
     [("copies of inputs", S + "indices.py spi, spei"), ("copies of temperatures", S + "eto.py eto_thornthwaite")],
     "runtime monitor: call-history replay against a pristine process, bytewise argument and result watch")
prop("C10", "Precipitation indices do not depend on the unit of measure",
     "Multiplying all precipitation by a positive constant leaves SPI (both distributions), percent of normal and the concentration index unchanged, as long as "
     "totals stay above the documented trace amount.",
     ["inputs"], "all records and conversion factors",
     "a relation between pairs of runs over all factors; the tests run one unit",
     [S + "indices.py", S + "compute.py"], [("fits", S + "compute.py gamma_parameters, pearson_parameters")],
     "runtime monitor: metamorphic scaling oracle")
prop("C11", "Percent of normal is the ratio to the calibration mean of its calendar step",
     "Each percent-of-normal value is the scaled total divided by the mean of the present totals of the same calendar step within the "
     "calibration years (both included), and missing where the total is missing or the normal is not positive. Calibration "
     "periods that start before the record, or have more years than it, are refused.",
     ["inputs", "configurations"], "all records, scales, calibration periods, monthly and daily",
     "the tests cover two fixtures; slicing of the calibration years, gaps and partial years vary without bound",
     [S + "indices.py"], [("PNP", S + "indices.py percentage_of_normal")],
     "runtime monitor: shadow reference model, plus calibration-mean conservation")
prop("C12", "Precipitation concentration index follows its definition for any year",
     "For a year of 365 or 366 daily totals the concentration index is 100 times the sum of squared calendar month totals over the squared annual total, "
     "with each day in its own month; hence between 100/12 and 100 and independent of the unit. Other lengths and missing "
     "days are refused.",
     ["inputs"], "all years of daily totals, leap and non-leap, rain concentrated on any day",
     "the tests use two fixture years; each month boundary in leap and other years matters",
     [S + "indices.py"], [("month boundaries", S + "indices.py pci")],
     "runtime monitor: shadow reference model with single-day probes")
prop("C13", "Thornthwaite PET follows the published equation month by month",
     "Monthly potential evapotranspiration is the Thornthwaite equation with the heat index of the location's mean monthly temperatures, mean daylight of the month at the latitude, "
     "and the length of the month in that year (leap years included). It is missing exactly where the temperature is, zero at or below freezing, never negative, and latitudes outside [-90, 90] are refused.",
     ["inputs", "configurations"], "all temperature records, latitudes on the globe and start years",
     "the tests pin one fixture location; hemispheres, polar day and night, leap years, gaps and frost vary",
     [S + "eto.py", S + "indices.py"], [("equation", S + "eto.py eto_thornthwaite"), ("daylight", S + "eto.py _monthly_mean_daylight_hours")],
     "runtime monitor: shadow reference model on every month")
prop("C14", "Hargreaves PET follows the published equation day by day",
     "Daily potential evapotranspiration is the Hargreaves equation with the extraterrestrial radiation of the calendar day (366-day years) at the latitude, "
     "for every day of any number of years. A day with a missing input is missing and does not affect others.",
     ["inputs"], "all daily minimum, maximum and mean temperature records of 366-day years, and latitudes",
     "the tests pin one fixture; day alignment over years, latitudes and gaps vary",
     [S + "eto.py"], [("equation", S + "eto.py eto_hargreaves")],
     "runtime monitor: shadow reference model on every day")
prop("C15", "Gregorian and 366-day calendars convert without loss",
     "Expanding full years of daily values to 366-day years keeps every value on its calendar day and fills February 29 of other years with the mean of its neighbours; "
     "converting back gives exactly the original values. Lengths always agree with the calendar, century years included.",
     ["inputs"], "all start years, numbers of years and gap patterns",
     "the tests cover three fixed spans; leap cycles and century years are a joint condition of start and length",
     [S + "utils.py"], [("expansion", S + "utils.py transform_to_366day"), ("contraction", S + "utils.py transform_to_gregorian")],
     "runtime monitor: unique-marker trace of every element through both conversions")
prop("C16", "Time axis and array helpers agree with the calendar and their definitions",
     "Month-start time coordinates are the exact numbers of days since the reference date for any start, length and reference. "
     "Folding a series into year rows keeps order and pads the last year with missing values only; counts of zeros and of present values, sign changes, error measures and tolerances follow their definitions for gappy arrays.",
     ["inputs"], "all start years and months, lengths, reference years, and arrays with gaps",
     "the tests use single examples; leap and century years and gap patterns are unbounded",
     [S + "utils.py"], [("day counts", S + "utils.py compute_days"), ("folding", S + "utils.py reshape_to_2d")],
     "runtime monitor: independent calendar arithmetic and definition oracles")
prop("C17", "Palmer indices follow the water balance and backtracking rules",
     "For every complete monthly record the Palmer computation yields Z, PDSI, PHDI, PMDI and the calibration coefficients that the documented "
     "water balance, duration recursions and probability-driven backtracking give. This holds for any sequence of wet and dry spells, "
     "however long a spell stays undetermined.",
     ["inputs", "histories"], "all records of precipitation and PET, soil capacities and calibration years",
     "the tests compare fixture divisions; each backtracking path depends on the history of spells",
     [S + "palmer.py"], [("water balance", S + "palmer.py _water_balance"), ("backtracking", S + "palmer.py _pdsi and its helpers")],
     "runtime monitor: shadow reference state machine in lock step, closed-loop workload steering")
prop("C18", "Palmer coefficients can be reused, and records extended",
     "Feeding the coefficients of a Palmer run back gives the same indices. Coefficients come from the calibration years only, so months after them do not change coefficients, and negative "
     "precipitation counts as zero; an incomplete or malformed set of coefficients is calibrated anew as a whole; mismatched inputs are refused and all-missing input is all missing.",
     ["inputs", "histories"], "all records, capacities, calibration periods, coefficient sets and extensions",
     "needs pairs of runs; the tests run each fixture once",
     [S + "palmer.py"], [("coefficients", S + "palmer.py _cafec_coefficients and fitting_params")],
     "runtime monitor: round-trip and metamorphic pair oracle")
prop("C19", "Files processed by the program equal the library, location by location",
     "Every value in every file written by the index-processing program equals the library's result for that location's own series and times: for grids, climate divisions and "
     "single series, any documented dimension order, coordinate direction, one or several input files, monthly and daily data. No location influences another, also when some are empty.",
     ["inputs", "configurations"], "all data sets, layouts, dimension orders, indices, scales and calibration periods",
     "no test runs the program end to end; layouts, orders and splits multiply",
     [S + "__main__.py"], [("shared arrays", S + "__main__.py _drop_data_into_shared_arrays_grid, _drop_data_into_shared_arrays_divisions"),
                           ("splitting", S + "__main__.py _parallel_process"), ("reordering", S + "__main__.py _prepare_file")],
     "runtime monitor: end-to-end runs against the library as per-location oracle")
prop("C20", "Output does not depend on the number of worker processes or their timing",
     "For the same inputs, the values, coordinates and variables written by both programs are the same for every multiprocessing option, number of CPUs and order in "
     "which worker processes finish, including more workers than rows.",
     ["schedules", "configurations"], "all worker counts, multiprocessing options and interleavings of the workers",
     "tests never start worker processes",
     [S + "__main__.py", S + "__spi__.py"], [("splitting", S + "__main__.py _parallel_process"), ("splitting", S + "__spi__.py _parallel_spi, _parallel_fitting")],
     "runtime monitor: schedule perturbation (CPU counts, injected delays) with an equality oracle over outputs")
prop("C21", "The SPI program equals the library and its saved parameters can be reloaded",
     "Every value and every saved fitting parameter written by the SPI program equals the library's for that location, calendar step and scale. Saved parameters, loaded again for the same data, fewer scales or a "
     "longer record of the same grid, standardize each location with its own stored parameters.",
     ["inputs", "histories", "configurations"], "all grids, monthly and daily, scales, calibration periods; save and load in later runs",
     "no test runs the program; the round trip needs two runs",
     [S + "__spi__.py"], [("fitting", S + "__spi__.py _apply_to_subarray_gamma, _apply_to_subarray_pearson"), ("standardizing", S + "__spi__.py _apply_to_subarray_spi")],
     "runtime monitor: end-to-end runs against the library, save/load round-trip oracle")
prop("C22", "Input units are converted as declared, unknown units are refused",
     "Input in inches, degrees Fahrenheit or Kelvin, in any documented spelling or case, gives the same output as the same data in mm and degrees Celsius, for each input "
     "variable on its own. Unknown units end the run with an error instead of output.",
     ["inputs", "configurations"], "all combinations of units and spellings of the input variables, both programs",
     "no test runs the programs on other units",
     [S + "__main__.py", S + "__spi__.py"], [("conversion", S + "__main__.py _compute_write_index"), ("conversion", S + "__spi__.py _compute_write_index")],
     "runtime monitor: end-to-end runs of unit-converted twins")
prop("C23", "Inputs that do not belong together are refused before anything is written",
     "A run whose inputs differ in latitudes, longitudes, divisions or times, lack a required file, variable, scale or option, have undocumented dimensions, or combine options that "
     "exclude each other ends with a non-zero status. It writes nothing, and leaves inputs and files of earlier runs as they were.",
     ["inputs", "configurations"], "all kinds of mismatch in all layouts, options and their combinations, both programs",
     "tests call the validation with a few mocks; mismatches and option combinations multiply",
     [S + "__main__.py", S + "__spi__.py"], [("validation", S + "__main__.py _validate_args"), ("validation", S + "__spi__.py _validate_args")],
     "runtime monitor: hostile invocations, exit status and file-system oracle")
prop("C24", "A failed computation never looks like a result",
     "When the computation of any location fails in any worker, or output cannot be written, the program ends with a non-zero status and leaves no output file for the failed index. Files it had "
     "completed before are complete and right, other files untouched.",
     ["fault_sequences", "schedules"], "failures of any location at any time in any worker, and of the output folder",
     "tests inject no faults and start no workers",
     [S + "__main__.py", S + "__spi__.py"], [("error propagation", S + "__main__.py _parallel_process, main"), ("error propagation", S + "__spi__.py main")],
     "runtime monitor: fault injection in workers, exit status and output oracle")
prop("C25", "Several runs in one process do not affect each other",
     "Invoking the programs repeatedly in one process, with data sets of other shapes, layouts, periodicities and indices and with failed runs in between, gives each run the "
     "output it has on its own.",
     ["histories"], "all sequences of invocations of both programs in one process",
     "state kept between runs only shows in sequences of runs",
     [S + "__main__.py", S + "__spi__.py"], [("shared arrays dictionary", S + "__main__.py _global_shared_arrays"), ("shared arrays dictionary", S + "__spi__.py _global_shared_arrays")],
     "runtime monitor: run-history workload with per-run oracle")
prop("C26", "Output files are labelled as what they hold, on the coordinates of the input",
     "Each output file holds one variable named after index, distribution and scale, on the input's coordinate values in the documented dimension order, with a description, units (PET) and valid "
     "range true of its values. Chunk sizes follow the input when asked for.",
     ["inputs", "configurations"], "all data sets, indices, scales, distributions and options of both programs",
     "no test reads an output file",
     [S + "__main__.py", S + "__spi__.py"], [("attributes", S + "__main__.py _get_variable_attributes"), ("data set", S + "__spi__.py build_dataset_spi_grid")],
     "runtime monitor: output file inspection against the input's coordinates")
prop("C27", "A run changes nothing but its documented outputs",
     "A successful run of either program leaves its input files and unrelated files byte for byte unchanged, creates or replaces exactly the documented output files, and removes every temporary file it "
     "created. Saved parameters replace an existing file only when overwriting was asked for.",
     ["inputs", "configurations"], "all invocations of both programs, including inputs that need reordering",
     "tests do not look at the file system",
     [S + "__main__.py", S + "__spi__.py"], [("temporary copies", S + "__main__.py _prepare_file, process_climate_indices"), ("temporary copies", S + "__spi__.py _prepare_file, main")],
     "runtime monitor: file-system snapshots before and after each run")

prop("C28", "Masked values are missing values",
     "Every index, evapotranspiration method, fit, rolling sum and day conversion gives for a numpy masked array what it gives for the plain array with NaN in place of the masked elements, whatever is stored beneath the mask "
     "(fill values, zeros, plausible data), for gaps of any pattern and for arrays without a gap. Neither data nor mask of the argument is altered.",
     ["inputs"], "all masked arrays: every pattern of gaps, every hidden value, every such computation",
     "the tests pass plain arrays only; what is hidden beneath a mask is arbitrary",
     [S + "utils.py", S + "compute.py", S + "indices.py", S + "lmoments.py"],
     [("masked values", S + "utils.py masked_to_missing, reshape_to_2d"), ("all-missing input", S + "indices.py spi, spei; compute.py")],
     "runtime monitor: differential pairs of masked and plain arrays")
prop("C29", "Calls without a meaningful answer are refused",
     "An unknown distribution or periodicity, a scale below one, arrays of three dimensions or whose rows are not years, series that do not belong together, latitudes off the globe or missing, "
     "calibration years a percentage of normal has no data for, too few or equal values for L-moments and incomplete Pearson parameters are refused with a ValueError (or a KeyError naming a missing parameter) "
     "instead of being answered. Refused arguments stay unaltered, valid calls are answered.",
     ["inputs", "configurations"], "all invalid values of each of these arguments among arbitrary valid ones, for every public computation that takes them",
     "tests try a few invalid arguments of a few functions on one data set",
     [S + "indices.py", S + "compute.py", S + "eto.py", S + "utils.py", S + "lmoments.py", S + "palmer.py"],
     [("validation", S + "compute.py _validate_array, sum_to_scale"), ("validation", S + "indices.py spi, spei, percentage_of_normal, pet, pci"), ("validation", S + "eto.py")],
     "runtime monitor: refusal oracle over invalid calls with argument snapshots")
prop("C30", "Concurrent calls do not affect each other",
     "Calls of the public computations made from several threads at the same time each give what the same call gives when made alone, refused ones included, and leave their arguments unaltered, "
     "in every interleaving of the threads.",
     ["schedules", "histories"], "all interleavings of calls of the public computations from several threads",
     "shared scratch space or module state shows only in certain interleavings; the tests are single threaded",
     [S + "compute.py", S + "indices.py", S + "eto.py", S + "utils.py", S + "lmoments.py", S + "palmer.py"],
     [("module state", S + "compute.py, indices.py, eto.py, palmer.py"), ("per-run state", S + "palmer.py")],
     "runtime monitor: threads switched at random traced lines, outcome of each call vs the call alone")
prop("C31", "Simultaneous runs do not disturb each other",
     "Runs of the programs at the same time, on the same input files, in the same working directory and with the same temporary folder but with output names of their own, each end with the output and the exit status "
     "they have when run alone. The shared input files stay as they were, and no temporary file is left.",
     ["schedules", "configurations"], "all overlapping runs of both programs that share inputs and folders",
     "collisions on file names need overlapping runs; tests never start a program",
     [S + "__main__.py", S + "__spi__.py"], [("temporary copies", S + "__main__.py _prepare_file"), ("temporary copies", S + "__spi__.py _prepare_file"), ("output files", S + "__main__.py, __spi__.py")],
     "runtime monitor: overlapping program runs, output and file-system oracle per run")
prop("C32", "Gaps in the record never become Palmer index values",
     "A month without precipitation or PET has no Palmer index and no Z-index, no month without a Z-index has any Palmer index, and a gap within the calibration years leaves the whole record without values. "
     "A gap after the calibration years changes neither the coefficients nor any value before it, up to the spell that is still undetermined there.",
     ["inputs"], "all gap patterns of precipitation, PET or both, before, in or after the calibration years, with calibrated or given coefficients",
     "the tests' Palmer records have no gap",
     [S + "palmer.py"], [("results", S + "palmer.py pdsi"), ("severity", S + "palmer.py _calc_zindex"), ("calibration", S + "palmer.py _calc_cafec_coefficients, _calc_kfactors")],
     "runtime monitor: presence derived from the gaps, twin record without the gap")

NOTE = ("explores {n} cases per quick run and {t} per thorough run, reproducible from VERIF_SEED; a pass is evidence over the executions observed, "
        "not a proof; trusts the reference models in vmon/ and numpy/scipy")


def main():
    import sys
    sys.path.insert(0, ROOT)
    sizes = {}
    import re
    for f in ("fitted", "formulas", "history", "palmers", "cli", "extra"):
        p = os.path.join(ROOT, "checks", f + ".py")
        if os.path.exists(p):
            for m in re.finditer(r'pid = "(C\d+)"\n(?:.*\n){0,4}?    quick, thorough = (\d+), (\d+)', open(p).read()):
                sizes[m.group(1)] = (m.group(2), m.group(3))
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for (pid, title, st, over, q, why, files, mech, tech) in P:
            assert len(title) <= 80, (pid, len(title))
            assert len([x for x in st.replace("3.09", "").replace("0.", "").split(". ")]) <= 3, pid
            f.write(json.dumps({"id": pid, "title": title, "statement": st, "quantifier": {"over": over, "text": q},
                                "why_tests_cant": why,
                                "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}) + "\n")
    checks = []
    for (pid, title, st, over, q, why, files, mech, tech) in P:
        n, t = sizes[pid]
        checks.append({"property": pid, "quick_cmd": f"bash run.sh {pid}", "thorough_cmd": f"bash run.sh {pid} --thorough",
                       "technique": tech, "level": "exploration", "level_note": NOTE.format(n=n, t=t)})
    man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
           "notes": "No hooks were needed: the monitors observe the public API, the console programs' files and exit status, "
                    "and the per-location calls of the workers from outside /repo."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(P), "properties")


main()
