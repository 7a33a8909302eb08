#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (python3 tools/props.py writes both)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/wam2layers/"
BT, FT, CORE, IO, GRID = S + "tracking/backtrack.py", S + "tracking/forwardtrack.py", S + "tracking/core.py", S + "tracking/io.py", S + "utils/grid.py"
PS, PU, PP = S + "preprocessing/shared.py", S + "preprocessing/utils.py", S + "preprocessing/pressure_levels.py"
CFG, CAL, CLI = S + "config.py", S + "utils/calendar.py", S + "cli.py"

PROPS = []
CLAIMS = {}
NA = {}


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    PROPS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})
    if na:
        NA[id] = na
    else:
        CLAIMS[id] = (technique, note)


TRUST = ("Trusts the library models (numpy/xarray/cftime semantics of the calls used) and exact real arithmetic; "
         "'agrees' obligations are identity tests of terms extracted from the source on random valuations, not proofs.")
AI = "abstract interpretation of the source into symbolic per-cell terms; normal-form comparison"

prop("C01", "Tracked moisture is conserved in every cell and step",
     "In every tracking step, forward or backward, with or without a periodic zonal boundary, the change of tracked moisture of each cell (both layers) equals newly tagged moisture plus net transport from neighbouring cells minus the moisture recorded as tracked at the surface minus recorded losses plus recorded gains. What one cell sends to its neighbour is exactly what the neighbour receives (area weighted).",
     ["inputs", "configurations"], "all fluxes, storages, tagging masks, grid sizes, cells, both directions, both boundary modes",
     "Tests compare sums over two fixed cases with reference output; they cannot cover every cell, flux sign, clipping branch and boundary mode.",
     [BT, FT, CORE], [("tracking step", BT + ":backtrack"), ("tracking step", FT + ":forwardtrack"), ("donor cell scheme", CORE + ":horizontal_advection")],
     AI, TRUST)
prop("C02", "Tracked storage stays between zero and the total storage",
     "After every tracking step each layer's tracked storage is at least zero and at most the total moisture of that layer at the step's end time, and it is zero on the boundary of the domain. Losses and gains recorded by a step are never negative, and nothing is recorded as lost or gained in an interior cell whose updated tracked storages already lie within those limits.",
     ["inputs", "configurations"], "all inputs, cells, both directions and boundary modes",
     "Tests sample two short cases where limits are rarely reached.", [BT, FT], [("redistribution, clipping and bookkeeping", BT + ":backtrack"), ("redistribution, clipping and bookkeeping", FT + ":forwardtrack")],
     AI + " and interval facts", TRUST)
prop("C03", "Horizontal transport is first-order upwind",
     "The moisture carried through a cell face is the face flux times the relative tracked moisture of the cell the flow comes from, where the flow is the wind in forward mode and the reversed wind in backward mode. A cell's transport is the inflow minus the outflow over its four faces, moisture leaving the domain is not returned, and in periodic mode the first and last column are neighbours.",
     ["inputs", "configurations"], "all fluxes and storages, every interior, edge and corner cell, periodic or not",
     "The test suite only evaluates aggregated output of two cases.", [CORE, BT, FT], [("donor cell scheme", CORE + ":horizontal_advection")], AI, TRUST)
prop("C04", "Face fluxes are means of the two adjacent cells",
     "The flux used at a cell face is the mean of the stability-corrected fluxes of the two cells that share it, multiplied by the length of that kind of face (zonal flux by meridional spacing, meridional flux by zonal spacing). No face other than domain edges is without flux, and with a periodic boundary the seam face is used identically at both ends.",
     ["inputs", "configurations"], "all flux fields and grids, every face, both boundary modes",
     "The grid unit tests use one small example array per function.", [GRID, BT, FT], [("staggering", GRID + ":stagger_x, stagger_y"), ("gradient units", BT + ":run_experiment")], AI, TRUST)
prop("C05", "Layer storages change by transport, exchange, source and sink",
     "Before limits apply, a layer's tracked storage changes per step by time step length times: transport divided by the cell's area, vertical exchange between the layers (opposite in both layers, upwind, plus mixing proportional to the configured factor), tagged sources split over layers by their share of the moisture (backward) or put into the lower layer (forward), and surface removal at the layer's relative tracked content. The relative content is capped at one.",
     ["inputs", "configurations"], "all inputs and cells, both directions and boundary modes", "Reference outputs of two cases only sample the formula.",
     [BT, FT, CORE], [("update", BT + ":backtrack"), ("update", FT + ":forwardtrack"), ("vertical exchange", CORE + ":vertical_advection, vertical_dispersion")], AI, TRUST)
prop("C06", "Vertical flux closes the moisture balance of both layers",
     "The vertical moisture flux is the one that leaves each layer a residual of its moisture balance (storage change plus horizontal divergence plus surface terms) proportional to its storage at the end of the interval, then limited to the smaller layer's mean storage divided by one plus the mixing factor, per step. Divergence is computed with the periodic neighbour where the boundary is periodic, and the flux is always defined.",
     ["inputs", "configurations"], "all fluxes, storages, cells, boundary modes", "No test checks the residual; only aggregated results are compared.",
     [CORE], [("closure", CORE + ":calculate_fz"), ("divergence", CORE + ":divergence")], AI, TRUST)
prop("C07", "Only moisture in the tagging region and period is tagged",
     "A step tags moisture exactly when the step's reference time (start of the step in the direction of integration) lies within the inclusive tagging period, in proportion to the tagging mask, precipitation in backward mode and evaporation in forward mode, times the step length. The recorded tagged and tracked amounts are exactly those added to and removed from the storages, and a time-dependent region uses the mask for the same time.",
     ["inputs", "configurations"], "all tagging periods, masks, region kinds (box, file, time-dependent file, shapefile), directions", "Tests use one tagging window per case.",
     [BT, FT, IO], [("tagging", BT + ":run_experiment"), ("tagging", FT + ":run_experiment"), ("region loading", IO + ":load_tagging_region")], AI, TRUST)
prop("C08", "The time loop covers the tracking period exactly once",
     "Every step of a run has the configured length, steps follow each other without gap or overlap from the start of the tracking period (its end, in backward mode) while they fit inside the period, and no step leaves it. In each step storages are read at both ends of the step and fluxes at its midpoint.",
     ["inputs", "configurations"], "all periods, step lengths, directions", "Tests run two fixed periods.",
     [BT, FT, S + "tracking/shared.py"], [("time loop", BT + ":run_experiment"), ("start times", S + "tracking/shared.py:initialize_time")], AI + " over the loop's state", TRUST)
prop("C09", "Output files are complete, correctly named and accumulate once",
     "A file is written exactly when a step ends on a multiple of the output frequency or is the last of the run; it is named after direction and that time, carries that time, and holds the tracked storages at that time and everything accumulated since the previous file. Accumulated fields restart at zero after being written and only then, so each amount appears in exactly one file; storages are never reset.",
     ["inputs", "configurations", "histories"], "all periods, output frequencies and step lengths; all sequences of steps", "Tests look at the last file of two runs with daily output.",
     [BT, FT, IO], [("output and flush", BT + ":run_experiment"), ("file name", IO + ":output_path"), ("writer", IO + ":write_output")], AI + " over one generic loop iteration", TRUST)
prop("C10", "Restart continues from the tracked storages of the earlier run",
     "With restart on, a run begins with exactly the tracked storages stored in the output file that a run of the same direction writes for the time at which this run starts; accumulated fields begin at zero. Without restart no earlier output is read and the storages begin at zero.",
     ["histories", "configurations"], "all earlier runs and restart times, both directions", "No test restarts a run.",
     [BT, FT, IO], [("restart", BT + ":initialize"), ("restart", FT + ":initialize")], AI, TRUST)
prop("C13", "The stability correction bounds what leaves a cell in a step",
     "After the stability correction, the two horizontal flux components of each layer together move at most half of a cell's moisture in one step: each keeps its direction, is limited to its share of that half, is unchanged when it fits, and is zero (never undefined) where there is no flow. The correction uses the storage at the start of the step in the direction of integration and changes nothing but the horizontal fluxes.",
     ["inputs", "configurations"], "all fluxes and storages incl. zero flow, both directions", "Tests rarely trigger the correction and never inspect it.",
     [CORE, BT, FT], [("correction", CORE + ":stabilize_fluxes")], AI, TRUST)

prop("C11", "Input at any time is read exactly or interpolated linearly in time",
     "The fields a run uses for time t are the stored fields for t when t is a multiple of the input frequency, and otherwise the linear interpolation between the two surrounding multiples; each is read from the preprocessed file of its own day, at that time of day, as all flux fields or all storage fields and nothing else, limited to the tracking domain when one is configured. Reading that keeps failing ends in an error, never in missing data.",
     ["inputs", "configurations"], "all times, input frequencies, domains; any number of failing attempts", "Tests load a handful of times from one file.",
     [IO, CAL], [("interpolation", IO + ":load_data"), ("reading", IO + ":load_slice, read_or_retry"), ("rounding", CAL + ":round_cftime")], AI, TRUST)
prop("C29", "A tracking domain keeps exactly the cells inside its box",
     "Limiting data to a tracking domain keeps exactly the cells with south <= latitude <= north and west <= longitude <= east, edges included; when west exceeds east the box crosses the dateline and keeps longitudes >= west or <= east, contiguous and with every value still at its own coordinates. Input data and a tagging region read from file are limited in the same way.",
     ["inputs", "configurations"], "all boxes (plain and across the dateline), grids and region files", "Tests use one box per case and none across the dateline end to end.",
     [IO], [("subdomain", IO + ":select_subdomain"), ("region", IO + ":load_tagging_region")], AI, TRUST)

# --- more properties are added below ------------------------------------------------------

prop("C12", "Computing with input data never changes what is read later",
     "Data handed out by a cache (open files, time slices, tables) are never changed in place by the code that uses them, so reading the same time twice yields the same fields however often they were used in between, in tracking as in preprocessing. What a cache returns depends on its arguments only.",
     ["inputs", "histories"], "all sequences of reads and uses of cached data, both directions, all data sources", "Aliasing through a cache shows only in particular sequences of steps.",
     [IO, PS, S + "preprocessing/era5.py", S + "preprocessing/arco.py", S + "preprocessing/cmip.py"],
     [("cached readers", IO + ":load_region, open files"), ("cached readers", S + "preprocessing/era5.py:open_da"), ("cached readers", S + "preprocessing/cmip.py:open_var")],
     "alias and mutation (effect) analysis over the abstract heap", TRUST)
prop("C15", "The progress report is the water balance of the run",
     "The reported percentages are the area-weighted totals since the start of the run of moisture tracked at the surface, still in the atmosphere, lost inside the domain, lost at its boundary and gained, each relative to all tagged moisture, and the reported closure is their balance. Writing output does not change what is reported, and reporting changes nothing in the run.",
     ["inputs", "histories"], "all fields, all sequences of steps and writes, both directions", "Nothing tests the log messages over several output files.",
     [S + "utils/profiling.py", BT, FT], [("report", S + "utils/profiling.py:ProgressTracker"), ("stability warning", S + "utils/profiling.py")],
     "abstract interpretation of loop state and report; normal-form comparison", TRUST)
prop("C19", "The two layers add up to the whole column",
     "In preprocessed data every part of the atmospheric column lies in exactly one of two layers: upper plus lower equals the whole column, for moisture and both flux components, and equals total column water where the input has it. The upper layer holds what lies above the boundary pressure (factor times surface pressure plus offset), or the levels up to the boundary level for model levels.",
     ["inputs", "configurations"], "all columns, surface pressures, boundary settings, sources, with and without total column water", "Tests compare a single day of each source to stored output.",
     [PS, PP], [("layer split", PS + ":preprocess"), ("boundary", PP + ":extend_pressurelevels")],
     "abstract interpretation of the source into symbolic per-cell terms, compared with an independently computed column", TRUST)
prop("C20", "Surface water is written as non-negative rates",
     "Preprocessed evaporation is the upward part of the input's surface vapour flux and precipitation is the input's precipitation plus the downward part (condensation) of that flux, both in kg m-2 s-1 (accumulations divided by the input interval, latent heat flux by the latent heat, three-hourly rates averaged), and neither is ever negative.",
     ["inputs", "configurations"], "all fluxes incl. condensation, input frequencies, sources", "Tests do not contain cells for every sign combination per source.",
     [S + "preprocessing/era5.py", S + "preprocessing/arco.py", S + "preprocessing/cmip.py", PU], [("sign and units", S + "preprocessing/era5.py:preprocess_precip_and_evap"), ("units", PU + ":accumulation_to_flux")],
     "abstract interpretation of the source into symbolic per-cell terms, compared with independently computed rates", TRUST)
prop("C21", "Column integrals use the surface, the levels and nothing else",
     "Storages and fluxes are integrals over pressure, divided by gravity, of humidity and humidity times wind from the top of the atmosphere to the surface: levels below the surface do not count, the surface values close the profile, profiles are linear between levels and split at the layer boundary. With total column water, everything is scaled so that the column holds that amount.",
     ["inputs", "configurations"], "all profiles and surface pressures (levels below ground), level subsets in any order, sources", "Tests compare a single day of each source to stored output.",
     [PS, PP, PU, S + "preprocessing/era5.py"], [("integration", PS + ":preprocess"), ("column", PP + ":extend_pressurelevels, interp_dp_midpoints, mask_below_surface_data"), ("model levels", S + "preprocessing/era5.py:get_dp_modellevels")],
     "abstract interpretation of the source into symbolic per-cell terms, compared with an independently computed column", TRUST)


prop("C22", "What preprocessing writes is what tracking reads",
     "The file preprocessing writes for a time is the file tracking opens for that time. It holds every variable tracking reads, in time, latitude and longitude, for that time, with latitudes decreasing and longitudes increasing within [-180, 180], and every value at its own place on earth whatever the order and longitude convention of the input.",
     ["inputs", "configurations"], "all sources, grids (ascending or descending latitudes, any longitude convention) and times", "Test input is in one convention per source and already in order.",
     [PS, S + "preprocessing/era5.py", S + "preprocessing/arco.py", S + "preprocessing/cmip.py", IO], [("writer", PS + ":prep_experiment"), ("sorting", PS + ":sort_coords"), ("reader", IO + ":load_slice, input_path")],
     "abstract interpretation of writer and reader on symbolic data over grids of known coordinates; paths, variables and places compared", TRUST)
prop("C23", "Every input time is stored exactly once in the file of its day",
     "Preprocessing treats all times from its start to its end date, both included, at the input frequency. Each is stored exactly once, in the file of its own day: the first time of a day starts the file and every later one is appended behind what is stored, every variable under its own name with the values of that time, and times in the units of the file. Working in parallel stores the same.",
     ["histories", "configurations"], "all days, months and years touched by a run, sources, serial and parallel", "Tests preprocess one day per source, starting at midnight.",
     [PS, S + "preprocessing/xarray_append.py"], [("daily files", PS + ":prep_experiment"), ("append", S + "preprocessing/xarray_append.py:append_to_netcdf")],
     "abstract interpretation of a run over times on several days into an event history (files started, appended), judged as typestate", TRUST)


prop("C14", "Cells tile the sphere: areas and sides follow from the grid",
     "Cell areas are those of the spherical rectangles the cells cover, cut off at the poles, so that a global grid covers the sphere exactly once. Cell sides are arc lengths, zonal ones shrinking with the cosine of latitude. This holds for latitudes and longitudes in either order, any spacing and any longitude convention.",
     ["inputs"], "all regular grids (global, regional, including the poles, either order)", "Tests only check the boundary mask; areas enter through two stored reference results.",
     [GRID], [("geometry", GRID + ":get_grid_info")], "abstract interpretation over grids of known coordinates; terms compared with independently computed spherical geometry", TRUST)
prop("C24", "Incomplete input is refused before anything is written",
     "Preprocessing stops before writing anything for a time unless every variable it needs is present, in the dimensions it must have, without missing values, for exactly that time. Complete input is accepted.",
     ["inputs", "fault_sequences"], "every required variable missing, in other dimensions, or with a missing value anywhere; all sources", "Tests drop one or two variables of one source.",
     [S + "preprocessing/input_validation.py", PS], [("validation", S + "preprocessing/input_validation.py:validate_input"), ("loading", PS + ":get_input_data")],
     "abstract interpretation with injected faults: reachability of the write for each missing variable, dimension or value", TRUST)
prop("C16", "A configuration is accepted exactly when it is valid",
     "A configuration is accepted exactly when tracking, tagging and preprocessing each start no later than they end, every bounding box lies on the globe (longitudes within 180, latitudes within 80 degrees) with south below north, the options with a fixed vocabulary have one of the documented values and nothing required is missing. Changing a setting of an existing configuration is checked in the same way.",
     ["inputs", "configurations"], "all dates, boxes (also those crossing the date line), options, given at once or assigned later",
     "Tests try one bad value for a few settings.", [CFG], [("validators", CFG + ":Config.check_date_order, validate_region")],
     "abstract interpretation of the validators against a model of pydantic; comparison of the acceptance condition with the rule", TRUST)
prop("C17", "Exporting and importing a configuration loses nothing",
     "Writing a configuration to a file and reading that file gives the same value for every setting. Folders are resolved to absolute paths with the home directory expanded, and are created, with parents, when they do not exist; addresses of remote data stay as they are.",
     ["configurations"], "all values of every setting, each kind of region, levels and path", "Tests round-trip one configuration.",
     [CFG], [("export", CFG + ":Config.to_file"), ("import", CFG + ":Config.from_yaml"), ("folders", CFG + ":Config._expanduser, _make_dir")],
     "abstract interpretation of validators, serialisation and file writing against models of pydantic and YAML", TRUST)
prop("C18", "Dates are read in the configured calendar",
     "Every date of the configuration is the same moment in the configured calendar (standard if none is given), for every calendar that can be configured; a date that the calendar does not have is refused. Old spellings of frequencies mean what they always did, rounding goes to the neighbouring multiple, and a warning is given exactly when input has another calendar than the configured one.",
     ["inputs", "configurations"], "all calendars, all dates and frequencies", "Tests use the standard and one other calendar for a few dates.",
     [CAL, CFG], [("dates", CAL + ":cftime_from_iso"), ("frequencies", CAL + ":fix_deprecated_frequency"), ("mismatch", CAL + ":validate_calendar_type")],
     "abstract interpretation of date construction against the calendars' month lengths; enumeration of calendars and frequencies", TRUST)
prop("C27", "A tagging mask marks exactly the chosen cells",
     "A mask around points marks the cells within the given distance in latitude and longitude of each centre, one mask per time of the track. A mask from named or drawn regions marks the cells covered by at least one of them. A mask from an outline gives each cell the fraction of its area inside the outline. All are on the grid of the reference file, and are one or zero elsewhere as documented.",
     ["inputs"], "all centres, distances, regions, outlines on grids of either latitude order and any longitude origin", "Tests rasterize one shapefile.",
     [S + "utils/tagging_region.py", S + "utils/shapefile_mask.py"], [("masks", S + "utils/tagging_region.py:mask_around_point, mask_around_track, mask_with_regionmask, mask_with_shapefile"), ("outline", S + "utils/shapefile_mask.py:create_mask")],
     "abstract interpretation on symbolic grids; comparison of the extracted masks per cell", TRUST)
prop("C25", "Each command runs its own task and records how it was run",
     "Each command of the command line starts exactly the task it is named for with the configuration file it was given: tracking in the configured direction, preprocessing of the named source, a view of input, output or both, the download of the named case; removed commands start nothing. Before that task starts, the folder it writes to holds the log file and a copy of the configuration file; a configuration that is already there is left alone.",
     ["inputs", "configurations"], "all commands, directions, sources, with and without --debug, whether or not the files exist", "Tests run one tracking and two preprocessing commands.",
     [CLI], [("commands", CLI + ":track, era5, cmip, arco_era5, input, output, both, download"), ("provenance", CLI + ":setup_logging, _copy_config_yaml")],
     "interpretation of the command tree with recorded entry points: which task, with which arguments, after which file operations", TRUST)
prop("C26", "Downloads overwrite nothing and leave no broken files",
     "Downloading a case stops with an error if its folder exists, before anything is written. Otherwise each file of the catalog and of the file list is fetched once and stored under its own name in the new folder. A request answered with an error stops the download and nothing is stored from that answer. A DOI is split into prefix and suffix with or without resolver; anything else, and providers other than 4TU, are refused without touching the disk.",
     ["inputs", "fault_sequences"], "a failure of any request, an existing folder, all forms of identifiers", "Tests parse a few identifiers; nothing tests the download.",
     [S + "download.py"], [("download", S + "download.py:download_from_4tu, download"), ("folder", S + "download.py:create_target_directory"), ("identifiers", S + "download.py:parse_doi, get_4tu_id")],
     "abstract interpretation with injected faults (folder exists, n-th request fails) over recorded file operations", TRUST)
prop("C28", "Files describe themselves and keep single precision",
     "Every variable that tracking or preprocessing writes has its unit and a fitting name. Bounds of each grid cell lie half a spacing to either side of it; bounds of time are the time of the file and one output interval earlier in forward, later in backward mode. Nothing is rounded, scaled or narrowed to less than single precision, and output carries every setting of its run.",
     ["inputs", "configurations"], "every variable, source and direction, grids of either spacing", "Tests compare values of a few files, not units, bounds or attributes.",
     [IO, PU, PS, S + "reference/variables.py"], [("output", IO + ":write_output, get_main_attrs, add_time_bounds"), ("bounds", PU + ":add_bounds"), ("units", S + "reference/variables.py")],
     "abstract interpretation up to the write of each file; rules on its attributes, bounds and encoding", TRUST)
prop("C31", "Data checks report exactly what is wrong with input data",
     "The checks of preprocessed data warn about a variable exactly if one of its values lies outside of the declared range, about a coordinate exactly if it is not uniformly spaced or does not increase (latitude: decrease), and about missing units or units other than those that preprocessing writes. Data without such faults give no warning. Each check by itself reports exactly the data that do not satisfy it.",
     ["inputs"], "all values, coordinates and units of every variable", "No test runs the data checks.",
     [S + "analysis/checks.py"], [("checks", S + "analysis/checks.py:check_input, check_range, check_uniform"), ("declared ranges and units", S + "analysis/checks.py:VARIABLES")],
     "abstract interpretation; the condition of every warning, as a term of the data, against the fault itself", TRUST)
prop("C32", "Forward and backward tracking of the same case agree",
     "Moisture that evaporates in region A and is found by forward tracking to precipitate in region B in a period equals the moisture that backward tracking of the precipitation in B attributes to evaporation in A, up to discretisation error.",
     ["inputs"], "all input data, regions and periods", "Reciprocity involves two complete runs; tests compare each direction to stored output.",
     [BT, FT], [("time loops", BT + ":run_experiment"), ("time loops", FT + ":run_experiment")],
     na="The two schemes agree only up to numerical diffusion of first-order upwind transport accumulated over all steps, a quantity no static argument in reach bounds; C01-C08 decide that each step of both directions is the conservative upwind step.")
prop("C33", "Results converge and stay stable as the time step shrinks",
     "Halving the time step changes the tracked fields by an amount that vanishes with the time step, and for time steps that satisfy the Courant criterion the solution does not oscillate.",
     ["inputs", "configurations"], "all flow fields and time steps", "Convergence needs a sequence of runs on general flow fields.",
     [BT, FT, CORE], [("explicit step", BT + ":backtrack"), ("stability correction", CORE + ":stabilize_fluxes")],
     na="Convergence is a statement about limits of sequences of runs under runtime flow fields; the static part (fluxes are limited to what the cell holds, storages stay within bounds in each step) is decided by C02 and C13.")
prop("C34", "Single precision does not change the result of a long run",
     "Rounding of single-precision fields accumulated over a run of months changes area-integrated totals by less than the reported digits.",
     ["inputs", "histories"], "all runs of any length", "Tests run a few steps.", [BT, FT, IO],
     [("accumulated fields", BT + ":run_experiment"), ("stored precision", IO + ":write_output")],
     na="Rounding error depends on the magnitudes met at run time over an unbounded number of steps; C28 decides that nothing is stored or cast with less than single precision.")
prop("C35", "Memory and time stay bounded in long runs",
     "A run of any length holds a bounded number of input fields in memory and reads every input file a bounded number of times.",
     ["histories"], "runs of any length and data of any size", "Tests run a few steps of small data.", [IO, PS],
     [("caches", IO + ":load_data"), ("parallel preprocessing", PS + ":prep_experiment")],
     na="Memory use is decided by dask/xarray laziness and the operating system's caches, which the source does not determine.")
prop("C36", "Figures show the data they are made from",
     "The figures made from input, output and tagging regions show every field at its own place, with a legend that matches the colours.",
     ["inputs"], "all data and regions", "Tests do not look at images.", [S + "analysis/visualization.py"],
     [("figures", S + "analysis/visualization.py:visualize_input_data, visualize_output_data")],
     na="What a rendered image shows is decided inside matplotlib and cartopy; C37 decides the totals that are handed to them, C25 which view a command starts.")
prop("C30", "Input is read from the files the configuration names",
     "For every time and variable, preprocessing reads the file that the configured template names once year, month, day, hour, minute, variable and level type of that time are filled in (ERA5), or all files the template with that variable matches (CMIP). A file that is absent or unreadable, or that lacks the time asked for, stops preprocessing with an error; only total column water of ERA5 may be absent, then preprocessing goes on with water vapour alone.",
     ["inputs", "configurations", "fault_sequences"], "all templates, times, variables and level types; every failure to read a file", "Tests use one template with one date, and complete input.",
     [S + "preprocessing/era5.py", S + "preprocessing/cmip.py", S + "preprocessing/arco.py", CAL], [("template of a file", S + "preprocessing/era5.py:load_data"), ("template of several files", CAL + ":template_to_files"), ("optional total column water", S + "preprocessing/era5.py:get_input_data")],
     "interpretation of the data sources with known dates, several templates and a folder listing; every path opened is compared with the template filled in independently; failures are injected at every opening and every selection of a time", TRUST)
prop("C37", "Figures total everything tagged or tracked in the period",
     "The view of the input shows, per cell, the moisture tagged over the tagging period: precipitation (backward) or evaporation (forward) at every input time from tagging start to tagging end, each once, times the input interval in seconds, times the tagging region (a region that varies in time: the one nearest in time). The view of the output shows, per cell, all tracked moisture of the run: evaporation (backward) or precipitation of both layers (forward), summed over exactly the files a complete run of that configuration writes. Viewing a complete run does not fail and saves the figure; when one of the files of the period is missing, no figure is made.",
     ["inputs", "configurations", "fault_sequences"], "all tagging and tracking periods, time steps, input and output frequencies, both directions, all kinds of tagging region", "A file left out, read twice or one day off gives a plausible map with wrong totals; tests view one case of whole days.",
     [S + "analysis/visualization.py", S + "tracking/io.py"], [("view of the input", S + "analysis/visualization.py:visualize_input_data"), ("view of the output", S + "analysis/visualization.py:visualize_output_data"), ("both", S + "analysis/visualization.py:visualize_both")],
     "interpretation of the views on a known calendar (six periods, three kinds of region) with symbolic contents of every file; the array that is drawn is compared, as a term per cell, with the total over all times or files required; files are taken away one by one", TRUST)
prop("C38", "Stability warnings are given when due and never stop a run",
     "A stability warning is given for a layer in a time step exactly when the north-south flux of some cell is limited by more than 10% more strongly than at any such warning before (none at first), or otherwise when it is limited in more than 5% of the cells and in more than 10% more cells than at the last warning about that; cells without flux are not limited. With each warning, and only then, the field of limited over original flux is written into the debug folder of the output folder, with the time step, to the second, in its name. The debug folder is made first and may exist already. The mask made of a shapefile is written to the same folder, as it is used.",
     ["inputs", "configurations", "fault_sequences"], "all sequences of limited fluxes over the time steps and layers, all grids, both directions, debug folders that exist or not", "The warnings carry state from step to step; tests warn once at most, in an empty folder.",
     [S + "utils/profiling.py", S + "tracking/core.py", S + "tracking/io.py"], [("criteria, state, files", S + "utils/profiling.py:ProgressTracker.track_stability_correction"), ("fluxes handed over", S + "tracking/core.py:stabilize_fluxes"), ("mask of a shapefile", IO + ":load_tagging_region")],
     "interpretation of the correction over sequences of time steps with known fluxes; warnings, folders and files compared with an independent automaton of the documented criteria (sampled sequences around each threshold), contents cell by cell", TRUST)
def write():
    PROPS.sort(key=lambda p: p["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    checks = []
    for p in PROPS:
        if p["id"] not in CLAIMS:
            continue
        t, n = CLAIMS[p["id"]]
        checks.append({"property": p["id"], "quick_cmd": f"python3 /verif/check.py {p['id']} quick",
                       "thorough_cmd": f"python3 /verif/check.py {p['id']} thorough",
                       "evidence_file": f"evidence/{p['id']}.json",
                       "technique": "static analysis: " + t, "level": "other", "level_note": n})
    man = {"version": 1, "setup_cmd": "python3 -m compileall -q engine checks || true", "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
           "notes": "No hooks: the checks read /repo's source and never import or run it."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    write()
