prop(
    "C01",
    "Merging netCDF files keeps every record once, whole and in file order",
    "Merging a set of netCDF files along the record dimension yields exactly the records of the usable inputs, "
    "each once, in order of file name, with every value, missing value and attribute meaning what it meant in its "
    "own file; inputs stay untouched and nothing is invented for a file that lacks a variable or a range gate. "
    "Damaged files and files without records or without data of the requested day contribute nothing, and when nothing "
    "is left the merge is refused instead of writing an empty product.",
    ["inputs", "configurations"],
    "any number and order of input files, any record counts, missing values, packing, fill values, missing or extra "
    "variables, range grids, variable filters, record dimension and file format",
    "Tests merge a few hand-made or recorded file pairs that share fill values, packing and layout; they never vary "
    "the combination of file kinds.",
    ["cloudnetpy/concat_lib.py"],
    [("concatenate_files", "cloudnetpy/concat_lib.py"), ("bundle_netcdf_files", "cloudnetpy/concat_lib.py")],
    ["contents of the merged file", "returned file list", "input files"],
    note="Depth: sequences of up to 3 files (4 thorough) over 9 file kinds.",
)
prop(
    "C02",
    "Appending, truncating and joining files never lose or alter records",
    "Appending a file to an existing one adds exactly the records newer than the last stored one, gapless, in order "
    "and for every variable the old file has, leaves everything already stored as it was, and reports whether "
    "anything was added; unreadable or missing files change nothing. Truncation keeps exactly the first records of "
    "every variable with all values and attributes, and joining text files is byte-exact.",
    ["histories", "inputs"],
    "every history of appends of past, overlapping, adjacent, sparse, unreadable or differently structured files, and "
    "every combination of record counts, layouts and formats for truncation",
    "Tests append one or two recorded files and check only that a call succeeded; overlaps, variables of "
    "other ranks and longer histories are not exercised.",
    ["cloudnetpy/concat_lib.py"],
    [
        ("update_nc", "cloudnetpy/concat_lib.py"),
        ("truncate_netcdf_file", "cloudnetpy/concat_lib.py"),
        ("concatenate_text_files", "cloudnetpy/concat_lib.py"),
    ],
    ["contents of the updated file after every step", "return value"],
    [("old file", "records stored so far", "update_nc")],
    note="Depth: every history of up to 3 appends (4 thorough) over 11 kinds of file.",
)
prop(
    "C03",
    "Station and gauge readings of the day come out once, whole and in SI units",
    "Converting surface weather station, rain gauge or present-weather text files gives exactly the readings of the "
    "requested day, each time stamp once, in time order, every quantity in SI units next to the time it was taken, and "
    "missing readings stay missing without affecting others. Rows of other days and malformed rows leave no trace, and "
    "files without readings of the day are refused without writing output.",
    ["inputs", "histories"],
    "all sequences of rows (previous, current and next day, repeated, out of order, malformed), any pattern of missing "
    "fields, for every supported station and gauge format, with files split arbitrarily",
    "Tests convert one recorded file per station; combinations of row order, day borders and missing fields are not "
    "in those files.",
    ["cloudnetpy/instruments/weather_station.py", "cloudnetpy/instruments/rain_e_h3.py", "cloudnetpy/instruments/fd12p.py",
     "cloudnetpy/instruments/cloudnet_instrument.py", "cloudnetpy/instruments/toa5.py"],
    [("ws2nc", "cloudnetpy/instruments/weather_station.py"), ("rain_e_h32nc", "cloudnetpy/instruments/rain_e_h3.py"),
     ("fd12p2nc", "cloudnetpy/instruments/fd12p.py")],
    ["variables and attributes of the produced file", "ValidTimeStampError"],
    note="Of readings sharing a time stamp any one may be kept. Depth: sequences of up to 3 rows (5 thorough).",
)
prop(
    "C08",
    "Accumulated precipitation follows the instrument counter through resets and gaps",
    "Daily accumulated precipitation starts at zero at the first valid reading, never decreases, grows by exactly what "
    "the instrument's counter grew by, and restarts counting from zero whenever the counter was reset, however many "
    "resets and missing readings occur in the day.",
    ["histories"],
    "every history of counter readings including repeated resets, missing readings and unordered files",
    "Tests use one synthetic history and recorded days with at most one reset.",
    ["cloudnetpy/instruments/cloudnet_instrument.py", "cloudnetpy/instruments/rain_e_h3.py", "cloudnetpy/instruments/fd12p.py"],
    [("normalize_cumulative_amount", "cloudnetpy/instruments/cloudnet_instrument.py")],
    ["rainfall_amount, precipitation_amount and snowfall_amount of the produced files"],
    [("counter offset", "amount accumulated before the latest reset", "CSVFile.normalize_cumulative_amount")],
    note="Depth: all histories of up to 5 readings (7 thorough) over four readings.",
)
prop(
    "C09",
    "Classification gives every pixel its documented target, status and boundary",
    "For every combination of categorize bits, in any layout, the target classification, detection status and signal "
    "source of a pixel are the documented ones and depend on that pixel alone; the radar attenuation status follows "
    "the documented thresholds, precedence and upward shadowing in every column; and cloud base and top are the lowest "
    "and highest cloudy gate of the sufficiently large clouds of a profile, above mean sea level and above ground, with "
    "the matching top status.",
    ["inputs"],
    "all combinations of category and quality bits, attenuation columns, frequencies, rain and liquid water path, and "
    "cloud shapes",
    "Tests check a few dozen hand-picked pixels; the bits have 65536 combinations and columns interact.",
    ["cloudnetpy/products/classification.py", "cloudnetpy/categorize/atmos_utils.py",
     "cloudnetpy/products/product_tools.py"],
    [("generate_classification", "cloudnetpy/products/classification.py")],
    ["variables of the classification file"],
    note="Exhaustive over all bit combinations; columns of 4 gates (5 thorough) over 10 kinds of gate.",
)
prop(
    "C10",
    "Ice water content and ice radius exist exactly where ice can be retrieved",
    "For every combination of categorize bits, reflectivity, rain and radar band, ice water content and effective "
    "radius are given exactly at ice pixels with an echo that is unattenuated or fully corrected, follow the "
    "documented reflectivity-temperature relation with model temperature at that pixel, carry the documented error, "
    "bias and sensitivity, and the retrieval status tells the documented reason everywhere else.",
    ["inputs"],
    "all bit combinations, missing or present reflectivity, rain classes (including missing rain) and radar bands",
    "Tests use a handful of pixels; bits, rain and missing echoes interact in 65536 x 6 ways.",
    ["cloudnetpy/products/iwc.py", "cloudnetpy/products/ier.py", "cloudnetpy/products/product_tools.py"],
    [("generate_iwc", "cloudnetpy/products/iwc.py"), ("generate_ier", "cloudnetpy/products/ier.py")],
    ["variables of the product files"],
    note="Exhaustive over all 2^16 bit combinations x reflectivity x rain x band.",
)
prop(
    "C11",
    "Droplet effective radius follows Frisch (2002) in every liquid layer",
    "In every profile each liquid layer with radar echoes gets, gate by gate, the effective radius, its scaled "
    "counterpart, droplet number and errors of the Frisch method, computed from that layer alone with the true gate "
    "lengths; nothing is given outside liquid, without an echo or, for scaled quantities, without positive liquid "
    "water path, and the retrieval status is the documented one.",
    ["inputs", "configurations"],
    "all layer structures, missing echoes, liquid water paths including zero, negative and missing, rain classes, even "
    "and uneven range gates, and retrieval parameters",
    "Tests have one hand-made profile; layers, missing echoes and rain interact.",
    ["cloudnetpy/products/der.py"],
    [("generate_der", "cloudnetpy/products/der.py")],
    ["variables of the product file"],
    note="Depth: all profiles of 3 gates (4 thorough) over 10 kinds of gate; 5 gates (6) over the liquid kinds.",
)
prop(
    "C12",
    "Liquid water content adds up to the measured liquid water path",
    "In every profile without rain and with liquid water path available, liquid water content is adiabatic within each "
    "liquid layer, nothing outside, and adds up exactly to the measured path; it is missing with rain, without liquid "
    "or without path. The error combines layer edges and path error, and the status marks untouched layers, "
    "lidar-only top layers extended to reach the path, the added gates, and profiles without retrieval as documented.",
    ["inputs"],
    "all layer structures and detection combinations, liquid water paths, rain classes and range grids",
    "Tests exercise helpers on single small arrays and never the whole retrieval on many layer structures.",
    ["cloudnetpy/products/lwc.py", "cloudnetpy/categorize/atmos_utils.py"],
    [("generate_lwc", "cloudnetpy/products/lwc.py")],
    ["variables of the product file"],
    note="Depth: all profiles of 4 gates (5 thorough) over 6 kinds of gate; 6 gates over 3 kinds.",
)
prop(
    "C13",
    "Drizzle parameters exist exactly in drizzle and solve the documented equations",
    "Drizzle diameter, shape, lidar ratio, number, water content and flux, velocities and their errors are given "
    "exactly at gates that the category and quality bits, rain detection and a known velocity deviation mark as "
    "drizzle; there they solve the radar-lidar equations with the scattering table of the radar's band, correcting the "
    "lidar signal for the drizzle below in the same profile only, and the retrieval status is the documented one for "
    "every combination of bits.",
    ["inputs", "configurations"],
    "all bit combinations, rain classes, missing velocity deviation, drizzle columns, bands, width and turbulence, grids",
    "Without the scattering table the unit tests of this product cannot even run here; with it they use one tiny field.",
    ["cloudnetpy/products/drizzle.py", "cloudnetpy/products/drizzle_tools.py", "cloudnetpy/products/drizzle_error.py"],
    [("generate_drizzle", "cloudnetpy/products/drizzle.py")],
    ["variables of the product file"],
    note="Uses a synthetic scattering table of the same layout. All 2^16 bit combinations; columns of 3 gates (4) "
    "over 9 kinds.",
)
prop(
    "C14",
    "Target classification follows the documented rules at every pixel",
    "For every combination of radar, lidar, model, microwave radiometer and disdrometer input, each pixel of the "
    "categorize file carries exactly the category bits (droplets, falling, freezing, melting, aerosol, insects) and "
    "detection quality bits that the documented rules give for the observations on the grid, rain is flagged exactly in "
    "profiles that meet the rain criteria, and the result at the edges of the grid and of the day follows the same "
    "rules as everywhere else.",
    ["inputs", "configurations"],
    "all columns of targets over a 13-letter alphabet, lidar peak shapes, bright bands, rain criteria, region shapes, "
    "temperature profiles and sets of available instruments",
    "Unit tests call single steps with one tiny array; rules interact through neighbouring pixels, profiles and "
    "instruments, and edge positions are never sampled.",
    ["cloudnetpy/categorize/classify.py", "cloudnetpy/categorize/droplet.py", "cloudnetpy/categorize/melting.py",
     "cloudnetpy/categorize/freezing.py", "cloudnetpy/categorize/insects.py", "cloudnetpy/categorize/falling.py",
     "cloudnetpy/categorize/containers.py"],
    [("classify_measurements", "cloudnetpy/categorize/classify.py"), ("find_liquid", "cloudnetpy/categorize/droplet.py"),
     ("find_melting_layer", "cloudnetpy/categorize/melting.py")],
    ["category_bits, quality_bits, rain_detected and insect_prob of the categorize file"],
    note="Whole categorize runs from files; the reference recomputes every pixel. Scenes closer than 2e-6 to a "
    "threshold are shifted.",
)
prop(
    "C15",
    "Reflectivity is corrected for attenuation as documented, with its error",
    "In every categorize file Z is the measured reflectivity plus every available two-way attenuation (gas, liquid, "
    "rain, melting layer), each amount follows the documented method from the written bits, liquid water path, rain "
    "rate and model profile with true gate lengths, Z_error combines the documented sources and is missing exactly "
    "where a present attenuation could not be corrected, Z_sensitivity includes gas attenuation and clutter, and the "
    "quality bits say which attenuation is present and which was corrected.",
    ["inputs", "configurations"],
    "all target columns x liquid water paths (zero, negative, missing) x rain readings x instrument sets x radar bands x "
    "even and uneven grids",
    "Tests check helper functions one at a time; amounts, errors and bits must agree in every combination of layers and "
    "missing instruments.",
    ["cloudnetpy/categorize/attenuation.py", "cloudnetpy/categorize/attenuations/liquid_attenuation.py",
     "cloudnetpy/categorize/attenuations/rain_attenuation.py", "cloudnetpy/categorize/attenuations/melting_attenuation.py",
     "cloudnetpy/categorize/attenuations/gas_attenuation.py", "cloudnetpy/categorize/radar.py"],
    [("get_attenuations", "cloudnetpy/categorize/attenuation.py"), ("correct_atten", "cloudnetpy/categorize/radar.py"),
     ("calc_errors", "cloudnetpy/categorize/radar.py")],
    ["Z, Z_error, Z_sensitivity, radar_*_atten and quality_bits of the categorize file"],
)
prop(
    "C16",
    "Observations reach the common grid without being mixed, moved or invented",
    "Categorize writes exactly the 30 s profiles covered by radar, lidar and model (and fails cleanly when fewer than "
    "two are); each value is the documented combination of the samples of that bin only - linear mean of reflectivity, "
    "folding-aware mean of velocity with the radar's own folding layout, nearest lidar value within 1 min and 100 m, "
    "radiometer within 2 min, disdrometer within 1 min, model interpolated in time and height at its own surface "
    "altitude - and missing or incomplete measurements stay missing.",
    ["inputs", "configurations"],
    "all words of samples per bin, coverage patterns, folding velocity layouts, lidar and model grids, gap sequences",
    "Tests average a few hand-made arrays; gaps, masks, instrument grids and folding layouts combine freely.",
    ["cloudnetpy/categorize/categorize.py", "cloudnetpy/categorize/radar.py", "cloudnetpy/categorize/lidar.py",
     "cloudnetpy/categorize/mwr.py", "cloudnetpy/categorize/disdrometer.py", "cloudnetpy/categorize/model.py",
     "cloudnetpy/utils.py", "cloudnetpy/cloudnetarray.py"],
    [("rebin_to_grid", "cloudnetpy/categorize/radar.py"), ("interpolate_to_grid", "cloudnetpy/categorize/model.py"),
     ("generate_categorize", "cloudnetpy/categorize/categorize.py")],
    ["time, height and measured variables of the categorize file"],
    note="Whole categorize runs from files. Stripe filtering (300 profiles and more) is outside the bound.",
)
prop(
    "C04",
    "Disdrometer telegrams of the day come out once, unmixed and on the right class",
    "parsivel2nc, thies2nc and rd802nc write, in time order, exactly one whole record per distinct time stamp of the "
    "requested day (malformed telegrams and other days are left out; too few records are refused without leaving a "
    "file), every variable of a record comes from that telegram and is missing where the telegram lacks it, values are "
    "in SI units, counts stand on the diameter and velocity class they were measured in, and the class tables, date, "
    "serial number and coordinates are those of the instrument and site whatever the number and order of records.",
    ["inputs", "histories"],
    "all sequences of up to three telegrams in nine Parsivel, five Thies and one RD-80 file formats, splits over files, "
    "absent fields, every spectrum cell, record counts around the class counts",
    "Unit tests read one well-formed sample per site and look at units and dimensions, not at values, order, gaps, "
    "splits over files or the orientation of the spectrum.",
    ["cloudnetpy/instruments/disdrometer/parsivel.py", "cloudnetpy/instruments/disdrometer/thies.py",
     "cloudnetpy/instruments/disdrometer/rd80.py", "cloudnetpy/instruments/disdrometer/common.py",
     "cloudnetpy/instruments/cloudnet_instrument.py", "cloudnetpy/disdronator/rd80.py"],
    [("parsivel2nc", "cloudnetpy/instruments/disdrometer/parsivel.py"),
     ("thies2nc", "cloudnetpy/instruments/disdrometer/thies.py"),
     ("rd802nc", "cloudnetpy/instruments/disdrometer/rd80.py")],
    ["all variables of the level 1b file"],
)
prop(
    "C05",
    "netCDF radars: profiles of the day come out once, still, unmixed and masked",
    "mira2nc, copernicus2nc, galileo2nc, basta2nc, bowtie2nc and mrr2nc write exactly the profiles of the requested "
    "day, in time order, one whole profile per time stamp, without profiles taken at low power, off zenith or while the "
    "antenna moved (Mira, Copernicus, Galileo); every gate keeps its own values in Cloudnet units, and is missing in all "
    "fields exactly where the documented noise, clutter or validity rule of that radar rejects it; range, height, "
    "angles, Nyquist velocity, calibration and site are those of the data kept. Other input is refused without output.",
    ["inputs", "configurations"],
    "all short words of profile times, days, splits over files, pointing and power states, gate states, file layouts "
    "and site options, including equal numbers of profiles and gates",
    "Tests convert one recorded file per radar and check names, units and a few values; screening, order and masks "
    "combine freely.",
    ["cloudnetpy/instruments/nc_radar.py", "cloudnetpy/instruments/mira.py", "cloudnetpy/instruments/copernicus.py",
     "cloudnetpy/instruments/galileo.py", "cloudnetpy/instruments/basta.py", "cloudnetpy/instruments/bowtie.py",
     "cloudnetpy/instruments/mrr.py", "cloudnetpy/instruments/cloudnet_instrument.py"],
    [("mira2nc", "cloudnetpy/instruments/mira.py"), ("copernicus2nc", "cloudnetpy/instruments/copernicus.py"),
     ("galileo2nc", "cloudnetpy/instruments/galileo.py"), ("basta2nc", "cloudnetpy/instruments/basta.py"),
     ("bowtie2nc", "cloudnetpy/instruments/bowtie.py"), ("mrr2nc", "cloudnetpy/instruments/mrr.py")],
    ["variables of the level 1b file", "ValidTimeStampError", "RadarDataError"],
    note="BOW-TIE files are processed daily files in time order.",
)
prop(
    "C06",
    "Lidar noise screening keeps real signal and removes noise, fog tops and sunbeams",
    "For the ceilometers cl31, cl51, cs135, chm15k, cl61d and da10, ceilo2nc keeps a backscatter value exactly when the "
    "documented screening accepts it: signal-to-noise ratio of at least 5 against the background from the topmost tenth "
    "of gates (with the instrument's minimum), weak values above runs of negative gates and above the peak of fog "
    "profiles removed, profiles with data in 15 of the 20 layers above 10 km removed as sunbeams. beta_smooth is the "
    "Gaussian mean (1 min, 10 m) with strong clouds unchanged; missing values never affect other gates.",
    ["inputs", "configurations"],
    "all pairs (all triples in thorough) of fifteen kinds of profiles on every instrument, vertical grid, time step, "
    "firmware generation and range-correction setting, and longer series",
    "Tests check the noise helpers on toy arrays and the number of unmasked values of a recorded file; interactions of "
    "neighbouring profiles, missing values, thresholds and instruments are not covered.",
    ["cloudnetpy/instruments/ceilometer.py", "cloudnetpy/instruments/ceilo.py"],
    [("ceilo2nc", "cloudnetpy/instruments/ceilo.py"), ("screen_data", "cloudnetpy/instruments/ceilometer.py"),
     ("calc_beta_smooth", "cloudnetpy/instruments/ceilometer.py"), ("screen_sunbeam", "cloudnetpy/instruments/ceilometer.py")],
    ["beta, beta_smooth, beta_raw and time of the level 1b file", "ValidTimeStampError"],
    note="Gates within 2e-5 of a threshold are not judged; CT25k screening belongs to the reader library.",
)
prop(
    "C07",
    "Lidars: profiles of the day come out once, in order, calibrated and in place",
    "ceilo2nc (CL31, CL51, CT25k, CS135, CHM15k, CHM15kx, CL61d, DA10) and pollyxt2nc write exactly the distinct valid "
    "profiles of the requested day in time order (corrupted messages, other days and unusable file pairs leave no "
    "trace); beta_raw is the raw signal times the calibration factor (old CHM15k firmware: normalized and range "
    "corrected first), beta, depolarisation and calibration belong to the same profile, beta is positive unaltered "
    "beta_raw, depolarisation lies in its valid range, and range, height, zenith angle, wavelength, date, serial number "
    "and site are those of that file, whatever was converted before. Other input is refused without output.",
    ["inputs", "histories", "configurations"],
    "all words of up to three profiles (times, days, repeats, corrupted or empty profiles) in eight ceilometer formats, "
    "their format options, all combinations of three kinds of PollyXT file pairs and sequences of conversions",
    "Tests convert one recorded file per model and check names, dates and totals; order, repeats, gaps, firmware, "
    "calibration and earlier conversions are not varied.",
    ["cloudnetpy/instruments/ceilo.py", "cloudnetpy/instruments/ceilometer.py", "cloudnetpy/instruments/vaisala.py",
     "cloudnetpy/instruments/lufft.py", "cloudnetpy/instruments/cl61d.py", "cloudnetpy/instruments/da10.py",
     "cloudnetpy/instruments/nc_lidar.py", "cloudnetpy/instruments/pollyxt.py"],
    [("ceilo2nc", "cloudnetpy/instruments/ceilo.py"), ("pollyxt2nc", "cloudnetpy/instruments/pollyxt.py")],
    ["all variables of the level 1b file", "ValidTimeStampError"],
    note="CT25k files are in time order; of profiles sharing a time stamp any one may be kept.",
)
prop(
    "C17",
    "RPG cloud radar: files of the day join into whole profiles on one range grid",
    "rpg2nc uses exactly the readable .LV1 files whose profiles are all of the requested day, in any number and order, and "
    "writes each distinct profile with a stable near-zenith angle once, in time order to the millisecond. Every gate "
    "carries its own value (nearest gate where the files have different range grids, nothing outside the grid of its "
    "file), missing exactly for no echo, fill values, too narrow spectra or too low depolarisation; every profile keeps "
    "its own chirp table, Nyquist velocity per gate and weather readings in SI units; height, location and constants fit "
    "the files used. Files that disagree on constants, or none usable, are refused without output.",
    ["inputs", "configurations"],
    "all words of up to three (four) profiles over times and kinds, cut into files, all sequences of two (three) files "
    "with different range grids and chirp programs, three polarisation modes, four file versions, broken and misdated files",
    "Tests convert two recorded days and check names, units and shapes; file order, repeated and tilted profiles, other "
    "grids, single chirps and fill values combine freely.",
    ["cloudnetpy/instruments/rpg.py", "cloudnetpy/instruments/rpg_reader.py", "cloudnetpy/instruments/cloudnet_instrument.py"],
    [("rpg2nc", "cloudnetpy/instruments/rpg.py"), ("create_one_day_data_record", "cloudnetpy/instruments/rpg.py"),
     ("Fmcw94Bin", "cloudnetpy/instruments/rpg_reader.py")],
    ["all variables of the level 1b file", "list of files used", "ValidTimeStampError"],
    note="Of profiles with the same time stamp any one may be kept.",
)
prop(
    "C18",
    "Microwave radiometers: each reading of the day once, joined with its own angle",
    "hatpro2nc joins the .LWP and .IWV files of the same name by time and writes every distinct time of the requested "
    "day once, in order, with the liquid water path and water vapour measured at that time (missing where one of them "
    "was not measured, is flagged low quality or the whole file is zero) and its zenith angle; files that are empty, "
    "broken, not in UTC, misdated, all of low quality or with contradicting angles leave no trace. radiometrics2nc does "
    "the same for .csv and .los files with zenith observations only and the nearest infrared and profile readings. "
    "Without usable liquid water path input is refused without output.",
    ["inputs", "configurations"],
    "all words of up to three (four) records over times, quality and angle kinds in each format, all pairs of such files "
    "with equal and different names, every subset of four files of ten kinds, format variants",
    "Tests convert recorded days and count records; order, repeats, partial overlaps of the two files, empty files and "
    "single records are not covered.",
    ["cloudnetpy/instruments/hatpro.py", "cloudnetpy/instruments/rpg_reader.py", "cloudnetpy/instruments/rpg.py",
     "cloudnetpy/instruments/radiometrics.py"],
    [("hatpro2nc", "cloudnetpy/instruments/hatpro.py"), ("HatproBinCombined", "cloudnetpy/instruments/rpg_reader.py"),
     ("radiometrics2nc", "cloudnetpy/instruments/radiometrics.py")],
    ["all variables of the level 1b file", "list of files used", "ValidTimeStampError"],
    note="Of records with the same time stamp any one may be kept.",
)
prop(
    "C19",
    "Conversions depend on their input alone and leave everything else alone",
    "What a converter or product generator writes, returns or raises depends only on its input files and arguments: not "
    "on conversions made before in the same process (of the same or another kind, successful or failed), an existing "
    "output file, hash seed, time zone or locale. It never changes its input files, the arguments given, or other "
    "files; it closes what it opened; it returns the identifier written to the file; and when it fails, it does not "
    "create or touch the output file. Damaged input never affects a later conversion.",
    ["histories", "fault sites"],
    "histories in which every ordered pair of 80 conversions of all kinds stands side by side (thorough: each pair and "
    "all triples of six families in a process of their own), every input file damaged in ten ways between conversions, "
    "four environments, five kinds of existing output",
    "Each test runs one conversion in a fresh object on sound data; shared attribute tables, instrument objects and "
    "arguments only show when conversions follow one another.",
    ["cloudnetpy/output.py", "cloudnetpy/metadata.py", "cloudnetpy/datasource.py", "cloudnetpy/instruments/instruments.py",
     "cloudnetpy/instruments/cloudnet_instrument.py", "cloudnetpy/categorize/categorize.py"],
    [("add_time_attribute", "cloudnetpy/output.py"), ("add_source_attribute", "cloudnetpy/output.py"),
     ("save_level1b", "cloudnetpy/output.py"), ("save_product_file", "cloudnetpy/output.py"),
     ("generate_categorize", "cloudnetpy/categorize/categorize.py")],
    ["output files byte by byte without file_uuid and the time in history", "input files", "open files", "arguments"],
    note="Interpreters are forked so that a fresh process is the reference of every step.",
)
prop(
    "C20",
    "Level 1b files say where the instrument stood, from the best source there is",
    "Latitude, longitude and altitude of a converted file come from the first available of: the instrument's own GPS "
    "(not for altitude; zero and missing fixes ignored), the coordinates given by the user, the variables of the raw "
    "file, its global attributes; sign, hemisphere and unit are understood, longitudes lie within -180...180 degrees, "
    "the source is named, and nothing is invented when there is none. A fixed site has one position even if the fixes "
    "jitter; of a moving platform every kept profile has its own position. Gate heights are heights above sea level "
    "with that altitude.",
    ["configurations", "inputs"],
    "any combination of sources present for each coordinate, missing and zero fixes, hemispheres and units in text, moving "
    "and fixed platforms, shuffled and repeated profiles",
    "Unit tests give one value of each source; the conversions of the test suite run on files from Europe with "
    "complete site descriptions.",
    ["cloudnetpy/utils.py", "cloudnetpy/instruments/cloudnet_instrument.py"],
    [("add_site_geolocation", "cloudnetpy/utils.py"), ("_parse_global_attribute_numeral", "cloudnetpy/utils.py"),
     ("add_height", "cloudnetpy/instruments/cloudnet_instrument.py")],
    ["latitude, longitude, altitude and their source attributes", "height"],
    note="A fixed site may be given as any mean of its fixes.",
)
prop(
    "C21",
    "Every file names its origin: identifier, sources, history, place and day",
    "A level 1b, categorize or product file carries a new or the given identifier, which is also returned; location, date "
    "and time unit of its data; type, title, references and version. A product names the files, instruments and "
    "identifiers it came from: each exactly once, all of them, and none that took no part; what an input does not say is "
    "left out. Its history holds every record of its inputs once (of the model the last one), newest first by absolute "
    "time with undated records last, below a new record of its own. Variables name the instrument they come from; "
    "time, height and position are those of the input.",
    ["configurations", "inputs"],
    "any combination of attributes present, missing, empty, shared or multi-line in the input files; undated and zoned "
    "history records; absent instruments; every way to give an identifier",
    "Unit tests merge two made-up histories and check uuids of mocks; the end-to-end tests look at a few titles.",
    ["cloudnetpy/output.py", "cloudnetpy/categorize/categorize.py", "cloudnetpy/utils.py"],
    [("save_level1b", "cloudnetpy/output.py"), ("save_product_file", "cloudnetpy/output.py"), ("merge_history", "cloudnetpy/output.py"),
     ("get_source_uuids", "cloudnetpy/output.py"), ("add_source_instruments", "cloudnetpy/output.py"),
     ("add_source_attribute", "cloudnetpy/output.py")],
    ["global attributes", "variable attributes source and source_instrument_pid", "returned identifier"],
    note="Inputs are assumed to name their source and location.",
)
prop(
    "C22",
    "Level 3 files hold the observations and the model on the same grid",
    "Every cell of a level 3 file is the mean of exactly those observations of the day that lie within the model cell's time "
    "and its height above ground (the advection fields: within the time the wind needs to cross a grid box, at most an hour), "
    "and is missing if there are none; cloud fraction by area is the share of profiles with cloud. Droplets and cold falling "
    "particles are cloud, rain, drizzle, aerosol and insects are not; only reliable ice retrievals count. Model values are "
    "those of the model below 22 km, condensate as water content, weak values missing, cirrus reduced to what the radar "
    "can see at that height. Unusable input and existing files are refused and leave no trace.",
    ["inputs", "configurations"],
    "any model grid, winds and missing values, any category bits and retrieval states of the observations, site altitudes, "
    "radar bands and sensitivities",
    "Unit tests use one toy grid of 3 x 2 cells with observations at sea level and check that variables exist; the end-to-end "
    "tests look at names.",
    ["cloudnetpy/model_evaluation/products", "cloudnetpy/model_evaluation/file_handler.py"],
    [("process_L3_day_product", "cloudnetpy/model_evaluation/products/product_resampling.py"),
     ("ProductGrid", "cloudnetpy/model_evaluation/products/grid_methods.py"),
     ("ObservationManager", "cloudnetpy/model_evaluation/products/observation_products.py"),
     ("ModelManager", "cloudnetpy/model_evaluation/products/model_products.py"),
     ("AdvanceProductMethods", "cloudnetpy/model_evaluation/products/advance_methods.py")],
    ["variables and attributes of the produced file", "exceptions", "input files"],
    note="Outermost cells reach one level spacing outwards. Calm wind of exactly zero is not judged.",
)
prop(
    "C23",
    "Turbulence follows from velocity and wind, and only from enough of it",
    "The dissipation rate of a radar pixel is the one its five minutes of Doppler velocity imply by the documented method "
    "(spectrum over wavenumber with the model wind at the pixel's time and height, bands with a slope near -5/3, error from "
    "their spread); windows with more than a tenth of the values missing, in the file or in the velocity, or with a missing "
    "end have none. The lidar rate is that of the velocity variance within three minutes and the measured wind. Times, "
    "heights, positions and origin are those of the inputs; too little wind and unusable files are refused without a trace.",
    ["inputs", "configurations"],
    "any pattern of missing values and profiles, sampling interval, time of day, wind field, platform motion, model surface",
    "There is no test of the radar product; the lidar product is run on one recorded day and its mean compared with a range.",
    ["cloudnetpy/products/epsilon_radar.py", "cloudnetpy/products/epsilon_lidar.py"],
    [("generate_epsilon_from_radar", "cloudnetpy/products/epsilon_radar.py"),
     ("generate_epsilon_from_lidar", "cloudnetpy/products/epsilon_lidar.py")],
    ["variables and attributes of the produced file", "exceptions"],
    note="Lidar wind fields that are curved in height fail (known finding).",
)
prop(
    "C24",
    "A day of weather radar scans becomes one profile per scan, without clutter",
    "From any list of vertical scans the output has one profile per scan of the day, each time once and in order, on the range "
    "grid of the farthest reaching scan: every value is the mean over the rays with echo of the nearest gate of its own scan "
    "(in linear units where the quantity is logarithmic), missing where nothing was measured. Reflectivity follows from signal, "
    "calibration and range; noise, and all gates up to the highest with strong echo that does not fall, are missing. Scans of "
    "absurd range are left out, and without any usable scan of the day nothing is written.",
    ["inputs", "configurations"],
    "any list and order of scans, times, days, range grids, encodings, missing quantities, patterns of missing rays, and echoes near the ground",
    "The one test converts a single recorded scan and checks that the variables exist.",
    ["cloudnetpy/instruments/weather_radar.py"],
    [("wr2nc", "cloudnetpy/instruments/weather_radar.py"), ("WeatherRadar", "cloudnetpy/instruments/weather_radar.py")],
    ["variables and attributes of the produced file", "ValidTimeStampError", "input files"],
    note="Of scans with equal times any one may be kept. Depth: lists of up to 3 scans (4 thorough).",
)
prop(
    "C25",
    "Level 3 statistics and figures compare each observation with the model",
    "Statistics of a level 3 file compare every observation field with the whole model field, independently of other fields and "
    "statistics: errors where both have a value and the model is not below every observation, common area as the share of "
    "cells with both among those with either, histograms of all values, profiles of time means. Figures draw every value of "
    "the file at its own time and height, in the colour their legend gives, with the stated median or area, a title naming "
    "what is compared, and missing values blank; the file stays as it was and unknown figure types are refused.",
    ["inputs", "configurations"],
    "any fields and patterns of missing, tiny and NaN values of the model and the observations, products, statistics, time grids, titles",
    "Unit tests compute each statistic on one fresh pair of arrays; the figures are drawn in no test but a smoke test.",
    ["cloudnetpy/model_evaluation/statistics/statistical_methods.py", "cloudnetpy/model_evaluation/plotting"],
    [("DayStatistics", "cloudnetpy/model_evaluation/statistics/statistical_methods.py"),
     ("generate_L3_day_plots", "cloudnetpy/model_evaluation/plotting/plotting.py"),
     ("get_statistic_plots", "cloudnetpy/model_evaluation/plotting/plotting.py"),
     ("read_data_characters", "cloudnetpy/model_evaluation/plotting/plot_tools.py")],
    ["values, colours, texts and titles of saved figures", "statistics"],
    note="Comparisons without a single common value are not judged. Error panels may leave out the last profile and level.",
)
prop(
    "C26",
    "Figures show every value of the file at its own time and height",
    "A figure of generate_figure shows each value of the asked variables at its own time and height, in the unit and colour "
    "its labels state, classes in the colour of their own label, flagged values marked as such, and nothing where a value is "
    "missing; every stretch without data longer than the file type allows is blank and marked, and shorter ones are not. "
    "Curves through points are moving averages over unbroken stretches of valid values, those of wind direction being "
    "averages of the wind vector. The file stays as it was; a figure without any of the variables is refused, nothing written.",
    ["inputs", "configurations"],
    "any pattern of missing profiles, values, flags and classes, file types, variables, altitudes and plot options",
    "Unit tests draw figures of a few files and check that nothing is raised; no test reads what a figure shows.",
    ["cloudnetpy/plotting"],
    [("generate_figure", "cloudnetpy/plotting/plotting.py"), ("FigureData", "cloudnetpy/plotting/plotting.py"),
     ("Plot1D", "cloudnetpy/plotting/plotting.py"), ("Plot2D", "cloudnetpy/plotting/plotting.py")],
    ["artists, labels and ticks of saved figures", "PlottingError"],
    note="Contour lines and the smoothed microwave radiometer profiles are not judged. Times lie within the day.",
)
prop(
    "C27",
    "The command line makes every product from the files it is meant to come from",
    "A run for a site and date writes exactly the asked products that can be made, each at its place and from the right files: "
    "measurements of one instrument, the preferred one by instrument or device in the order of preference, through its converter "
    "with its site and calibration; for derived products the files made by the same run, else those of the portal, the asked "
    "model, and for liquid water path the documented order of sources. The result depends neither on the order of products nor "
    "of downloads, running again gives the same, and a download-only run processes nothing.",
    ["inputs", "configurations", "schedules"],
    "any set and order of products, preferences, states of the portal, flags, output folders, order of completing downloads",
    "No unit test covers the command line.",
    ["cloudnetpy/cli.py"],
    [("run", "cloudnetpy/cli.py"), ("main", "cloudnetpy/cli.py")],
    ["files written and their contents", "figures asked for", "files downloaded"],
    note="The portal and everything that computes are stand-ins that record what they are given.",
)
prop(
    "C28",
    "Microwave radiometer products keep the measurements and say what they are",
    "The level 1c file of a microwave radiometer holds every measurement of the day, each time once and in order, with "
    "the values, missing values and quality flags they have, zenith angles, the best known position and the sources, history "
    "and coefficients it was made with; a day without files, or with more than nine tenths of the brightness temperatures "
    "flagged, is refused. Level 2 files hold the retrieved values unchanged, made with the coefficients and the offset asked "
    "for, name the measurement they come from, and are refused if no liquid water path (temperature, if scanning) is unflagged.",
    ["inputs", "configurations"],
    "any times, flags, missing values, positions, coefficients, offsets, instruments and identifiers",
    "One unit test makes a level 1c file and looks at its type; nothing covers the level 2 products.",
    ["cloudnetpy/instruments/hatpro.py", "cloudnetpy/products/mwr_tools.py"],
    [("hatpro2l1c", "cloudnetpy/instruments/hatpro.py"), ("_generate_product", "cloudnetpy/products/mwr_tools.py"), ("Mwr", "cloudnetpy/products/mwr_tools.py")],
    ["values and attributes of the files", "HatproDataError, ValidTimeStampError"],
    note="Reading of the binary files and the retrievals are those of the mwrpy package and not judged; stand-ins take their place.",
)
prop(
    "C29",
    "Raw disdrometer files are read telegram by telegram, broken ones skipped whole",
    "read_parsivel and read_lpm return, for any of the file formats they know, exactly the complete telegrams of the file "
    "in its order: every field of a telegram stands at the index of its time and under the number of the quantity it is, with "
    "the value that was written and missing where that is missing, whatever other telegrams of the file are cut, too long, "
    "empty, without a proper time or contain something that is not a number; the same telegrams read from different formats "
    "are the same.",
    ["inputs"],
    "any sequence of complete and broken telegrams in any format, any field broken, any missing value",
    "No unit test reads a file with these functions.",
    ["cloudnetpy/disdronator"],
    [("read_parsivel", "cloudnetpy/disdronator/parsivel.py"), ("read_lpm", "cloudnetpy/disdronator/lpm.py"), ("convert_to_numpy", "cloudnetpy/disdronator/utils.py")],
    ["returned times and fields"],
    note="Which side of the instrument a sensor head temperature belongs to is not judged.",
)
