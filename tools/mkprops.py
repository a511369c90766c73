"""Writes properties.jsonl (kept as a script because JSON lines are unpleasant to edit by hand)."""
import json, os
P = []


def p(id, title, statement, over, quant, why, files, mech, observe=(), state=()):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': quant}, 'why_tests_cant': why,
              'anchors': {'files': files,
                          'state': [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          'mechanism': [dict(name=a, where=b) for a, b in mech],
                          'observe_at': list(observe), 'hook_needed': None}})


CORE = 'gemlog/core.py'
p('C01', 'Samples come out with the right values at the right UTC times',
  'For every well-formed recording whose GPS coverage is adequate, in any supported raw format (0.8, 0.85, 0.85C, 0.9, 0.91, 1.10), read_gem returns evenly spaced 100 Hz integer-count traces in which the value at each output time is the pressure the logger recorded at that UTC time, to within about a millisecond of timing and the interpolation error of the samples. This holds over clock drift, millisecond-counter rollovers, file boundaries, pauses between files and within-file gaps of at most one second, and every recorded interval appears in the output except for at most a couple of samples at the edges of a continuous stretch.',
  ['inputs', 'histories'], 'all recordings: waveform, amplitude, raw format, drift (linear and slow nonlinear), starting millisecond count, GPS fix schedule, file count and length, gaps, pauses and restarts',
  'The stable tests read a handful of stored files and mostly assert that nothing crashes; no test compares samples or times with a known truth, and most integration data is absent.',
  [CORE, 'gemlog/parsers.pyx'],
  [('unrolling of the millisecond sawtooth', 'core._process_gemlog_data'), ('per-file cubic clock fit', 'core._calculate_drift/_robust_regress'), ('segment-wise time assignment', 'core._apply_segments/_assign_times'), ('resampling to the 0.01 s grid', 'core._interp_time'), ('latency correction', 'core._time_corrections')],
  ['the Stream, header, gps and metadata tables returned by read_gem'])
p('C02', 'Conversion keeps every recorded sample exactly once and invents none',
  'Over any sequence of raw files, the files written by convert together contain every recorded stretch from the first whole second on exactly once: no output time is covered twice, no recorded stretch longer than a few samples is missing, and no data are written inside recording gaps longer than about 0.05 s. The converted waveform does not depend on the output file length or on how many days are processed per block, apart from a couple of samples at joints.',
  ['inputs', 'histories', 'configurations'], 'all file sequences (continuous, missing numbers, gaps within and between files, restarts, day boundaries), all file_length_hour and blockdays',
  'No stable test runs convert on data to completion and compares what went in with what came out; block and window arithmetic is only exercised by one merge unit test.',
  [CORE], [('block loop and window loop', 'core.convert'), ('gap bridging limit', 'core._merge_gaps'), ('half-open windows', 'core._write_hourlong_mseed'), ('output names', 'core._make_filename_converted')],
  ['all files in convertedpath after convert returns'])
p('C03', 'Output files: one clock-aligned window each, correctly named, coded and encoded',
  'Every file convert writes holds data of one clock-aligned window of file_length_hour (windows count from 1970-01-01T00:00:00 UTC), its name starts with the UTC start time of its first sample as YYYY-MM-DDTHH_MM_SS (with a hundredths-of-second suffix _NN when an earlier output of the same conversion starts in the same second) followed by .network.station.location.HDF and the lower-case format, and its trace carries exactly those codes, sampling rate 100 Hz and integer counts. Station defaults to the serial number, and network and location default to blank.',
  ['inputs', 'configurations'], 'all recordings, file lengths, station/network/location codes and start times (including midnight, month and year ends)',
  'The tests check one file-name formatting helper on one example.',
  [CORE], [('window end', 'core._write_hourlong_mseed/_trunc_UTCDateTime'), ('names', 'core._make_filename_converted'), ('codes', 'core.read_gem')], ['names and headers of output files'])
p('C04', 'Start and stop times of a conversion are honoured',
  'When t1 and/or t2 are given to convert (as UTCDateTime or as seconds since the epoch), the output contains all recorded data between t1 and t2 and nothing outside them, for every position of t1 and t2 relative to files, blocks, windows and gaps, and convert does not fail because t1 or t2 falls outside the recording.',
  ['inputs', 'configurations'], 'all t1, t2 (both types), including inside gaps, on sample and window edges, before, after and far outside the data; all block sizes',
  'No test passes t1 or t2.',
  [CORE], [('trimming in the block loop', 'core.convert')], ['time span of all output files'])
p('C05', 'The raw format does not matter',
  'The same recording written in formats 0.85C, 0.9, 0.91 or 1.10 (any mixture of compact and long data lines) gives the same output samples and times up to the rounding of GPS pulse times in the file, and the repository\'s own 0.91-to-1.10 transcoder produces files that read back exactly like the original.',
  ['inputs'], 'all recordings and all legal mixtures of one-letter, two-letter, one-number and two-number data lines, including millisecond steps that are not 10 and values at the limits of the compact codes',
  'Tests read each format separately on one stored file and only check for crashes.',
  ['gemlog/parsers.pyx', CORE, 'gemlog/gemlog_aux.py'], [('compact line decoding', 'parsers.parse_gemfile'), ('transcoder', 'gemlog_aux._convert_raw_091_110')], ['read_gem output per format'])
p('C06', 'The native parser is memory-safe, deterministic and leak-free on any bytes',
  'For every file content whatsoever, parsing a raw file with the compiled parser performs no out-of-bounds or uninitialised memory access and no undefined arithmetic, either returns or raises a Python exception, gives the same result every time regardless of what was parsed before, and leaves no file open.',
  ['inputs', 'histories'], 'all byte strings (NULs, missing newlines, overlong lines, truncated and spliced records, extreme numbers) and all orders of parsing several files',
  'Tests parse a few good files and one corrupt file, without any instrumentation.',
  ['gemlog/parsers.pyx'], [('fixed line buffer, sscanf into scalars, bounds-checked views', 'parsers.parse_gemfile')], ['sanitizer reports, /proc/self/fd, results of repeated parses'])
p('C07', 'Every parsed row is exactly one complete line of the file',
  'The parser returns, in file order, exactly one row for every complete, well-formed D, G, M or compact data line, carrying exactly the numbers on that line, and nothing for other lines; a damaged, truncated or overlong line never changes the rows of the well-formed lines around it, and never yields numbers that are not on that line.',
  ['inputs'], 'all files: numbers of every sign and size the formats allow, comments, unknown record types, truncated last lines, damaged lines in any position',
  'The tests compare readers on one stored file; damaged lines are tested once, for not crashing.',
  ['gemlog/parsers.pyx'], [('line dispatch and field scanning', 'parsers.parse_gemfile')], ['arrays returned by parse_gemfile'])
p('C08', 'A bad file costs only itself, and is reported',
  'If some raw files of a logger are empty, truncated, filled with garbage, missing their header, out of time order or without usable GPS, then converting the set still converts every good file with unchanged samples and times, raises no exception as long as one good file exists, and the returned problem list identifies every non-empty file that was dropped. If no file is usable, the documented exception types (MissingRawFiles, CorruptRawFile and its subclasses) are raised, and nothing is converted.',
  ['inputs', 'fault_sequences'], 'all subsets of damaged files and kinds of damage (including those of the first file of a block and whole blocks), all block sizes',
  'Two stable tests cover the all-empty and all-missing cases; no test mixes damaged and good files and looks at the converted data.',
  [CORE], [('per-file exception handling', 'core._read_several'), ('file filtering', 'core._find_nonmissing_files'), ('block-level handling', 'core.convert')], ['converted data, returned problems, exception types'])
p('C09', 'GPS outliers do not shift times; files with untrustworthy GPS are refused',
  'A file with adequate GPS coverage and a few wildly wrong or invalid fixes is timed as if those fixes were absent. A file with no GPS, with GPS covering under half of its length, with fewer than ten consistent fixes, or with a step in GPS time within the file is never given sample times unless the user explicitly waives the GPS requirement; with the requirement waived, its samples are returned at nominal rate, in order and complete.',
  ['inputs', 'configurations'], 'all GPS histories: number, position and size of outliers, invalid fields, steps of any size above a quarter second, coverage fractions, fix counts; require_gps on and off',
  'Unit tests feed two synthetic series to the regression and step detector; none goes through reading a file.',
  [CORE], [('bounds filter', 'core._gps_in_bounds'), ('recursive outlier rejection', 'core._robust_regress'), ('step detection', 'core._detect_step'), ('coverage and count limits', 'core._calculate_drift')], ['read_gem output times, exceptions'])
p('C10', 'gem_cat merges files without changing the recording',
  'gem_cat copies every data line of the input files, from the first file with GPS on, into its output exactly once and in order, so that the recorded counts and their sample-to-sample millisecond steps are those of the originals across every join; every output file starts with a file that had GPS, the originals are untouched, and converting the merged files gives the waveform the logger recorded.',
  ['inputs', 'histories'], 'all sequences of files with and without GPS, formats 0.85C, 0.9, 0.91 and 1.10, first lines of every shape, cat_all on and off',
  'gem_cat\'s only test needs data that is not in the repository and is not among the stable tests.',
  ['gemlog/gem_cat.py'], [('re-basing the first difference of an appended file', 'gem_cat.AppendFile')], ['bytes of output files, read_gem of output'])
p('C11', 'Parallel conversion gives what serial conversion gives',
  'For any set of serial numbers and any number of worker processes, gemconvert writes exactly the same converted, metadata and GPS files as with one process, whatever the interleaving of the workers and even if the output folders do not exist yet; a serial number whose data cannot be converted does not keep any other from being converted completely.',
  ['schedules', 'configurations', 'fault_sequences'], 'all interleavings of workers (in particular around folder creation), worker counts, numbers of loggers, loggers with bad data',
  'No test runs gemconvert with more than one process, and a test would see only one interleaving.',
  ['gemlog/gemconvert.py', CORE], [('process pool', 'gemconvert.main'), ('folder creation', 'core.convert')], ['output trees, log file'])
p('C12', 'gemconvert converts the loggers asked for, with their own codes, and no others',
  'gemconvert converts exactly the serial numbers selected by -s, -x and the codes file (default: all present in the input folder), regardless of the order they are named in or other files in the folder; every output file holds samples of only the logger it is named for, with the network, station and location the codes file gives that logger; and -o, -f, -l and -t act as documented.',
  ['inputs', 'configurations'], 'all option combinations, sets of loggers (including numbers with leading zeros and old .TXT files), codes files with or without header, column order, extra loggers, missing loggers',
  'No stable test runs the command line program.',
  ['gemlog/gemconvert.py', 'gemlog/gem_network.py', CORE], [('option handling and SN list', 'gemconvert.main'), ('codes lookup', 'gem_network._get_station_info'), ('SN filter', 'core.convert')], ['output trees'])
p('C13', 'Metadata and GPS side files are complete, correctly timed and never overwritten',
  'Each conversion writes one metadata table and one GPS table per logger that contain, in time order, every state-of-health record and every valid GPS fix of the converted files exactly once, with the recorded values and with UTC times right to a few milliseconds; a repeated conversion creates the next free file number and leaves earlier tables byte-identical.',
  ['inputs', 'histories'], 'all recordings and block sizes, repeated conversions, pre-existing files with gaps in the numbering, user-chosen file names',
  'No stable test opens a metadata or GPS file written by convert.',
  [CORE], [('first and later block writes', 'core.convert'), ('numbering', 'core._make_filename'), ('GPS table', 'core._reformat_GPS')], ['metadata/ and gps/ folders'])
p('C14', 'Raw data are never modified and an interrupted conversion can be repeated',
  'No gemlog operation changes, creates or deletes anything in the raw folder, and every file written lies in the folders the user named. If a conversion is killed or an output write fails at any point, running the same operation again produces the same converted (or merged) files and newest side files as an undisturbed run, and a failed write is reported rather than silently skipped.',
  ['crash_points', 'fault_sequences'], 'all points at which the process can be killed or a write can fail during conversion; all entry points that read raw data',
  'No test interrupts a conversion or injects a failing write.',
  [CORE, 'gemlog/gemconvert.py', 'gemlog/gemconvert_single.py', 'gemlog/gem_cat.py'], [('idempotent naming and whole-file writes', 'core._write_hourlong_mseed')], ['file-system event log, folder hashes, second-run output'])
p('C15', 'Instrument constants are consistent for every serial number and gain',
  'For every valid serial number, hardware version, voltage and pressure resolution are defined, constant within a version, and related by that version\'s sensitivity; low gain exactly doubles both resolutions relative to high gain; the response returned for a gain setting has an overall sensitivity equal to the product of its stage gains at the nominal frequency and agreeing with the resolution of current hardware at that gain; and removing the response from a synthetic signal recovers its pressure. Readers report these values for the logger and configuration that made the file.',
  ['inputs', 'configurations'], 'all serial numbers 003 and up, both gains, all requested units, signals of any frequency in the pass band',
  'Tests load the default response once and check that nothing fails.',
  [CORE, 'gemlog/gem_network.py', 'gemlog/data/response'], [('version table', 'core.get_gem_specs'), ('gain multiplier', 'core.get_bitweight_info'), ('response assembly', 'gem_network.get_gem_response')], ['returned dicts, Response objects, header table of read_gem'])
p('C16', 'Renaming and inventories assign each logger its own codes and coordinates',
  'rename_files writes, for each input file, one output file with exactly the same samples and times, the codes the station table gives that file\'s serial number, and a name that follows the requested pattern; files of unknown loggers are skipped. make_gem_inventory lists every logger that has coordinates exactly once under its network, station and location, with that logger\'s coordinates, serial number and padded time span, station coordinates that are the mean of their channels, and works whatever the order, capitalisation or optional columns of the table, and whether or not every logger has coordinates.',
  ['inputs', 'configurations'], 'all station tables (several networks, shared stations, repeated or blank codes, leading zeros, header or none, capitalisation, DataFrame or file), coordinate tables in any row order with missing loggers',
  'One test checks one file-name pattern.',
  ['gemlog/gem_network.py'], [('table reading', 'gem_network._get_station_info'), ('renaming', 'gem_network.rename_files'), ('inventory loop', 'gem_network.make_gem_inventory')], ['output files, Inventory object'])
p('C17', 'GPS summaries give the site of each logger despite outliers',
  'summarize_gps returns one row per selected logger with the mean and standard error of its GPS positions within t1-t2 after rejecting isolated outliers, the first and last fix times and the number of fixes used, computed only from that logger\'s most recent GPS table in each folder; include and exclude lists, station tables and the command-line form select and label loggers exactly as given.',
  ['inputs', 'configurations'], 'all GPS tables: number of fixes, scatter, outliers of any size up to a few percent of fixes, times, several folders and numbered tables, include/exclude lists, t1/t2',
  'The tests that call it fail or are absent from the stable set; none has outliers.',
  ['gemlog/gem_network.py'], [('outlier trimming', 'gem_network._remove_outliers'), ('table selection', 'gem_network.read_gps')], ['returned table, csv/xml/kml outputs'])
p('C18', 'Cross-correlation lags have the right size, sign, window and coverage',
  'For coherent signals delayed between stations, the lag reported for each pair and window equals the true delay to within one (upsampled) sample with a sign convention that is the same for all pairs and days, lags around a closed loop sum to zero, each window\'s reported time is its true centre, the mean coefficient is that of its pairs, and a window is flagged consistent exactly when its lags close around the loop to within one sample per pair. Every selected channel and every moment of the selected time span is analysed, exactly once per window position, with no samples outside the span, whatever the day boundaries, file splits, channel selection or window settings.',
  ['inputs', 'configurations'], 'all delays below the search limit, station sets and orders, window lengths and overlaps, upsampling ratios, t1/t2, files split at any point and spanning several days',
  'One test checks the lag of one shifted pair on one day.',
  ['gemlog/xcorr.py'], [('windowing', 'xcorr.apply_function_windows'), ('day loop', 'xcorr.loop_through_days'), ('correlation', 'xcorr.xcorr_function'), ('ID selection', 'xcorr._check_input_IDs')], ['table returned by xcorr_all'])
p('C19', 'Noise models are self-consistent for every band and spectrum type',
  'For every supported model, version, frequency vector and band, the power, amplitude and dB outputs describe the same spectrum and the same integrated noise (amplitude squared is power; dB is ten times its log), integrated noise is additive over adjoining bands and independent of the frequencies requested, the returned spectrum passes through the tabulated model, is never extrapolated outside it, and the low, medium and high models are ordered; all documented model names work.',
  ['inputs', 'configurations'], 'all models and aliases, frequency vectors, bands and spectrum types',
  'Two tests check one integral each.',
  ['gemlog/gemlog_aux.py', 'gemlog/data/noise'], [('spline and quadrature', 'gemlog_aux._noise_spectrum_helper')], ['returned dict'])
p('C20', 'The huddle test flags a logger exactly when its data break a limit',
  'For every set of loggers, verify_huddle_test marks a battery, temperature, auxiliary-voltage, buffer, overrun, stack or GPS-run-time result as error, warning or note exactly when that logger\'s records cross the limit printed in its report and OKAY otherwise (with a message naming the logger), reports the statistics of the right logger, reports as errors exactly the loggers that start more than 20 minutes after the first or stop more than 20 minutes before the last and those whose temperature at some time departs from the group median by more than 1.5 degrees, reports nonzero time lags among loggers exactly when there are any, returns its documented dict, tests exactly the serial numbers asked for, copes with data gaps, and does not modify the data it examines.',
  ['inputs', 'configurations'], 'all combinations of loggers and of values on either side of every limit, single loggers and groups, include and exclude lists',
  'No stable test runs it.',
  ['gemlog/huddle_test.py'], [('per-logger limit tests', 'huddle_test.verify_huddle_test')], ['returned dict, printed messages'])
p('C21', 'Merging files into days keeps every sample of every channel',
  'merge_files_day writes one file per day and channel that contains every sample of that day\'s input files of that channel at its original time, keeps gaps from corrupting samples on either side, mixes no channels or days, and leaves the inputs untouched.',
  ['inputs'], 'all sets of files per day: any number, order, sub-day length, contiguous or overlapping, several channels whose codes are prefixes or suffixes of one another',
  'No stable test covers it.',
  ['gemlog/gem_network.py'], [('grouping by name and merging', 'gem_network.merge_files_day')], ['output files'])
p('C22', 'Single-file conversion agrees with the main reader',
  'gemconvert_single writes, for a raw file with adequate GPS, the same samples at the same times as reading that file with read_gem, to the file the user named (default: input name plus .mseed); a file with inadequate GPS is refused with a message and no output unless conversion is forced, in which case all samples are written at nominal rate.',
  ['inputs', 'configurations'], 'all raw files and formats with gaps, drift, good, poor or no GPS; forced or not; output names',
  'No test runs it.',
  ['gemlog/gemconvert_single.py', CORE], [('single-file path', 'core._convert_one_file')], ['output file, exit and messages'])
p('C23', 'The waveform database and channel statistics describe the files',
  'make_db returns (and saves, if asked) one row per readable one-trace waveform file matching the pattern, in name order, with that file\'s name, codes, time span, extreme counts and high-passed amplitude, skipping unreadable files without losing others; calc_channel_stats returns, per station with data in the requested span, the fractions of that span with data and with good data (hour-long files with amplitudes between 0.5 and 20000 counts) and the amplitude quartiles of that station\'s rows inside the span, whether the table is given as returned or as re-read from the saved file, and does not modify it.',
  ['inputs'], 'all folders of waveform files, including unreadable ones; all time spans',
  'No stable test covers either function.',
  ['gemlog/gemlog_aux.py'], [('file loop', 'gemlog_aux.make_db'), ('statistics', 'gemlog_aux.calc_channel_stats')], ['returned tables and csv'])
p('C24', 'All output formats carry the same data',
  'For any recording, converting to SAC, TSPAIR or WAV yields the same set of files (by start time and span) as miniSEED, with the same sample times and counts in the same order; SAC carries the Pascals-per-count factor of the logger, and WAV is the mean-removed waveform scaled to a peak of one at 100 Hz.',
  ['inputs', 'configurations'], 'all recordings (including constant signals and gaps), all formats and file lengths',
  'No stable test writes any format other than by a mocked helper.',
  [CORE], [('format switch', 'core._write_hourlong_mseed/write_wav')], ['output files per format'])
p('C25', 'Direction estimates invert lags correctly for any array',
  'For a plane wave crossing any array of three or more non-collinear sensors, inverting the exact inter-sensor lags with the sensor coordinates returns the true back-azimuth and horizontal slowness, regardless of the order in which stations are listed in the coordinates, of additional stations without lags, of the number of windows, or of which windows of the table are selected or how they are sorted, and coordinates read from an inventory or stream are the stations\' relative east and north distances in kilometres.',
  ['inputs', 'configurations'], 'all array geometries, back-azimuths, slownesses, station orders and supersets, coordinate sources',
  'One test uses one square array and ordered stations.',
  ['gemlog/xcorr.py'], [('least-squares inversion', 'xcorr.invert_for_slowness'), ('coordinates', 'xcorr.get_coordinates')], ['returned table'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        f.write(json.dumps(x) + '\n')
print(len(P))
